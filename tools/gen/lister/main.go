package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
)

func main() {
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(os.Args[1])
	if err != nil {
		panic(err)
	}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		k := ""
		switch x := o.(type) {
		case *types.TypeName:
			k = "type"
			if nm, ok := x.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				k = "gtype"
			}
		case *types.Func:
			k = "func"
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				k = "gfunc"
			}
		case *types.Const:
			k = "const"
		case *types.Var:
			k = "var"
		}
		fmt.Println(k, n)
	}
}
