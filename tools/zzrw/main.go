// Command zzrw instruments the packages of a Go module for the simulator: it
// rewrites goroutines, channels, selects, map ranges and the imports of
// nondeterministic standard packages, and writes a build overlay.
//
//	zzrw -repo /repo -sim /verif/sim -out /verif/build/x
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo = flag.String("repo", "/repo", "module root")
	sim  = flag.String("sim", "/verif/sim", "simulator packages")
	out  = flag.String("out", "", "output directory")
)

type pkgJSON struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Imports    []string
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "zzrw: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Imports,Error", "./...")
	cmd.Dir = *repo
	var buf, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &eb
	if err := cmd.Run(); err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	all := map[string]*pkgJSON{}
	var order []*pkgJSON
	dec := json.NewDecoder(&buf)
	for {
		p := &pkgJSON{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		all[p.ImportPath] = p
		order = append(order, p)
	}
	mb, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	mod := ""
	for _, l := range strings.Split(string(mb), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(l[7:])
		}
	}
	zz := mod + "/zzsim"
	if err := os.MkdirAll(*out, 0755); err != nil {
		die("%v", err)
	}
	replace := map[string]string{}
	// simulator and harness packages
	filepath.Walk(*sim, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			die("%v", err)
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(*sim, p)
			replace[filepath.Join(*repo, "zzsim", rel)] = p
		}
		return nil
	})
	var done []string
	for _, p := range order {
		if p.Module == nil || p.Module.Path != mod || p.Name == "main" || p.Standard {
			continue
		}
		instrument(p, all, zz, replace)
		done = append(done, p.ImportPath)
	}
	// tell the harness whether the proof-of-work hook is in place
	hook := filepath.Join(*out, "src", "zz_pow.go")
	os.MkdirAll(filepath.Dir(hook), 0755)
	os.WriteFile(hook, []byte(fmt.Sprintf("//go:build go1.24\n\npackage zzrt\n\n// PowHooked says whether the verifier consults PowHook.\nconst PowHooked = %v\n", powHooked)), 0644)
	replace[filepath.Join(*repo, "zzsim", "zzrt", "zz_pow.go")] = hook
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(*out, "packages.txt"), []byte(strings.Join(done, "\n")+"\n"), 0644)
}

var shimOf = map[string]string{
	"sync": "zsync", "sync/atomic": "zatomic", "time": "ztime", "net": "znet", "context": "zctx",
	"math/rand": "zmrand", "math/rand/v2": "zmrand2", "crypto/rand": "zcrand",
	"github.com/yoss22/bulletproofs": "zbp",
}

type edit struct {
	a, b int // byte offsets
	s    string
	seq  int
}

type rw struct {
	fset  *token.FileSet
	file  *ast.File
	tf    *token.File
	src   []byte
	info  *types.Info
	pkg   *types.Package
	edits []edit
	seq   int
	n     int
	inits int
	need  map[string]bool
	zz    string
	par   map[ast.Node]ast.Node
	useZZ bool
}

func (r *rw) off(p token.Pos) int { return r.tf.Offset(p) }
func (r *rw) put(a, b token.Pos, s string) {
	r.seq++
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, r.seq})
}
func (r *rw) ins(a token.Pos, s string) { r.put(a, a, s) }

// text renders [a,b) with the edits inside applied.
func (r *rw) text(a, b token.Pos) string { return r.render(r.off(a), r.off(b)) }

func (r *rw) render(a, b int) string {
	var in []edit
	for _, e := range r.edits {
		if e.a >= a && e.b <= b {
			in = append(in, e)
		}
	}
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].a != in[j].a {
			return in[i].a < in[j].a
		}
		if in[i].b != in[j].b {
			return in[i].b < in[j].b
		}
		return in[i].seq < in[j].seq
	})
	var o strings.Builder
	p := a
	for _, e := range in {
		if e.a < p {
			continue // inside a replaced region
		}
		o.Write(r.src[p:e.a])
		o.WriteString(e.s)
		p = e.b
	}
	o.Write(r.src[p:b])
	return o.String()
}

// drop removes the edits inside [a,b) (their text was rendered elsewhere).
func (r *rw) drop(a, b token.Pos) {
	x, y := r.off(a), r.off(b)
	k := r.edits[:0]
	for _, e := range r.edits {
		if e.a >= x && e.b <= y {
			continue
		}
		k = append(k, e)
	}
	r.edits = k
}

// swap replaces [a,b), dropping edits inside, and keeps the line count.
func (r *rw) swap(a, b token.Pos, s string) {
	want := bytes.Count(r.src[r.off(a):r.off(b)], []byte("\n"))
	got := strings.Count(s, "\n")
	for ; got < want; got++ {
		// in front, so that no newline separates a header from its body
		s = "\n" + s
	}
	r.drop(a, b)
	r.put(a, b, s)
}

func flat(s string) string { return s }

func (r *rw) under(e ast.Expr) types.Type {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}
func (r *rw) isChan(e ast.Expr) bool { _, ok := r.under(e).(*types.Chan); return ok }
func (r *rw) isMap(e ast.Expr) bool  { _, ok := r.under(e).(*types.Map); return ok }
func (r *rw) builtin(e ast.Expr) string {
	if id, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) fresh() string { r.n++; return fmt.Sprintf("zz%d", r.n) }

func isArrow(e ast.Expr) *ast.UnaryExpr {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) walk(n ast.Node) {
	// children first
	var kids []ast.Node
	ast.Inspect(n, func(m ast.Node) bool {
		if m == n {
			return true
		}
		if m != nil {
			kids = append(kids, m)
			r.par[m] = n
		}
		return false
	})
	for _, k := range kids {
		r.walk(k)
	}
	r.node(n)
}

func (r *rw) node(n ast.Node) {
	switch x := n.(type) {
	case *ast.SendStmt:
		if cc, ok := r.par[x].(*ast.CommClause); ok && cc.Comm == x {
			return
		}
		r.ins(x.Chan.Pos(), "zzrt.Send(")
		r.put(x.Chan.End(), x.Value.Pos(), ")(")
		r.ins(x.Value.End(), ")")
	case *ast.UnaryExpr:
		if x.Op != token.ARROW || r.commRecv(x) {
			return
		}
		f := "zzrt.Recv("
		p := r.par[x]
		for {
			if pe, ok := p.(*ast.ParenExpr); ok {
				p = r.par[pe]
				continue
			}
			break
		}
		switch y := p.(type) {
		case *ast.AssignStmt:
			if len(y.Lhs) == 2 && len(y.Rhs) == 1 {
				f = "zzrt.Recv2("
			}
		case *ast.ValueSpec:
			if len(y.Names) == 2 && len(y.Values) == 1 {
				f = "zzrt.Recv2("
			}
		}
		r.put(x.Pos(), x.X.Pos(), f)
		r.ins(x.X.End(), ")")
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "close":
			r.swap(x.Fun.Pos(), x.Fun.End(), "zzrt.Close")
		case "len":
			if len(x.Args) == 1 && r.isChan(x.Args[0]) {
				r.swap(x.Fun.Pos(), x.Fun.End(), "zzrt.ChanLen")
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				key := pn.Imported().Path() + "." + x.Sel.Name
				to := map[string]string{"os.Exit": "zzrt.Exit", "runtime.Gosched": "zzrt.Gosched",
					"log.Fatal": "zzrt.LogFatal", "log.Fatalf": "zzrt.LogFatal", "log.Fatalln": "zzrt.LogFatal"}[key]
				if to != "" {
					r.swap(x.Pos(), x.End(), to)
					r.need[id.Name+"."+x.Sel.Name] = true
				}
			}
		}
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			r.noteKey(l)
		}
	case *ast.GoStmt:
		r.goStmt(x)
	case *ast.SelectStmt:
		r.selectStmt(x)
	case *ast.ForStmt:
		r.ins(x.Body.Lbrace+1, " zzrt.Loop();")
	case *ast.RangeStmt:
		r.rangeStmt(x)
	}
}

// noteKey: m[ptr] = v on maps with pointer-like keys.
func (r *rw) noteKey(l ast.Expr) {
	ix, ok := ast.Unparen(l).(*ast.IndexExpr)
	if !ok || !r.isMap(ix.X) {
		return
	}
	m := r.under(ix.X).(*types.Map)
	switch m.Key().Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Interface:
		r.ins(ix.Index.Pos(), "zzrt.NoteKey("+r.typeConvOpen(m.Key()))
		r.ins(ix.Index.End(), ")"+r.typeConvClose(m.Key()))
	}
}
func (r *rw) typeConvOpen(t types.Type) string  { return "" }
func (r *rw) typeConvClose(t types.Type) string { return "" }

// commRecv says whether x is the receive of a select case.
func (r *rw) commRecv(x *ast.UnaryExpr) bool {
	var n ast.Node = x
	for {
		p := r.par[n]
		switch y := p.(type) {
		case *ast.ParenExpr:
			n = p
			continue
		case *ast.ExprStmt:
			n = p
			continue
		case *ast.AssignStmt:
			if len(y.Rhs) == 1 && y.Rhs[0] == n {
				n = p
				continue
			}
			return false
		case *ast.CommClause:
			return y.Comm == n
		}
		return false
	}
}

func (r *rw) isConstOrNil(e ast.Expr) bool {
	tv := r.info.Types[e]
	if tv.Value != nil || tv.IsNil() {
		return true
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return true
	}
	return false
}

func (r *rw) goStmt(x *ast.GoStmt) {
	c := x.Call
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && lit.Type.Results == nil {
		r.put(x.Pos(), c.Fun.Pos(), "zzrt.Go(")
		r.put(c.Fun.End(), c.End(), ")")
		return
	}
	var s strings.Builder
	s.WriteString("{ ")
	fun := ""
	if b := r.builtin(c.Fun); b != "" {
		fun = r.text(c.Fun.Pos(), c.Fun.End())
	} else if tv := r.info.Types[c.Fun]; tv.IsType() {
		fun = r.text(c.Fun.Pos(), c.Fun.End())
	} else {
		fun = r.fresh()
		fmt.Fprintf(&s, "%s := %s; ", fun, r.text(c.Fun.Pos(), c.Fun.End()))
	}
	var args []string
	if len(c.Args) == 1 {
		if tup, ok := r.info.TypeOf(c.Args[0]).(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				args = append(args, r.fresh())
			}
			fmt.Fprintf(&s, "%s := %s; ", strings.Join(args, ", "), r.text(c.Args[0].Pos(), c.Args[0].End()))
		}
	}
	if args == nil {
		for _, a := range c.Args {
			t := r.text(a.Pos(), a.End())
			if r.isConstOrNil(a) {
				args = append(args, t)
				continue
			}
			v := r.fresh()
			fmt.Fprintf(&s, "%s := %s; ", v, t)
			args = append(args, v)
		}
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	call := fmt.Sprintf("%s(%s%s)", fun, strings.Join(args, ", "), ell)
	if b := r.builtin(c.Fun); b != "" && b != "close" && b != "panic" && b != "print" && b != "println" && b != "delete" && b != "copy" && b != "recover" {
		call = "_ = " + call
	}
	fmt.Fprintf(&s, "zzrt.Go(func() { %s }) }", call)
	r.swap(x.Pos(), x.End(), s.String())
}

func (r *rw) labelOf(n ast.Stmt) *ast.LabeledStmt {
	if l, ok := r.par[n].(*ast.LabeledStmt); ok && l.Stmt == n {
		return l
	}
	return nil
}

func (r *rw) selectStmt(x *ast.SelectStmt) {
	if len(x.Body.List) == 0 {
		r.swap(x.Pos(), x.End(), "{ zzrt.BlockForever(); panic(0) }")
		return
	}
	sel := r.fresh()
	var pre strings.Builder
	fmt.Fprintf(&pre, "{ %s := zzrt.NewSelect(); ", sel)
	hasDef := false
	idx := 0
	last := len(x.Body.List) - 1
	for _, cl := range x.Body.List {
		if cl.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	for i, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			continue
		}
		head := fmt.Sprintf("case %d:", idx)
		if !hasDef && i == last {
			head = "default:"
		}
		idx++
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "zzrt.SelSend(%s, %s)(%s); ", sel, r.text(s.Chan.Pos(), s.Chan.End()), r.text(s.Value.Pos(), s.Value.End()))
		case *ast.ExprStmt:
			u := isArrow(s.X)
			fmt.Fprintf(&pre, "zzrt.SelRecv(%s, %s); ", sel, r.text(u.X.Pos(), u.X.End()))
		case *ast.AssignStmt:
			u := isArrow(s.Rhs[0])
			v := r.fresh()
			fmt.Fprintf(&pre, "%s := zzrt.SelRecv(%s, %s); ", v, sel, r.text(u.X.Pos(), u.X.End()))
			get := "V"
			if len(s.Lhs) == 2 {
				get = "V2"
			}
			head += fmt.Sprintf(" %s %s %s.%s();", r.text(s.Lhs[0].Pos(), s.Lhs[len(s.Lhs)-1].End()), s.Tok, v, get)
		}
		r.swap(cc.Case, cc.Colon+1, head)
	}
	lab := ""
	start := x.Pos()
	if l := r.labelOf(x); l != nil {
		lab = l.Label.Name + ": "
		start = l.Pos()
	}
	r.swap(start, x.Body.Lbrace, fmt.Sprintf("%s%sswitch %s.Do(%v) ", pre.String(), lab, sel, hasDef))
	r.ins(x.Body.Rbrace+1, " }")
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (r *rw) rangeStmt(x *ast.RangeStmt) {
	switch r.under(x.X).(type) {
	case *types.Map:
		it := r.fresh()
		kv := func(e ast.Expr) (decl, addr string) {
			if e == nil || blank(e) {
				return "_", "nil"
			}
			t := r.text(e.Pos(), e.End())
			if x.Tok == token.DEFINE {
				return t, "&" + t
			}
			return "_", "&" + t
		}
		kd, ka := kv(x.Key)
		vd, va := kv(x.Value)
		m := r.text(x.X.Pos(), x.X.End())
		r.swap(x.Pos(), x.Body.Lbrace, fmt.Sprintf("for %s, %s, %s := zzrt.MapIter(%s); %s.Next(%s, %s); ", it, kd, vd, m, it, ka, va))
		r.ins(x.Body.Lbrace+1, " zzrt.Loop();")
	case *types.Chan:
		ch, v, ok := r.fresh(), r.fresh(), r.fresh()
		c := r.text(x.X.Pos(), x.X.End())
		assign := "_ = " + v + ";"
		if x.Key != nil && !blank(x.Key) {
			k := r.text(x.Key.Pos(), x.Key.End())
			if x.Tok == token.DEFINE {
				// one variable per loop, as before Go 1.22
				r.swap(x.Pos(), x.Body.Lbrace, fmt.Sprintf("for %s, %s, %s := zzrt.RangeChan(%s); %s; %s, %s = zzrt.Recv2(%s) ", ch, k, ok, c, ok, k, ok, ch))
				r.ins(x.Body.Lbrace+1, " zzrt.Loop();")
				return
			}
			assign = k + " = " + v + ";"
		}
		r.swap(x.Pos(), x.Body.Lbrace, fmt.Sprintf("for %s, %s, %s := zzrt.RangeChan(%s); %s; %s, %s = zzrt.Recv2(%s) ", ch, v, ok, c, ok, v, ok, ch))
		r.ins(x.Body.Lbrace+1, " zzrt.Loop(); "+assign)
	default:
		r.ins(x.Body.Lbrace+1, " zzrt.Loop();")
	}
}

// powHook lets the harness vouch for made-up proofs of work: at the head of
// the verifier, proofs the harness registered count as valid. Everything else
// is decided by the real code.
func (r *rw) powHook(fd *ast.FuncDecl) {
	o, ok := r.info.Defs[fd.Name].(*types.Func)
	if !ok || fd.Recv == nil || fd.Name.Name != "Verify" || fd.Body == nil || len(fd.Recv.List[0].Names) != 1 {
		return
	}
	sig := o.Type().(*types.Signature)
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != "bool" ||
		sig.Params().At(0).Type().String() != "[]uint32" || sig.Params().At(1).Type().String() != "uint8" {
		return
	}
	rt := sig.Recv().Type()
	if pt, ok := rt.(*types.Pointer); ok {
		rt = pt.Elem()
	}
	st, ok := rt.Underlying().(*types.Struct)
	if !ok {
		return
	}
	key := ""
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().Underlying().String() == "[4]uint64" {
			key = st.Field(i).Name()
		}
	}
	a, b, c := fd.Recv.List[0].Names[0].Name, sig.Params().At(0).Name(), sig.Params().At(1).Name()
	if key == "" || a == "_" || b == "" || b == "_" || c == "" || c == "_" {
		return
	}
	r.ins(fd.Body.Lbrace+1, fmt.Sprintf(" if zzrt.PowHook != nil && zzrt.PowHook(%s.%s, %s, %s) { return true };", a, key, b, c))
	powHooked = true
}

var powHooked bool

func instrument(p *pkgJSON, all map[string]*pkgJSON, zz string, replace map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		a, err := parser.ParseFile(fset, path, b, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files, srcs, names = append(files, a), append(srcs, b), append(names, path)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, FakeImportC: true}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	rs := make([]*rw, len(files))
	for i, f := range files {
		r := &rw{fset: fset, file: f, tf: fset.File(f.Pos()), src: srcs[i], info: info, pkg: tp,
			need: map[string]bool{}, zz: zz, par: map[ast.Node]ast.Node{}}
		rs[i] = r
		for _, d := range f.Decls {
			r.walk(d)
		}
	}
	fileOf := func(pos token.Pos) *rw {
		for _, r := range rs {
			if fset.File(pos) == r.tf {
				return r
			}
		}
		return nil
	}
	tails := map[*rw]*strings.Builder{}
	for _, r := range rs {
		tails[r] = &strings.Builder{}
	}
	var reset strings.Builder
	// variables without initialiser go back to zero
	hasInit := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			hasInit[l] = true
		}
	}
	sc := tp.Scope()
	var ints []string
	for _, n := range sc.Names() {
		v, ok := sc.Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		if !hasInit[v] {
			fmt.Fprintf(&reset, "\tzzrt.Zero(&%s)\n", n)
		}
		if b, ok := v.Type().(*types.Basic); ok && b.Kind() == types.Int {
			ints = append(ints, n)
		}
	}
	k := 0
	for _, in := range info.InitOrder {
		var lhs []string
		allBlank := true
		for _, l := range in.Lhs {
			lhs = append(lhs, l.Name())
			if l.Name() != "_" {
				allBlank = false
			}
		}
		if allBlank {
			continue
		}
		r := fileOf(in.Rhs.Pos())
		fmt.Fprintf(tails[r], "\nfunc zzIni%d() { %s = %s }\n", k, strings.Join(lhs, ", "), r.text(in.Rhs.Pos(), in.Rhs.End()))
		fmt.Fprintf(&reset, "\tzzIni%d()\n", k)
		k++
	}
	k = 0
	for i, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			rs[i].swap(fd.Name.Pos(), fd.Name.End(), fmt.Sprintf("zzInit%d", k))
			fmt.Fprintf(&reset, "\tzzInit%d()\n", k)
			k++
		}
	}
	if p.Name == "cuckoo" {
		for i, f := range files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					rs[i].powHook(fd)
				}
			}
		}
	}
	od := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_"))
	os.MkdirAll(od, 0755)
	for i, r := range rs {
		f := files[i]
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, "\"")
			sh := shimOf[path]
			if sh == "" {
				continue
			}
			if im.Name == nil {
				name := ""
				if q := all[path]; q != nil {
					name = q.Name
				}
				r.swap(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%s %q", name, zz+"/"+sh))
			} else {
				r.swap(im.Path.Pos(), im.Path.End(), fmt.Sprintf("%q", zz+"/"+sh))
			}
		}
		r.ins(f.Name.End(), fmt.Sprintf("; import zzrt %q", zz+"/zzrt"))
		body := r.render(0, len(r.src))
		var keep []string
		for n := range r.need {
			keep = append(keep, n)
		}
		sort.Strings(keep)
		tail := "\nvar _ = zzrt.Loop\n"
		for _, n := range keep {
			tail += "var _ = " + n + "\n"
		}
		o := "//go:build go1.21\n\n//line " + names[i] + ":1\n" + stripBuild(body) + "\n//line zz_tail.go:1\n" + tail + tails[r].String()
		dst := filepath.Join(od, filepath.Base(names[i]))
		if err := os.WriteFile(dst, []byte(o), 0644); err != nil {
			die("%v", err)
		}
		replace[names[i]] = dst
	}
	var s strings.Builder
	fmt.Fprintf(&s, "//go:build go1.21\n\npackage %s\n\nimport zzrt %q\n\nvar _ = zzrt.Loop\n\n// SimReset re-runs the package's initialisation.\nfunc SimReset() {\n%s}\n\n", tp.Name(), zz+"/zzrt", reset.String())
	s.WriteString("// SimSet sets a package-level int variable.\nfunc SimSet(name string, v int) bool {\n\tswitch name {\n")
	for _, n := range ints {
		fmt.Fprintf(&s, "\tcase %q:\n\t\t%s = v\n\t\treturn true\n", n, n)
	}
	s.WriteString("\t}\n\treturn false\n}\n\n// SimGet reads a package-level int variable.\nfunc SimGet(name string) (int, bool) {\n\tswitch name {\n")
	for _, n := range ints {
		fmt.Fprintf(&s, "\tcase %q:\n\t\treturn %s, true\n", n, n)
	}
	s.WriteString("\t}\n\treturn 0, false\n}\n")
	dst := filepath.Join(od, "zz_reset.go")
	os.WriteFile(dst, []byte(s.String()), 0644)
	replace[filepath.Join(p.Dir, "zz_reset.go")] = dst
}

func stripBuild(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			ls[i] = ""
		}
	}
	return strings.Join(ls, "\n")
}
