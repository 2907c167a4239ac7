#!/usr/bin/env python3
# Generates <shim>/zz_reexport.go: everything exported by the real package that
# the shim does not define itself. usage: genreexport.py <lister binary>
import subprocess,sys,re,glob,os
SIM='/verif/sim'
M={'time':'ztime','net':'znet','context':'zctx','math/rand':'zmrand','math/rand/v2':'zmrand2','crypto/rand':'zcrand','github.com/yoss22/bulletproofs':'zbp'}
for real,shim in M.items():
    own=set()
    for f in glob.glob(f'{SIM}/{shim}/*.go'):
        if f.endswith('zz_reexport.go'): continue
        s=open(f).read()
        own|=set(re.findall(r'^func ([A-Z]\w*)',s,re.M))|set(re.findall(r'^type ([A-Z]\w*)',s,re.M))|set(re.findall(r'^var ([A-Z]\w*)',s,re.M))
    names=[l.split() for l in subprocess.check_output([sys.argv[1],real],text=True).split('\n') if l]
    out=f'//go:build go1.24\n\n// Code generated by tools/gen/genreexport.py. DO NOT EDIT.\n\npackage {shim}\n\nimport real "{real}"\n\n'
    hdr=out
    for k,n in names:
        if n in own: continue
        if k=='type': out+=f'type {n} = real.{n}\n'
        elif k=='const': out+=f'const {n} = real.{n}\n'
        elif k in('func','var'): out+=f'var {n} = real.{n}\n'
        else: print('skip',real,k,n)
    if out==hdr: continue
    open(f'{SIM}/{shim}/zz_reexport.go','w').write(out)
