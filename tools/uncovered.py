#!/usr/bin/env python3
# Lists the functions of /repo no check encodes (development aid; reads evidence/).
import json,glob,re,subprocess
cov=set()
for f in glob.glob('/verif/evidence/C*.json'):
    d=json.load(open(f))
    cov|=set(d['coverage'].get('functions_encoded',[]))
allf=set()
for f in subprocess.run("find /repo -name '*.go' -not -name '*_test.go' -not -path '*/.git/*' -not -path '*/vendor/*'",shell=True,capture_output=True,text=True).stdout.split():
    pkg='/'.join(f.split('/')[2:-1])
    for l in open(f):
        m=re.match(r'func (?:\((\w+ )?(\*?)(\w+)\) )?(\w+)\(',l)
        if m:
            _,st,ty,n=m.groups()
            base='github.com/xtfly/log4g'+('/'+pkg if pkg else '')
            if ty: name='(%s%s.%s).%s'%(st,base,ty,n)
            else: name=base+'.'+n
            allf.add((name,f))
for n,f in sorted(allf):
    if n not in cov: print(n, f.replace('/repo/',''))
