#!/usr/bin/env python3
# rewrites section 6 of DESIGN.md from seeded/*/meta.json
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(V,i)))
    rows.append('| %s | %s | %s |'%(i,m['property'],m['what_it_breaks'].replace('|','/')))
sec='''## 6 Planted bugs

Each was written from a property's text and the code, compiles, passes the stable tests and has a demonstration. Every one is
caught by the quick check of its property (exit 1); ones the checks first missed and what was added: b36 (labels of varying
length in C18 ZZTime), b33 (environment functions in the os model), b04/b10/b25 in earlier rounds. Besides these, AST mutants
(deleted statements, negated conditions, changed literals and operators, dropped errors) of all files are run against the
checks whose encoded functions contain the mutated one; survivors were inspected one by one (equivalent, outside every
property, or answered with a new scenario).

| bug | property | what it breaks |
|---|---|---|
'''+'\n'.join(rows)+'\n\n'
p=V+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'## 6 .*?(?=## 7 )','',s,flags=re.S)
s=s.replace('## 7 Defects found in log4g (section 6 is below, it grows)','## 7 Defects found in log4g')
s=s.replace('## 7 ',sec+'## 7 ',1)
open(p,'w').write(s)
