"""tools/design.py: write DESIGN.md from design_body.md, the checks, known_findings.json and seeded/."""
import ast,glob,json,os
os.chdir('/verif')
out=[open('tools/design_body.md').read()]
kf=json.load(open('known_findings.json'))
out.append('## 4. Genuine defects repaired (each one `fix:` commit in /repo)\n')
for e in kf['fixed']:
    out.append('* '+(e if isinstance(e,str) else json.dumps(e)).replace('fixed: property=',''))
out.append('\n## 5. Known findings (recorded, not repaired)\n')
for e in kf['findings']: out.append('* %s %s/%s: %s'%(e['id'],e['property'],e['facet'],e['what']))
out.append('\n## 6. Facets\n\nCases per quick / thorough run (blank: the facet enumerates everything).\n')
tot=[0,0]
for f in sorted(glob.glob('checks/c*.py')):
    t=ast.parse(open(f).read()); m={}; fs=[]
    for n in t.body:
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name) and n.targets[0].id in('TECHNIQUE','RULE','ASSUMPTIONS','NOTE'):
            m[n.targets[0].id]=ast.literal_eval(n.value)
        if isinstance(n,ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d,ast.Call) and getattr(d.func,'id','')=='facet':
                    k={a.arg:ast.unparse(a.value) for a in d.keywords}
                    q=k.get('quick','') if 'enum' not in k else ''; th=k.get('thorough','') if 'enum' not in k else ''
                    fs.append('  * `%s` %s — %s'%(n.name,('%s / %s'%(q,th)) if q else '(enumerated)',(ast.get_docstring(n) or n.name.replace('_',' ')).replace('\n',' ')))
    out.append('**%s** %s. *%s*'%(os.path.basename(f)[:-3].upper(),m.get('TECHNIQUE',''),m.get('RULE','')))
    out+=fs; out.append('')
out.append('## 7. Planted bugs (seeded/)\n\nEach was confirmed with `tools/plant.sh ID test`: the demo passes on the clean tree and fails with the\npatch, the stable tests pass with it. "caught" is the result of the property\'s quick check (seed 1).\n')
res=json.load(open('tools/plants.json')) if os.path.exists('tools/plants.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[1]
    out.append('* **%s** (%s, %s): %s. Needs: %s.'%(i,m['property'],res.get(i,'?'),m['what_it_breaks'],m['needs']))
out.append('\n'+open('tools/design_mutants.md').read())
open('DESIGN.md','w').write('\n'.join(out)+'\n')
