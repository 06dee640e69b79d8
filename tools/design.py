import json,os,glob,re
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
P={}
exec(open('/verif/tools/design_data.py').read())
known=json.load(open(V+'/known_findings.json'))
o=HEAD
for p in props:
    i=p['id']; h=open(f'{V}/harness/{i}.cpp').read()
    secs=re.findall(r'MC_SECTION\("([^"]+)"',h); vs=[v.split()[0] for v in re.findall(r'// VARIANT: (.*)',h)]
    o+=f"\n### {i} {p['title']}\n\n"
    d=D[i]
    o+=f"*Enumerated*: {d[0]}\n*Oracle*: {d[1]}\n*Why beyond tests*: {d[2]}\n"
    o+='*Sections*: '+', '.join(secs)+('; builds: '+', '.join(vs) if vs else '')+'.\n'
    a=re.findall(r'// ASSUME: (.*)',h)
    if a: o+='*Assumed*: '+'; '.join(a)+'.\n'
    k=[x for x in known['known'] if x['property']==i]
    if k: o+=f"*Known findings*: {len(k)} ("+', '.join(sorted({x['key'].split('/')[0] for x in k}))+', see below).\n'
o+=TAIL
o+='\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    j=json.load(open(m)); b=os.path.basename(os.path.dirname(m)); o+=f"| {b} | {j['property']} | {j['needs']} | {CAUGHT.get(b, j['property'])} |\n"
o+='\n## Repaired defects\n\n'+'\n'.join('* '+x.replace('fixed: property=','') for x in known['fixed'])+'\n'
o+='\n## Known findings\n\n'+'\n'.join(f"* {x['property']} `{x['key']}`: {x['what']}" for x in known['known'])+'\n'
open(V+'/DESIGN.md','w').write(o)
