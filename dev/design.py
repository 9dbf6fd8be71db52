"""writes DESIGN.md"""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
props=[json.loads(l) for l in open('properties.jsonl')]
out=[]
esc=lambda s: str(s).replace('|','\\|').replace('\n','\\n')
for p in props:
    c=json.load(open(f"harness/{p['id']}/config.json"))
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    w=p.get('why_tests_cant')
    if w: out.append(f"Tests: {w}\n")
    out.append(f"Harness `harness/{p['id']}`, anchored in {', '.join(p['anchors']['files'])}.\n")
    out.append('| entry | decides | within |\n|---|---|---|')
    for e in c['entries']:
        out.append(f"| {e['name']}{' (thorough only)' if e.get('thorough_only') else ''}{' (every map order)' if e.get('map_order') else ''} | {esc(e.get('what',''))} | {esc(e.get('bounds',''))} |")
    out.append('')
    if c.get('outside'): out.append('Outside: '+'; '.join(c['outside'])+'.\n')
    if c.get('assumptions'): out.append('Assumed: '+'; '.join(c['assumptions'])+'.\n')
fixes=[]
for l in open('known-findings.txt'):
    if l.startswith('fixed: '):
        _,a,h,t=l.strip().split(' ',3)
        fixes.append(f"| {a.split('=')[1]} | {h} | {esc(t)} |")
fx="Defects of webrpc that the checks found, each with an input replayed on the real code, each repaired by a `fix:` commit:\n\n| property | commit | what failed |\n|---|---|---|\n"+'\n'.join(fixes)
det={}
if os.path.exists('dev/detected.tsv'):
    for l in open('dev/detected.tsv'):
        a=l.rstrip('\n').split('\t'); det[a[0]]=a[1:]
bugs=['| bug | property | needs | caught by |','|---|---|---|---|']
n=0
for d in sorted(glob.glob('seeded/*/meta.json')):
    i=d.split('/')[1]; m=json.load(open(d)); n+=1
    bugs.append(f"| {i} | {m['property']} | {esc(m['needs'])} | {det.get(i,['?'])[0]} |")
t=open('dev/design.md').read().replace('{{PROPERTIES}}','\n'.join(out).rstrip()).replace('{{FIXES}}',fx).replace('{{BUGS}}','\n'.join(bugs)).replace('{{NBUGS}}',str(n))
open('DESIGN.md','w').write(t)
