"""development aid: plant(id, property, edits, demo files, needs, breaks) writes /verif/seeded/<id>;
run() confirms it (builds, passes the tests, demo passes before and fails after) and tries the checks."""
import json, os, subprocess, sys, shutil
S='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO='''#!/bin/bash
# run in the root of the repository
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$d/demo.go.txt" "$t/demo.go" || exit 3
go build -o "$t/demo" "$t/demo.go" || exit 3
cd "$t" && timeout 120 ./demo
'''
def original():
    for l in sh('git -C /repo log --reverse --format="%h %s"').stdout.splitlines():
        if ' fix:' in l: return l.split()[0]+'~1'
def check_original(d):
    "the lines a patch removes are lines of the original repository"
    base=original(); f=None
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): f=sh(f'git -C /repo show {base}:{l[6:].strip()}').stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].rstrip('\n') not in f:
            print(d,'NOT AN ORIGINAL LINE',l.rstrip())
def clean(): sh('git -C /repo checkout -q -- .')
def plant(id, prop, edits, demo, needs, breaks, extra=None, script=None):
    d=f'{S}/{id}'; os.makedirs(d,exist_ok=True)
    clean()
    for f,old,new in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
    diff=sh('git -C /repo diff').stdout; clean()
    open(d+'/patch.diff','w').write(diff)
    check_original(d)
    open(d+'/demo.sh','w').write(script or DEMO)
    if 'kit.sh' in (script or ''): shutil.copy('/verif/dev/kit.sh',d+'/kit.sh')
    os.chmod(d+'/demo.sh',0o755)
    if demo: open(d+'/demo.go.txt','w').write(demo)
    for n,c in (extra or {}).items(): open(d+'/'+n,'w').write(c)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
def confirm(id):
    d=f'{S}/{id}'; tmp=f'/tmp/demo_{id}'; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(d,tmp)
    for x in ('patch.diff','meta.json'): os.remove(f'{tmp}/{x}')
    clean()
    ok=True
    r=sh(f'bash {tmp}/demo.sh',cwd='/repo')
    if r.returncode!=0: print(id,'DEMO FAILS on the clean tree',r.stdout[-300:],r.stderr[-600:]); ok=False
    r=sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(id,'does not apply',r.stderr); return False
    r=sh('bash /verif/dev/rt.sh')
    if 'missing []' not in r.stdout: print(id,'BUILD/TESTS',r.stdout[-600:]); ok=False
    r=sh(f'bash {tmp}/demo.sh',cwd='/repo')
    if r.returncode==0: print(id,'DEMO PASSES with the patch'); ok=False
    elif r.returncode==3: print(id,'DEMO BROKEN with the patch',r.stderr[-500:]); ok=False
    out=r.stdout[-200:].strip()
    clean(); shutil.rmtree(tmp,ignore_errors=True)
    print(id,'ok' if ok else 'NOT OK','|',out)
    return ok
def detect(id, checks=None, tier='quick'):
    d=f'{S}/{id}'; prop=json.load(open(d+'/meta.json'))['property']
    clean(); sh(f'git -C /repo apply {d}/patch.diff')
    for c in (checks or [prop]):
        r=sh(f'VERIF_TIER={tier} VERIF_SEED=1 bash /verif/check.sh {c}')
        v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        print(id,c,'rc',r.returncode,'CAUGHT' if r.returncode==1 and v else 'missed',v[:1],(r.stdout+r.stderr).splitlines()[-1:] )
    clean()
if __name__=='__main__':
    cmd,ids=sys.argv[1],sys.argv[2:] or sorted(os.listdir(S))
    for i in ids:
        {'confirm':confirm,'detect':detect,'both':lambda i:(confirm(i),detect(i))}[cmd](i)
