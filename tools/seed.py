#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).
  seed.py edit            fresh copy of /repo in /tmp/sw to edit
  seed.py keep ID PROP NEEDS BREAKS   turn /tmp/sw into seeded/ID (demo_test.go must exist there), confirm it
  seed.py confirm ID...   build, tests, demo with and without the patch
  seed.py catch [ID...]   run the property's check (and with -a all checks) on a patched copy
"""
import json, os, subprocess, sys, shutil
S='/verif/seeded'; W='/tmp/sw'; REPO='/repo'
ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', CGO_ENABLED='0')
def sh(cmd, cwd=None, timeout=400):
    p=subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def fresh(dst):
    if os.path.isdir(dst): shutil.rmtree(dst)
    shutil.copytree(REPO, dst, symlinks=True)
DEMO='''#!/bin/bash
# run with cwd at the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp)
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$ov"
TAGS
exit 0
'''
def demo_sh(tags):
    l=[]
    for t in tags:
        l.append('go test -vet=off -overlay "$ov" -tags "%s" -run "^TestDemo" -count=1 -timeout 200s . || exit 1' % t)
    return DEMO.replace('TAGS','\n'.join(l))
def confirm(i):
    d=f'{S}/{i}'; ok=True
    fresh(W+'c')
    c=W+'c'
    r,o=sh(f'bash {d}/demo.sh', c)
    if r!=0: print(i,'DEMO FAILS ON CLEAN',o[-1500:]); ok=False
    r,o=sh(f'git apply {d}/patch.diff', c)
    if r!=0: print(i,'patch does not apply',o); return False
    for t in ('','buddy','debug','buddy,debug'):
        r,o=sh(f'go build -tags "{t}" ./...', c)
        if r!=0: print(i,'no build',o[-800:]); ok=False
    base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if False else None
    for t in ('','buddy'):
        r,o=sh(f'go test -vet=off -count=1 -timeout 6m -tags "{t}" ./...', c)
        if r!=0: print(i,'TESTS FAIL with patch',t,o[-1500:]); ok=False
    r,o=sh(f'bash {d}/demo.sh', c)
    if r==0: print(i,'DEMO PASSES WITH PATCH',o[-500:]); ok=False
    print(i,'confirmed' if ok else 'NOT CONFIRMED')
    return ok
def catch(i, every=False):
    d=f'{S}/{i}'; m=json.load(open(d+'/meta.json'))
    fresh(W+'k')
    r,o=sh(f'git apply {d}/patch.diff', W+'k')
    if r!=0: print(i,'patch does not apply',o); return
    props=[m['property']]
    if every: props=[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    hit=[]
    for p in props:
        r,o=sh(f'/tmp/ck -prop {p} -repo {W}k -out /tmp/ev -known /verif/known_findings.txt', timeout=900)
        if r==1: hit.append(p)
        elif r!=0: hit.append(p+'?%d'%r)
        if not every: print('\n'.join(x[:260] for x in o.splitlines()[:4]))
    print(i, m['property'], 'CAUGHT by' if hit else 'MISSED', ' '.join(hit))
def main():
    a=sys.argv[1:]
    if a[0]=='edit': fresh(W); print(W)
    elif a[0]=='keep':
        i,prop,needs,br=a[1:5]; tags=a[5:] or ['']
        d=f'{S}/{i}'; os.makedirs(d, exist_ok=True)
        r,o=sh('git diff', W); open(d+'/patch.diff','w').write(o)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':br}, open(d+'/meta.json','w'), indent=1)
        tags=[t.replace('none','') for t in tags]
        open(d+'/demo.sh','w').write(demo_sh(tags)); os.chmod(d+'/demo.sh',0o755)
        if os.path.exists('/tmp/demo_test.go'): shutil.copy('/tmp/demo_test.go', d+'/demo_test.go')
        confirm(i)
    elif a[0]=='confirm':
        for i in a[1:] or sorted(os.listdir(S)): confirm(i)
    elif a[0]=='catch':
        ev='-a' in a; ids=[x for x in a[1:] if x!='-a'] or sorted(os.listdir(S))
        for i in ids: catch(i,ev)
main()
