#!/usr/bin/env python3
"""Development tool: runs checks on small edits of the sources.
  mut.py FILE [substring]   FILE: blocks "PROP[,PROP] [quiet] file[#n]\n<<<\nold\n===\nnew\n>>>"
Blocks marked quiet are behaviour-preserving: the checks must say nothing."""
import sys, re, os, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
CK=os.environ.get('CK','/tmp/ck')
txt=open(sys.argv[1]).read()
flt=sys.argv[2] if len(sys.argv)>2 else ''
blocks=[]
for m in re.finditer(r'^([\w,]+)( quiet)? (.*)\n((?:<<<(?: \S+)?\n(?:.|\n)*?\n===\n(?:.|\n)*?>>>\n)+)', txt, re.M):
    blocks.append((m.group(1).split(','), bool(m.group(2)), m.group(3), m.group(4)))
def one(a):
    i,(props,quiet,name,body)=a
    d=f'/tmp/mutw/{i}'
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    for f in os.listdir('/repo'):
        if f.endswith('.go') or f in('go.mod','go.sum'): shutil.copy('/repo/'+f,d)
    for m in re.finditer(r'<<< ?(\S+)?\n((?:.|\n)*?)\n===\n((?:.|\n)*?)>>>\n', body):
        fs=m.group(1) or name.split()[0]
        n=None
        if '#' in fs: fs,n=fs.split('#'); n=int(n)
        old,new=m.group(2),m.group(3).rstrip('\n')
        p=d+'/'+fs; s=open(p).read()
        c=s.count(old)
        if c==0 or (c>1 and n is None): return f'{i} {name}: BAD EDIT count={c}'
        if n is None: s=s.replace(old,new)
        else:
            k=-1
            for _ in range(n): k=s.find(old,k+1)
            s=s[:k]+new+s[k+len(old):]
        open(p,'w').write(s)
    e=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOWORK='off',CGO_ENABLED='0')
    for t in ('','buddy'):
        r=subprocess.run(['go','build','-tags',t,'./...'],cwd=d,env=e,capture_output=True,text=True)
        if r.returncode: return f'{i} {name}: NO BUILD [{t}] {r.stderr[:300]}'
    out=[]
    if os.environ.get('ALL'):
        # all the claimed checks in one process
        r=subprocess.run([CK,'-prop',os.environ['ALL'],'-repo',d,'-known','/verif/known_findings.txt'],capture_output=True,text=True,errors='replace',timeout=900)
        shutil.rmtree(d)
        al=[x for x in r.stdout.splitlines() if ' ALARM ' in x]
        if r.returncode==1 and not al: al=[os.environ['ALL']+' ALARM '+(r.stdout.splitlines() or [''])[0]]
        if r.returncode not in (0,1): al=['NO ANSWER '+r.stderr[-300:]]
        if quiet: return f'{i} {name}: '+('quiet' if not al else 'FALSE ALARM\n    '+'\n    '.join(x[:260] for x in al))
        return f'{i} {name}: '+(' '.join(x.split()[0] for x in al) if al else 'MISSED')
    for p in props:
        r=subprocess.run([CK,'-prop',p,'-repo',d,'-out',f'{d}/ev','-known','/verif/known_findings.txt'],capture_output=True,text=True,errors='replace',timeout=900)
        first=r.stdout.splitlines()[0][:230] if r.stdout else r.stderr[:200]
        if quiet: out.append(f'{p} '+('quiet' if r.returncode==0 else f'FALSE ALARM {first}'))
        else: out.append(f'{p} '+(f'caught' if r.returncode==1 else 'MISSED')+(('  '+first) if r.returncode==1 and os.environ.get('V') else ''))
    shutil.rmtree(d)
    return f'{i} {name}: '+'; '.join(out)
bl=[(i,b) for i,b in enumerate(blocks) if (not os.environ.get('Q') or b[1]) and (flt in b[2] or flt in ','.join(b[0]))]
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for r in ex.map(one,bl): print(r,flush=True)
