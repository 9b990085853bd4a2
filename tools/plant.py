#!/usr/bin/env python3
"""Development tool: verifies the planted bugs of /verif/seeded/<id> (patch, tests, demo) and which check catches them.
plant.py new <id> <property> <spec.py>   spec.py defines EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (Rust source)
plant.py run <id> [property ...]          applies, builds, tests, demo, quick checks, reverts"""
import sys, os, subprocess, json, shutil
S='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', **k)
def clean(): sh('git -C /repo checkout -q -- .')
def run(i, props):
    d=f'{S}/{i}'; m=json.load(open(d+'/meta.json')); props=props or [m['property']]
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    out=[]
    r=sh(f'cd /repo && timeout 300 bash {d}/demo.sh'); out.append(f'demo-clean={r.returncode}')
    if r.returncode: print(r.stdout[-1500:])
    try:
        assert sh(f'git -C /repo apply {d}/patch.diff').returncode==0, 'patch'
        b=sh('bash /opt/vp/build.sh'); out.append(f'build={b.returncode}')
        if b.returncode: print('\n'.join(l[:200] for l in b.stdout.splitlines() if 'error' in l)[:2000])
        t=sh('bash /opt/vp/test.sh /tmp/plant.json'); out.append('tests='+t.stdout.strip().splitlines()[-1])
        r=sh(f'cd /repo && timeout 300 bash {d}/demo.sh'); out.append(f'demo-patched={r.returncode}'); print(r.stdout[-600:])
        for p in props:
            c=sh(f'FALLSIM_NO_EVIDENCE=1 bash /verif/check.sh {p} quick', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            w=[l for l in c.stdout.splitlines() if 'violates' in l or 'minimised' in l or 'wall=' in l]
            out.append(f'{p}={c.returncode} {v[:1]}'); print('\n'.join(x[:260] for x in w[:5]))
            if c.returncode not in (0,1): print(c.stdout[-800:])
    finally: clean()
    print('RESULT', i, ' '.join(out), flush=True)
if sys.argv[1]=='new':
    i,p,spec=sys.argv[2:5]; ns={}; exec(open(spec).read(), ns)
    d=f'{S}/{i}'; os.makedirs(d, exist_ok=True); clean()
    for f,o,n in ns['EDITS']:
        t=open('/repo/'+f).read(); assert t.count(o)==1, (f, t.count(o), o); open('/repo/'+f,'w').write(t.replace(o,n))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout); clean()
    open(d+'/demo.rs','w').write(ns['DEMO'].lstrip()); shutil.copy('/verif/tools/demo.sh', d+'/demo.sh')
    json.dump({'property':p,'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']}, open(d+'/meta.json','w'), indent=1)
    run(i, [p])
else: run(sys.argv[2], sys.argv[3:])
