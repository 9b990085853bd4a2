#!/usr/bin/env python3
"""Development tool: mutation testing of the checks. mutate.py list > muts.jsonl ; mutate.py work <k> <muts.jsonl> <out.jsonl> [cores]
A worker runs in a mount namespace (unshare -rm) with its own copies of /repo and /verif under /tmp/mut/<k>."""
import sys, os, re, json, subprocess, random, fcntl
FILES = {
 'indxr/src/lib.rs': 'I01 I02 I03 I04',
 'lang/rust/src/editor/symbol_index.rs': 'I05', 'lang/rust/src/editor/fst_subseq.rs': 'I05', 'lang/rust/src/editor/file_symbols.rs': 'I05', 'lang/rust/src/editor/line_index.rs': 'I05',
 'lang/rust/src/editor/mod.rs': 'E04', 'lang/rust/src/editor/actions.rs': 'E04',
 'fall/editor/src': 'A04 E04 A01', 'lang/fall/src/editor': 'A04 A01 A03', 'lang/fall/src/analysis': 'A04 A02 A01 P01 P02 G01', 'lang/fall/src/ast_ext.rs': 'A01 P01', 'lang/fall/src/lib.rs': 'A01',
 'lang/fall/syntax/src/ast_ext.rs': 'A01 A04 P01 P02 G01', 'lang/fall/syntax/src/lib.rs': 'E01 E02',
 'lang/rust/syntax/src/lib.rs': 'E01 E02', 'lang/json/src/lib.rs': 'E01',
 'fall/text/src': 'E03 E01 E02 E04', 'fall/tree/src': 'E02 E01 E03 E04 P02', 'fall/parse/src': 'P01 E01 E02 E05', 'fall/gen/src': 'P01 P02 G01 G02',
}
QUICK = dict(A04=9000,E04=9000,P02=9000,A01=4000,A02=4000,A03=4000,E01=12000,E02=12000,E03=12000,P01=12000,G01=4000,G02=3000,I01=6000,I02=6000,I03=6000,I04=6000,I05=3000,E05=4000)
SW = [(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' == ',' != '),(' != ',' == '),(' && ',' || '),(' || ',' && '),(' + 1',''),(' - 1',''),(' + ',' - '),(' - ',' + '),(' += ',' -= '),(' -= ',' += '),('true','false'),('false','true'),('if !','if '),('.rev()',''),('.min(','.max('),('.max(','.min('),('.any(','.all('),('.all(','.any('),('.is_some()','.is_none()'),('.is_none()','.is_some()'),('.is_empty()','.is_empty() == false'),('.start()','.end()'),('.end()','.start()'),('.first()','.last()'),('.last()','.first()'),('Some(0)','Some(1)'),('.skip(1)',''),('.next()','.last()'),('left','right'),('right','left'),('(0)','(1)'),('= 0;','= 1;'),('is_ok()','is_err()'),('Included','Excluded'),('filter(','filter(|_| true).filter('),('.take(',' .skip(')]
def lines_of(path):
    out=[]; t=open(path).read().split('\n'); intest=False
    for n,l in enumerate(t):
        if '#[cfg(test)]' in l: intest=True
        s=l.strip()
        if intest or not s or s.startswith(('//','use ','#','pub use','mod ','pub mod','assert','debug_assert','extern')): continue
        out.append((n,l))
    return out
def muts():
    for f,checks in FILES.items():
        p='/repo/'+f
        fs=[p] if os.path.isfile(p) else subprocess.run(['git','-C','/repo','ls-files',f],stdout=subprocess.PIPE,universal_newlines=True).stdout.split()
        for q in fs:
            q=q.replace('/repo/','')
            if not q.endswith('.rs') or 'tests' in q or q.endswith('/test.rs') or q.endswith('prop.rs') or 'test_util' in q or 'test_util' in q: continue
            if os.path.isfile(p)==False and q in FILES: continue
            for n,l in lines_of('/repo/'+q):
                seen=set()
                for a,b in SW:
                    i=0; k=0
                    while True:
                        i=l.find(a,i)
                        if i<0: break
                        if a.isalpha() and (l[i-1:i].isalnum() or l[i+len(a):i+len(a)+1].isalnum()): i+=len(a); continue
                        m=l[:i]+b+l[i+len(a):]; i+=len(a)
                        if a==' + ' and re.search(r"[:<&] ?\w+ \+ |'\w+ \+|impl|where|Box<",l): continue
                        if m not in seen: seen.add(m); yield dict(file=q,line=n,old=l,new=m,checks=checks)
                s=l.strip()
                if s.endswith(';') and not re.match(r'(let|return|pub|const|static|type|break|\}|\)|\.)',s) and s.count('(')==s.count(')') and s.count('{')==s.count('}'):
                    yield dict(file=q,line=n,old=l,new='',checks=checks)
                m=re.match(r'^(\s*(?:\} else )?if )(?!let)(.*)( \{.*)$',l)
                if m:
                    for b in ('true','false'): yield dict(file=q,line=n,old=l,new=m.group(1)+b+' && ('*0+m.group(3) if False else m.group(1)+b+m.group(3),checks=checks)
                if s in ('break;','continue;') or re.match(r'return.*;$',s): yield dict(file=q,line=n,old=l,new='',checks=checks)
def sh(c,t=900,env=None):
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,universal_newlines=True,errors='replace',timeout=t,env=env)
    except subprocess.TimeoutExpired as e:
        class R: returncode=124; stdout=str(e.stdout)[-3000:]
        return R
if sys.argv[1]=='list':
    v=list(muts()); random.Random(7).shuffle(v)
    for m in v: print(json.dumps(m))
    from collections import Counter
    print(Counter(m['file'] for m in v),len(v),file=sys.stderr)
elif sys.argv[1]=='work':
    k,mf,of=sys.argv[2:5]; cores=sys.argv[5] if len(sys.argv)>5 else '2'
    base=json.load(open('/opt/vp/BASELINE.json'))
    stable=set(base.get('stable') or base.get('passed') or base.get('tests') or [])
    sys.stderr.write(f'{len(stable)} stable\n')
    ms=[json.loads(l) for l in open(mf)]
    while True:
        with open(of+'.pos','a+') as pf:
            fcntl.flock(pf,fcntl.LOCK_EX); pf.seek(0); t=pf.read().strip(); i=int(t or 0)
            if i>=len(ms): break
            pf.seek(0); pf.truncate(); pf.write(str(i+1))
        if os.path.exists('/tmp/mut/stop'): break
        m=ms[i]; p='/repo/'+m['file']; orig=open(p).read(); t=orig.split('\n'); assert t[m['line']]==m['old']
        t[m['line']]=m['new']; open(p,'w').write('\n'.join(t)); r={**m,'i':i}
        try:
            b=sh('bash /opt/vp/build.sh',300)
            if b.returncode: r['res']='nobuild'; continue
            x=sh(f'ulimit -v 3000000; ulimit -t 60; bash /opt/vp/test.sh /tmp/mut/{k}/t.json',120)
            try: d=json.load(open(f'/tmp/mut/{k}/t.json'))
            except Exception: r['res']='tests'; continue
            failed=[n for n in stable if n not in set(d.get('passed',[]))]
            if failed: r['res']='tests'; r['failed']=failed[:3]; continue
            h=sh('bash /verif/build.sh',600)
            if h.returncode: r['res']='noharness'; r['out']=h.stdout[-800:]; continue
            r['res']='MISSED'
            for c in m['checks'].split():
                e=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick',FALLSIM_NO_EVIDENCE='1',FALLSIM_WORKERS=cores,FALLSIM_MIN_TIME='0')
                q=QUICK.get(c)
                if not q: continue
                e['FALLSIM_RUNS']=str(max(q//3,200))
                y=sh(f'bash /verif/typed.sh check quick' if c=='P02' else f'bash -c ". /verif/env.sh; exec \\$FALLSIM check {c} quick"',800,e)
                if y.returncode==1: r['res']='caught'; r['by']=c; r['what']=[l[:200] for l in y.stdout.splitlines() if 'violates' in l][:1]; break
                if y.returncode!=0: r['res']='odd'; r['by']=c; r['out']=y.stdout[-600:]; break
        finally:
            open(p,'w').write(orig)
            with open(of,'a') as f: f.write(json.dumps(r)+'\n')
