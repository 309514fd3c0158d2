#!/usr/bin/env python3
"""Makes and tries planted bugs.  seed.py make SPEC.py | try ID [PROP...]

A spec file is Python: a list SEEDS of dicts id, property, edits [(file, old, new)], demo (Rust),
needs, what_it_breaks.  `make` writes seeded/<id>/, after checking in a scratch copy of /repo that
the change builds, passes the baseline tests, and that the demo tells the two apart.  `try` applies
the patch to /repo, runs the property's check, and undoes it."""
import json, os, subprocess, sys, shutil, time
V='/verif'; R='/repo'; W='/tmp/seed/repo'
ENV=dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='')
def sh(c, cwd=None, t=900, env=None):
    p=subprocess.run(['bash','-c',c],cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=env or ENV)
    return p.returncode,p.stdout.decode(errors='replace')
DEMO='''#!/bin/bash
# Exit 0: the behaviour is as it should be.  Run in /repo after the build.
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_BOOTSTRAP=1
here="$(cd "$(dirname "$0")" && pwd)"
out=/tmp/nsdemo-%(id)s
mkdir -p "$out" || exit 2
rustc --edition 2021 -O "$here/demo.rs" --extern nom_sparql=target/debug/libnom_sparql.rlib \\
  -L dependency=target/debug/deps -o "$out/demo" >"$out/log" 2>&1 || { cat "$out/log"; exit 2; }
timeout 250 "$out/demo" >"$out/log" 2>&1
rc=$?
tail -c 2000 "$out/log"
rm -rf "/tmp/nsdemo-%(id)s"
exit $rc
'''
HOOK='''mkdir -p "$out" || exit 2
# with the parsers that no public function reaches
rustc --edition 2018 --crate-name nom_sparql --crate-type rlib -O -C debug-assertions --cap-lints allow --cfg nom_sparql_sim src/lib.rs \\
  --extern nom=$(ls target/debug/deps/libnom-*.rlib | head -1) --extern derive_new=$(ls target/debug/deps/libderive_new-*.so | head -1) \\
  -L dependency=target/debug/deps -o "$out/libnom_sparql.rlib" >"$out/log" 2>&1 || { cat "$out/log"; exit 2; }
'''
def prep():
    if not os.path.isdir(W):
        os.makedirs('/tmp/seed',exist_ok=True)
        sh(f'cp -a {R} {W}')
    rc,o=sh(f'git checkout -q -- . && git fetch -q {R} HEAD && git reset -q --hard FETCH_HEAD',cwd=W)
    assert rc==0,o
def build():
    for f in ('build.sh','test.sh'):
        s=open('/opt/vp/'+f).read().replace('/repo',W)
        open('/tmp/seed/'+f,'w').write(s)
    return sh('bash /tmp/seed/build.sh')
def tests():
    rc,o=sh('bash /tmp/seed/test.sh /tmp/seed/out.json')
    b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed/out.json'))
    def ok(d):
        if 'passed' in d: return set(d['passed'])
        if 'tests' in d: return {k for k,v in (d['tests'].items() if isinstance(d['tests'],dict) else ((x['id'],x['status']) for x in d['tests'])) if v in('pass','passed')}
        return {k for k,v in d.items() if v in('pass','passed')}
    want=set(b['stable'])
    miss=want-ok(r)
    return miss
def make(spec, only):
    ns={}; exec(open(spec).read(),ns)
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        prep(); d=f"{V}/seeded/{s['id']}"
        os.makedirs(d,exist_ok=True)
        bad=False
        for f,old,new in s['edits']:
            p=f'{W}/src/{f}'; t=open(p,newline='').read()
            crlf='\r\n' in t
            t=t.replace('\r\n','\n')
            if t.count(old)!=1: print(s['id'],'EDIT',f,t.count(old),repr(old[:60])); bad=True; break
            t=t.replace(old,new)
            open(p,'w',newline='').write(t.replace('\n','\r\n') if crlf else t)
        if bad: continue
        rc,diff=sh('git diff',cwd=W)
        subprocess.run(['bash','-c',f'git diff --binary > {d}/patch.diff'],cwd=W)
        open(f'{d}/demo.rs','w').write(s['demo'])
        D=DEMO%s
        if s.get('hook'):
            D=D.replace('mkdir -p "$out" || exit 2\n',HOOK).replace('nom_sparql=target/debug/libnom_sparql.rlib','nom_sparql="$out/libnom_sparql.rlib"')
        open(f'{d}/demo.sh','w').write(D)
        json.dump({k:s[k] for k in('property','needs','what_it_breaks')},open(f'{d}/meta.json','w'),indent=1)
        rc,o=build()
        if rc: print(s['id'],'BUILD FAILS\n',o[-3000:]); continue
        miss=tests()
        if miss: print(s['id'],'TESTS FAIL',miss); continue
        t0=time.time(); rc,o=sh(f'bash {d}/demo.sh',cwd=W); t1=time.time()-t0
        if rc in(0,2): print(s['id'],'DEMO with patch exits',rc,o[-1500:]); continue
        dm=o.strip().splitlines()[-1:] 
        sh('git checkout -q -- .',cwd=W); rc,o=build(); assert rc==0
        t0=time.time(); rc,o=sh(f'bash {d}/demo.sh',cwd=W); t2=time.time()-t0
        if rc!=0: print(s['id'],'DEMO without patch exits',rc,o[-1500:]); continue
        print(s['id'],'ok  demo %.1fs/%.1fs'%(t1,t2),dm,flush=True)
def attempt(i, props):
    d=f'{V}/seeded/{i}'; m=json.load(open(d+'/meta.json'))
    rc,o=sh(f'git -C {R} status --porcelain'); assert not o.strip(),o
    rc,o=sh(f'git -C {R} apply {d}/patch.diff'); assert rc==0,o
    try:
        for p in props or [m['property']]:
            t0=time.time()
            e=dict(os.environ,VERIF_SEED=os.environ.get('VERIF_SEED','1'),VERIF_TIER='quick')
            rc,o=sh(f'bash check.sh {p}',cwd=V,env=e)
            l=[x for x in o.splitlines() if x.startswith('VIOLATION')]
            print(i,p,'exit',rc,'%.0fs'%(time.time()-t0), 'CAUGHT' if rc==1 and any('property='+p in x for x in l) else 'missed', (o.strip().splitlines() or [''])[-1][:300] if rc!=0 else '',flush=True)
            if rc==1:
                print('   ', '\n    '.join(x[:400] for x in o.splitlines() if not x.startswith('VIOLATION'))[:1200])
            if rc not in(0,1): print(o[-2000:])
    finally:
        sh(f'git -C {R} checkout -- .')
if __name__=='__main__':
    if sys.argv[1]=='make': make(sys.argv[2],sys.argv[3:])
    else:
        for i in sys.argv[2].split(','):
            attempt(i,sys.argv[3:])
