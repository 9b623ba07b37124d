#!/usr/bin/env python3
"""mk.py [ids...]: (re)create seeded/<id> from seeds*.py, confirm build, tests and demonstration in a scratch copy."""
import sys, os, subprocess, json, shutil, glob
V='/verif'; S=os.environ.get('SEEDW','/tmp/s')
here=os.path.dirname(os.path.abspath(__file__))
SEEDS={}
for f in sorted(glob.glob(here+'/seeds*.py')):
    exec(open(f).read())
def sh(c,cwd=None,t=900):
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
def fresh():
    if not os.path.exists(S+'/repo'):
        os.makedirs(S,exist_ok=True); sh(f'cp -a /repo {S}/repo')
    sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq',S+'/repo')
    assert sh('git rev-parse HEAD',S+'/repo').stdout==sh('git rev-parse HEAD','/repo').stdout
def make(i):
    d=SEEDS[i]; fresh()
    for f,a,b in d['edits']:
        p=f'{S}/repo/{f}'; s=open(p).read()
        assert s.count(a)==1,(i,f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    out=f'{V}/seeded/{i}'
    if os.path.exists(out): shutil.rmtree(out)
    os.makedirs(out+'/demo/src')
    open(out+'/patch.diff','w').write(sh('git diff',S+'/repo').stdout)
    json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(out+'/meta.json','w'),indent=1)
    if 'js' in d:
        shutil.copy(here+'/tpl/demo.js.sh',out+'/demo.sh')
        shutil.rmtree(out+'/demo'); shutil.copytree(here+'/tpl/js',out+'/demo')
        open(out+'/demo/main.cjs','w').write(d['js'].lstrip())
    else: rust(d,out)
    confirm(i,out)
def rust(d,out):
    svc='svc::' in d['main']
    shutil.copy(here+'/tpl/demo.sh',out+'/demo.sh')
    shutil.copy(here+('/tpl/Cargo.svc.toml' if svc else '/tpl/Cargo.lib.toml'),out+'/demo/Cargo.toml')
    shutil.copy(V+'/mc/Cargo.lock',out+'/demo/Cargo.lock')
    shutil.copy(here+'/tpl/lib.rs',out+'/demo/src/h.rs')
    if svc:
        shutil.copy(here+'/tpl/svc.rs',out+'/demo/src/svcapi.rs')
        shutil.copytree(V+'/mc/shims',out+'/demo/shims'); shutil.copytree(V+'/mc/svc',out+'/demo/svc')
        sh(f"sed -i 's#\"/repo/#\"@REPO@/#' {out}/demo/svc/Cargo.toml")
    main=d['main'].replace('svc::','svcapi::')
    open(out+'/demo/src/main.rs','w').write('mod h;\n'+('mod svcapi;\n' if svc else '')+'#[allow(unused_imports)]\nuse h::*;\n'+main.lstrip())
def confirm(i,out):
    r={}
    e='. /opt/vp/env.sh; '
    b=sh(e+'cargo test --locked --offline $PKGS --no-fail-fast -- --test-threads 8 2>&1 | grep -E "^test result|FAILED|failed|error(\\[|:)|panicked" | head -20',S+'/repo')
    r['test']=b.stdout[-900:]
    dm=sh(f'bash {out}/demo.sh',S+'/repo'); r['patched']=(dm.returncode,(dm.stdout+dm.stderr)[-400:])
    fresh()
    dm=sh(f'bash {out}/demo.sh',S+'/repo'); r['clean']=(dm.returncode,(dm.stdout+dm.stderr)[-1500:])
    good=r['patched'][0]==1 and r['clean'][0]==0 and 'FAILED' not in r['test'] and 'error' not in r['test']
    print(i,'OK' if good else 'BAD'); 
    if not good: print(json.dumps(r,indent=1).replace('\\n','\n'))
    else: print('   ',r['patched'][1].strip()[:200], '|', r['test'].replace('\n',' ')[:160])
    sys.stdout.flush()
for i in (sys.argv[1:] or SEEDS): make(i)
