#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specifications in tools/seeds/*.py (planted bugs used to test the
machinery; no check reads them). Each spec: ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (Go
program). Verifies in a scratch copy of /repo: builds, stable tests pass, demo 0 on clean and != 0 patched."""
import sys, os, subprocess, json, shutil, tempfile, importlib.util
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO='''#!/bin/bash
# Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 0
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$here" >"$tmp/ov.json"
go build -overlay "$tmp/ov.json" -o "$tmp/demo" ./zz_demo || exit 2
cd "$tmp" && timeout 120 ./demo
'''
env=dict(os.environ,HOME='/root',GOFLAGS='-mod=readonly',GOWORK='off',GOPROXY='off')
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,**k)
stable=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[]) or [])
def tests(cwd):
    r=sh('. /opt/vp/env.sh; go test -count=1 -json ./... 2>/dev/null',cwd)
    st={}
    for l in r.stdout.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Test') and e['Action'] in('pass','fail'): st[e['Package'].replace('github.com/RenatoGeh/gospn','.')+'::'+e['Test']]=e['Action']
    return st
def main(ids):
    specs=sorted(f for f in os.listdir(here+'/tools/seeds') if f.endswith('.py'))
    base=None
    for f in specs:
        if ids and f[:-3] not in ids: continue
        sp=importlib.util.spec_from_file_location('s',here+'/tools/seeds/'+f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        ID=f[:-3]; d=here+'/seeded/'+ID; wt=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
        try:
            sh(f'cp -a /repo/. {wt}/',"/"); sh('git checkout -q -- .',wt)
            if base is None: base=tests(wt)
            os.makedirs(d,exist_ok=True)
            open(d+'/demo.go','w').write(m.DEMO.lstrip()); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
            c=sh(d+'/demo.sh',wt)
            for fn,old,new in m.EDITS:
                s=open(f'{wt}/{fn}').read(); assert s.count(old)==1,(ID,fn,s.count(old),old)
                open(f'{wt}/{fn}','w').write(s.replace(old,new))
            b=sh('. /opt/vp/env.sh; go build ./...',wt)
            diff=sh('git diff',wt).stdout; open(d+'/patch.diff','w').write(diff)
            p=sh(d+'/demo.sh',wt); t=tests(wt)
            bad=[k for k,v in base.items() if v=='pass' and t.get(k)!='pass']
            json.dump(dict(property=m.PROPERTY,needs=m.NEEDS,what_it_breaks=m.BREAKS),open(d+'/meta.json','w'),indent=1)
            ok=c.returncode==0 and p.returncode not in(0,2) and b.returncode==0 and not bad
            print('OK ' if ok else 'BAD',ID,m.PROPERTY,'clean',c.returncode,'patched',p.returncode,'build',b.returncode,'tests broken',bad)
            if not ok: print('   ',(c.stdout+c.stderr)[-600:],'|',(p.stdout+p.stderr)[-600:],'|',b.stderr[-600:])
            else: print('     ',(p.stdout+p.stderr).strip()[-160:])
        finally: shutil.rmtree(wt)
main(set(sys.argv[1:]))
