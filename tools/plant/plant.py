#!/usr/bin/env python3
"""plant.py specfile [ids]: builds /verif/seeded/<id> after confirming each bug."""
import sys,os,subprocess,json,shutil,runpy,concurrent.futures as cf
spec=runpy.run_path(sys.argv[1])['BUGS']; only=set(sys.argv[2:])
base=json.load(open('/opt/vp/BASELINE.json'))
env=dict(os.environ,GOROOT='/opt/veriftools/go1.27.3',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOFLAGS='-mod=readonly -buildvcs=false')
env['PATH']=env['GOROOT']+'/bin:/usr/local/bin:/usr/bin:/bin'
DEMO='''#!/bin/bash
# Runs the demonstration beside this script on the code in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
export PATH=$GOROOT/bin:$PATH
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$t/o.json"
timeout 250 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 200s%(race)s -run '^TestDemo' ./%(pkg)s
'''
stable=json.load(open('/opt/vp/BASELINE.json'))
def run(c,cwd,t=600):
    return subprocess.run(c,cwd=cwd,env=env,shell=isinstance(c,str),capture_output=True,text=True,errors='replace',timeout=t)
def one(b):
    i=b['id']; d='/tmp/plant/w_'+i
    shutil.rmtree(d,ignore_errors=True); subprocess.run(['cp','-a','/repo',d],check=True)
    try:
        for f,o,n in b['edits']:
            p=d+'/'+f; s=open(p).read()
            if s.count(o)!=1: return i,'edit does not match once (%d): %s'%(s.count(o),o[:60])
            open(p,'w').write(s.replace(o,n))
        out='/tmp/plant/s_'+i; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
        diff=run(['git','diff'],d).stdout
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo_test.go.txt','w').write(b['demo'])
        open(out+'/demo.sh','w').write(DEMO%dict(pkg=b['pkg'],race=' -race' if b.get('race') else ''))
        os.chmod(out+'/demo.sh',0o755)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(out+'/meta.json','w'),indent=1)
        r=run('go build ./...',d)
        if r.returncode: return i,'BUILD '+r.stderr[-500:]
        c=run(['bash',out+'/demo.sh'],'/repo')
        if c.returncode: return i,'DEMO FAILS CLEAN '+(c.stdout+c.stderr)[-1500:]
        c=run(['bash',out+'/demo.sh'],d)
        if c.returncode==0: return i,'DEMO PASSES PATCHED'
        msg=(c.stdout)[-300:]
        if 'build failed' in c.stdout or 'setup failed' in c.stdout: return i,'DEMO BUILD '+(c.stdout+c.stderr)[-800:]
        for k in range(4):
            r=run('go test -json -vet=off -count=1 -timeout 5m ./... > %s/../t_%s.log; python3 /opt/vp/results.py /tmp/plant/r_%s.json gojson:/tmp/plant/t_%s.log'%(out,i,i,i),d)
            r=run(['python3','/tmp/chk.py','/tmp/plant/r_%s.json'%i],d)
            if 'missing stable: []' in r.stdout: break
        if 'missing stable: []' not in r.stdout: return i,'TESTS CATCH IT '+r.stdout[:400]+r.stderr[-300:]
        shutil.rmtree('/verif/seeded/'+i,ignore_errors=True); shutil.copytree(out,'/verif/seeded/'+i)
        return i,'OK   '+' '.join(msg.split())[:200]
    finally:
        shutil.rmtree(d,ignore_errors=True)
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(one,[b for b in spec if not only or b['id'] in only]): print(*r,flush=True)
