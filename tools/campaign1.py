#!/usr/bin/env python3
"""campaign1.py SEED N OUT [FILE-REGEX]: samples N mutants of /repo, keeps those which build and pass the tests."""
import json,subprocess,random,sys,os,re,tempfile
from concurrent.futures import ThreadPoolExecutor
seed,n,out=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
rx=re.compile(sys.argv[4] if len(sys.argv)>4 else '.')
src='/tmp/w/c1'
subprocess.run(f'rm -rf {src}; git clone -q /repo {src}',shell=True,check=True)
files=[f for f in subprocess.run('git ls-files "*.go"',shell=True,cwd=src,capture_output=True,text=True).stdout.split() if '_test' not in f and 'windows' not in f and not f.startswith('docs') and rx.search(f)]
muts=[json.loads(l) for l in subprocess.run(['/tmp/w/mutgen']+files,cwd=src,capture_output=True,text=True,check=True).stdout.splitlines()]
random.Random(seed).shuffle(muts)
muts=muts[:n]
def one(m):
    with tempfile.TemporaryDirectory(dir='/tmp/w') as d:
        b=open(f"{src}/{m['file']}",'rb').read()
        open(d+'/m.go','wb').write(b[:m['start']]+m['new'].encode()+b[m['end']:])
        json.dump({'Replace':{f"{src}/{m['file']}":d+'/m.go'}},open(d+'/o.json','w'))
        r=subprocess.run(f'. /opt/vp/env.sh; nice -15 go build -overlay {d}/o.json -o {d}/bab . && nice -15 go vet -overlay {d}/o.json ./... ',shell=True,executable='/bin/bash',cwd=src,capture_output=True)
        if r.returncode: m['r']='build'; return m
        try: r=subprocess.run(f'. /opt/vp/env.sh; nice -15 go test -p 2 -timeout 60s -overlay {d}/o.json ./...',shell=True,executable='/bin/bash',cwd=src,capture_output=True,timeout=150)
        except subprocess.TimeoutExpired: m['r']='test'; return m
        m['r']='test' if r.returncode else 'alive'
        return m
c={}
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex, open(out,'a') as o:
    for m in ex.map(one,muts):
        c[m['r']]=c.get(m['r'],0)+1
        o.write(json.dumps(m)+'\n'); o.flush()
print(c)
