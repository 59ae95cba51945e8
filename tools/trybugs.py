#!/usr/bin/env python3
"""Tries hand-written bugs: each is built, run through the project's tests and then through its check.

usage: trybugs.py FILE... ; a FILE sets bugs = [(name, "C01 C05", [(file, old, new)...])...]
prints TESTS (the tests notice it), caught or MISSED for each.
"""
import sys, os, subprocess, shutil, tempfile, json
def sh(c, cwd=None, t=900):
    return subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True,errors='replace',timeout=t)
seed=os.environ.get('VERIF_SEED','1'); tier=os.environ.get('TIER','quick')
for f in sys.argv[1:]:
    g={}; exec(open(f).read(),g)
    for name,checks,edits in g['bugs']:
        if os.environ.get('ONLY') and os.environ['ONLY'] not in name: continue
        S=tempfile.mkdtemp(prefix='bug')+'/repo'
        sh(f'git clone -q /repo {S}')
        try:
            bad=False
            for p,a,b in edits:
                t=open(f'{S}/{p}').read()
                if t.count(a)!=1: print(name,'BAD EDIT',p,t.count(a),repr(a[:50])); bad=True; break
                open(f'{S}/{p}','w').write(t.replace(a,b))
            if bad: continue
            r=sh('. /opt/vp/env.sh; gofmt -w internal cmd main.go; go vet ./... >/dev/null 2>/tmp/w/vet || { tail -3 /tmp/w/vet; exit 3; }; go test ./... 2>&1 | grep -E "^(---|FAIL|panic)" | head -3',cwd=S)
            if r.stdout.strip(): print(name,'TESTS',r.stdout.strip().replace('\n',' / ')[:300],flush=True); continue
            res=[]
            for c in checks.split():
                r=sh(f'VMON_REPO={S} VERIF_SEED={seed} VERIF_TIER={tier} ./run.sh {c}',cwd='/verif')
                v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                res.append(f'{c}:'+(v[0].split('replay=')[1].split('/')[-1] if v else f'rc{r.returncode}'))
                if v: break
            print(name,'caught' if any('rc' not in x for x in res) else 'MISSED',*res,flush=True)
        finally:
            shutil.rmtree(os.path.dirname(S))
