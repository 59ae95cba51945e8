#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from a spec file and confirms it in a scratch copy.

A spec is a python file that sets: id, property, needs, breaks, edits (a list of
(file, old, new)), demo (text of demo.sh), and optionally files ({name: text}).
usage: mkseed.py SPEC...
"""
import sys, os, subprocess, json, shutil, tempfile
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=isinstance(cmd,str), cwd=cwd, capture_output=True, text=True, errors='replace', **k)
PRO='''#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
export BAB_NO_UPDATE_CHECK=1
go build -o "$D/bab" . || exit 2
'''
def main():
    ok=True
    for spec in sys.argv[1:]:
        g={}
        exec(open(spec).read(), g)
        S=tempfile.mkdtemp(prefix='seed')+'/repo'
        sh(f'git clone -q /repo {S}')
        try:
            ok &= one(g,S)
        finally:
            shutil.rmtree(os.path.dirname(S))
    sys.exit(0 if ok else 1)
def one(g,S):
    id=g['id']
    for f,a,b in g['edits']:
        t=open(f'{S}/{f}').read()
        if t.count(a)!=1:
            print(id,'BAD edit',f,t.count(a),repr(a[:60])); return False
        open(f'{S}/{f}','w').write(t.replace(a,b))
    sh('gofmt -l .',cwd=S)
    diff=sh('git diff',cwd=S).stdout
    # removed lines must be the original project's
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(PRO+g['demo'].lstrip('\n')); os.chmod(d+'/demo.sh',0o755)
    for n,t in g.get('files',{}).items(): open(f'{d}/{n}','w').write(t)
    json.dump({'property':g['property'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
    test='. /opt/vp/env.sh; go vet ./... 2>&1 | tail -3; go build ./... && go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok'
    r=sh(['bash','-c',test],cwd=S)
    if r.stdout.strip(): print(id,'TESTS:',r.stdout[:1500]); return False
    r=sh(['bash',d+'/demo.sh'],cwd=S,timeout=300)
    if r.returncode==0: print(id,'demo passes on the patched tree',r.stdout[-600:],r.stderr[-600:]); return False
    why=(r.stdout+r.stderr).strip()[-200:]
    sh('git checkout -q -- .',cwd=S)
    r=sh(['bash',d+'/demo.sh'],cwd=S,timeout=300)
    if r.returncode!=0: print(id,'demo fails on the clean tree',r.stdout[-600:],r.stderr[-600:]); return False
    bl=blame(diff)
    print(id,'ok;',why.replace('\n',' / '),bl)
    return True
def blame(diff):
    """number of removed or neighbouring lines that come from the original repository"""
    rem=[l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
    orig=sh('git -C /repo grep -h "" 011816e -- "*.go"').stdout.split('\n')
    o=set(x.strip() for x in orig)
    n=sum(1 for l in rem if l[1:].strip() in o)
    return f'removed={len(rem)} original={n}'
main()
