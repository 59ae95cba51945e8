#!/usr/bin/env python3
"""campaign2.py IN OUT: runs the quick checks against the mutants that survived the tests, until one reports a violation."""
import json,subprocess,sys,os,re,time,random
inp,out=sys.argv[1:3]
M='/tmp/w/c2'
subprocess.run(f'rm -rf {M}; git clone -q /repo {M}',shell=True,check=True)
A=['C01','C02','C12','C31','C08','C10','C11','C06','C21','C20','C25']
MAP=[
('internal/runner/writer',['C13','C14','C34','C16']),
('internal/runner/parallel',['C03','C04','C05','C12','C34','C13','C02','C15','C01','C10','C06','C07','C16','C14','C21']),
('internal/runner/process',['C15','C31']),
('internal/runner/runner',['C01','C02','C12','C21','C11','C10','C06','C07','C22','C15','C31','C20','C23','C05','C08','C32','C34','C16','C14','C13']),
('internal/interpolate',['C08','C09','C10','C32','C06','C20','C21']),
('internal/condition',['C06','C20','C32']),
('internal/parser/include',['C20','C18','C11','C12','C10','C25','C17','C32']),
('internal/parser/validate',['C18','C17','C32','C25']),
('internal/parser',['C17','C18','C20','C32','C33','C29','C22','C03','C06','C07','C12','C04','C25','C19','C01','C11','C10']),
('internal/update',['C28','C27']),
('internal/tui/picker',['C24','C16']),
('internal/tui/prompt',['C23','C22','C21','C16']),
('internal/tui/parallel',['C34','C16','C15']),
('internal/tui',['C24','C23','C34','C16']),
('internal/finder',['C26','C19']),
('internal/paths',['C27','C28']),
('internal/errs',['C32','C18','C25','C17','C02']),
('internal/output',['C12','C34','C14','C13','C28','C01','C06']),
('internal/theme',['C34','C24','C12']),
('internal/schema',['C29']),
('internal/babfile',['C29','C17','C12','C10','C07','C06','C13','C20','C03','C22','C23','C04','C25','C18','C01','C21']),
('cmd/complete',['C25','C26','C19']),
('cmd',['C25','C26','C21','C28','C24','C17','C15','C01','C02','C19']),
('main.go',['C02','C15','C17','C32','C28','C01']),
]
done=set()
if os.path.exists(out):
    for l in open(out): m=json.loads(l); done.add((m['file'],m['start'],m['end'],m['new']))
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ls=list(open(inp)); random.Random(7).shuffle(ls)
for l in ls:
    m=json.loads(l)
    if m['r']!='alive' or (m['file'],m['start'],m['end'],m['new']) in done: continue
    src=open(f"{M}/{m['file']}",'rb').read()
    line=src.split(b'\n')[m['line']-1].decode()
    if m['what'].startswith('empty ') and re.search(r'Errorf|errors\.New|Debug\(|Short:|Long:|Example:|jsonschema|Title|description',line,re.I): continue
    if re.search(r'log\.Debug\(',line): continue
    checks=next((c for p,c in MAP if m['file'].startswith(p)),A)
    t0=time.time()
    m['caught']=None; m['tried']=[]
    try:
        open(f"{M}/{m['file']}",'wb').write(src[:m['start']]+m['new'].encode()+src[m['end']:])
        for c in checks:
            try: r=subprocess.run([V+'/run.sh',c],env={**os.environ,'VMON_REPO':M,'VERIF_SEED':'1'},capture_output=True,text=True,errors='replace',timeout=900)
            except subprocess.TimeoutExpired: m['tried'].append(c+':timeout'); continue
            m['tried'].append(f'{c}:{r.returncode}')
            if r.returncode==1 and 'VIOLATION' in r.stdout: m['caught']=c; break
    finally:
        open(f"{M}/{m['file']}",'wb').write(src)
    m['t']=round(time.time()-t0); m['text']=line.strip()
    open(out,'a').write(json.dumps(m)+'\n')
