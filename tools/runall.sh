#!/bin/bash
# run every registered quick check in parallel; print the non-quiet ones
cd "$(dirname "$0")/.."
python3 - <<'P'
import json,subprocess,concurrent.futures as cf,os,time
m=json.load(open('MANIFEST.json'))
def run(c):
    pid=c.get('property') or c.get('property_id') or c.get('id')
    cmd=c.get('quick') or c.get('quick_cmd')
    t=time.time()
    p=subprocess.run(cmd if isinstance(cmd,list) else ['bash','-c',cmd],capture_output=True,text=True)
    return pid,p.returncode,p.stdout,p.stderr,time.time()-t
with cf.ThreadPoolExecutor(8) as ex:
    for pid,rc,o,e,dt in ex.map(run,m['checks']):
        u=o.count("undecided [");print(pid,rc,u,'%.0fs'%dt,'' if rc==0 and 'VIOLATION' not in o else o[-1500:]+e[-500:])
        try:
            d=json.load(open('evidence/%s.json'%pid)); 
            u=json.dumps(d).count('undecided'); 
        except Exception as x: print(x)
P
