#!/usr/bin/env python3
# addknown.py ID REPLAYDIR: lists the signatures of recorded probe failures as known findings (run by hand, never by a check).
import sys,glob,json,re
pid,d=sys.argv[1],sys.argv[2]
p='/verif/known_findings.jsonl'
try: lines=open(p).read().splitlines()
except FileNotFoundError: lines=[]
have={(json.loads(l)['property'],json.loads(l)['sig']) for l in lines if l.startswith('{')}
for f in sorted(glob.glob(f'{d}/{pid}-*.txt')):
    t=open(f).read()
    sig=re.search(r'^signature: (.*)$',t,re.M).group(1)
    if 'probe-' not in sig or (pid,sig) in have: continue
    inp=t.split('== input ==\n')[1].rstrip('\n')
    lines.append(json.dumps({"property":pid,"sig":sig,"what":sig.split(':probe-')[0]+' on input '+json.dumps(inp)}))
open(p,'w').write('\n'.join(lines)+'\n')
