#!/usr/bin/env python3
# per-harness cost of the last runs
import json,glob,sys
for f in sorted(glob.glob('/verif/evidence/*.json')):
    e=json.load(open(f))
    if len(sys.argv)>1 and e['property'] not in sys.argv[1:]: continue
    print(e['property'],e['tier'],e['wall_s'],' '.join('%s:%s/%ss'%(h['harness'],h['paths'],h.get('wall_s')) for h in e['coverage']['harnesses']))
