#!/usr/bin/env python3
"""print the scenario table of an evidence file"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % p))
    for s in d['coverage']['scenarios']:
        print(p, s['config'], s['name'], 'exec', s.get('executions'), 'st', s.get('states'), 'depth', s.get('max_depth'), '%.1fs' % s.get('wall_s', 0), 'CAPPED' if s.get('capped') else '', s.get('outcomes'))
