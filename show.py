#!/usr/bin/env python3
"""prints the per-configuration table of an evidence file"""
import json, sys
d = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
for p in d['coverage']['per_configuration']:
    print(p['entry'], p['params'], 'complete' if p.get('complete') else 'PARTIAL', 'paths', p.get('paths'), 'pend', p.get('pending_paths'), 'asserts', p.get('assertions'),
          'und', p.get('undecided'), 'wall', p.get('wall_s'), p.get('reached'), [n[:150] for n in p.get('notes', [])])
