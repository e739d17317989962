#!/usr/bin/env python3
"""developer helper: record a confirmed violation (replay file) as a known finding
usage: addknown.py REPLAY 'what fails'"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(here, 'known_findings.json')
d = json.load(open(f)) if os.path.exists(f) else {'findings': [], 'fixed': []}
r = json.load(open(sys.argv[1]))
d['findings'].append({'property': r['property'], 'tag': r['known'], 'harness': r['harness'], 'params': r['params'], 'inp': r['inp'], 'what': sys.argv[2]})
json.dump(d, open(f, 'w'), indent=1)
