#!/usr/bin/env python3
"""dev helper: covers.py OUT_DIR : merge the covers of engine outputs o_*.json / out_*.json into covers.json"""
import glob, json, os, re, sys
f = os.path.dirname(os.path.abspath(__file__)) + '/covers.json'
c = json.load(open(f)) if os.path.exists(f) else {}
for o in glob.glob(sys.argv[1] + '/o*_*.json'):
    r = json.load(open(o))
    if r['exhausted'] and not r['errors'] and not r['violations']:
        c[r['harness']] = sorted(int(x) for x in r['covers'] if x != '62')
json.dump(c, open(f, 'w'), sort_keys=True)
