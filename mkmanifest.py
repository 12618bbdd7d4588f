#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H); sys.dont_write_bytecode = True
import jobs as J
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'T01': 'whether a program compiles is decided by the type checker of the compiler: there is no execution to encode and nothing for a solver to decide'}
checks = []; na = []
for p in props:
    i = p['id']
    if i in J.PROPS:
        q = J.PROPS[i]
        c = dict(property=i, quick_cmd='./check %s quick' % i, evidence_file='evidence/%s.json' % i, technique='symbolic execution of the LLVM bitcode of /repo with z3 (own executor), counterexamples replayed on the g++ build', level='model_checking',
                 level_note=('decided for every value within: ' + q['bounds'] + ('. Outside: ' + q['outside'] if q.get('outside') else ''))[:1500])
        c['thorough_cmd'] = './check %s thorough' % i
        checks.append(c)
    else: na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='make -s -C engine OUT=../build', checks=checks, not_applicable=na), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [n['property'] for n in na])
