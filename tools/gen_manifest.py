#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
claimed = {}
for f in sorted(os.listdir(os.path.join(V, 'harness'))):
    if not f.endswith('.cpp'): continue
    for l in open(os.path.join(V, 'harness', f)):
        m = re.match(r'//\s*@props\s+(.*)', l)
        if m:
            for p in m.group(1).split(): claimed.setdefault(p, []).append(f)
def kinds(fs):
    r = set()
    for f in fs:
        s = open(os.path.join(V, 'harness', f)).read()
        for h in re.findall(r'#include "(\w+\.hpp)"', s):
            if os.path.exists(os.path.join(V, 'harness', h)): s += open(os.path.join(V, 'harness', h)).read()
        if re.search(r'^//\s*@engine conc', s, re.M): r.add('sched')
        elif 'MC_STATESPACE' in s: r.add('states')
        if re.search(r'MC_SCENARIO', s): r.add('enum')
    return r
T = dict(sched='stateless model checking of the real code under a controlled scheduler (all interleavings up to a preemption bound, with happens-before race detection)',
         states='explicit-state breadth-first exploration of the real code (all operation sequences, canonical heap hashing) against a reference model',
         enum='exhaustive bounded enumeration of inputs/operation sequences on the real code against a reference model')
N = dict(sched='Every schedule of the closed harnesses within the stated preemption bound is executed on the real code; sequentially consistent memory; harness size (2-3 threads) bounds the claim.',
         states='Every reachable state of the real object within the stated size bounds is visited and checked; element values are abstracted (data independence); 64-bit hash compaction.',
         enum='Every input or operation sequence within the stated alphabet and length is executed on the real code and compared with an independent reference; nothing is claimed beyond the bound.')
checks = []
for p in props:
    if p['id'] in claimed:
        ks = kinds(claimed[p['id']])
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique='model checking: ' + '; '.join(T[k] for k in ('sched', 'states', 'enum') if k in ks), level='model_checking',
            level_note=' '.join(N[k] for k in ('sched', 'states', 'enum') if k in ks) + ' Trusts g++ 13, AddressSanitizer and the engine in lib/.'))
na = [dict(property=p['id'], reason=p.get('na', 'no check built yet')) for p in props if p['id'] not in claimed]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='Sources: properties in tools/gen_properties.py, harnesses in harness/, engines in lib/. check.py builds from /repo and decides one property. No hooks in /repo.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
