#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/checks.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Assumes the reference model, the schedulers and the hooks are right; says nothing about executions that were not run.'
SEQ = dict(phase='seq')
COOP_RULE = ('Concurrent cases are schedules: short programs for 2-4 threads run under a scheduler that decides at every instrumentation point of the tree which thread '
             'continues (all single pauses, sampled double pauses, random and priority based strategies); such a case is non-trivial if control changed hands more than once, '
             'and distinct by keys, programs and the sequence of changes.')
SEQ_RULE = ('Sequential cases are histories generated from 15 kinds of key universes in phases that grow, shrink, churn and update; distinct by the hash of all operations executed '
            'and values observed; every history contains writes.')

C = {}


def check(id, technique, rule, note, phases, assumptions=(), **kw):
    C[id] = dict(technique=technique, rule=rule, note=note, phases=phases, assumptions=list(assumptions), **kw)


exec(open(os.path.join(V, 'tools', 'check_defs.py')).read())

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = [dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in C]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=instrumentation points', '--grep=^verif: instrument'], stdout=subprocess.PIPE, check=True).stdout.decode().split()
m = dict(version=1,
         setup_cmd='bash tools/setup.sh',
         hooks=dict(guard='verif', enable='go build -tags verif (see harness/build.sh)', source_commits=hooks),
         checks=[dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, evidence_file='evidence/%s.json' % i,
                      technique=c['technique'], level='exploration', level_note=c['note'] + ' ' + TRUST) for i, c in sorted(C.items())],
         not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
json.dump({i: dict(rule=c['rule'], phases=c['phases'], assumptions=c['assumptions'], **({'compare': c['compare']} if 'compare' in c else {})) for i, c in sorted(C.items())},
          open(os.path.join(V, 'tools', 'checks.json'), 'w'), indent=1)
open(os.path.join(V, 'tools', 'checks.json'), 'a').write('\n')
