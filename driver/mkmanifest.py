#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p.title) <= 80, p.pid
        f.write(json.dumps({'id': p.pid, 'title': p.title, 'statement': p.statement, 'quantifier': {'over': p.over, 'text': p.qtext},
                            'why_tests_cant': p.why, 'anchors': {'files': p.files, 'mechanism': [{'name': a, 'where': b} for a, b in p.mech],
                                                                 'hook_needed': None}}) + '\n')
checks = []
for p in props.PROPS:
    tech = 'TLA+ specification, TLC trace validation of the real library'
    if p.pid == 'C23':
        tech += ' (every day of the range)'
    if p.mc:
        tech += '; TLC model checking of spec/MC_' + ', MC_'.join(p.mc)
    if any(m == 'sim' for m, _, _ in p.profile):
        tech += '; replay of behaviours generated by TLC simulation'
    if any(m == 'model' for m, _, _ in p.profile):
        tech += '; replay of the states enumerated by TLC'
    note = ('Generated scenarios are run by the library built from /repo' + (' with AddressSanitizer' if p.asan else '') +
            '; TLC decides whether each recorded trace is a behaviour of the TLA+ specification (obligations: ' + p.tags +
            '). Bounded by the scenarios explored; trusts the abstraction of values in driver/, CFITSIO, GLib and TLC.')
    checks.append({'property': p.pid, 'quick_cmd': 'python3 driver/check.py %s quick' % p.pid,
                   'thorough_cmd': 'python3 driver/check.py %s thorough' % p.pid, 'technique': tech, 'level': 'model_checking',
                   'level_note': note + (' ' + p.note if p.note else '')})
json.dump({'version': 1, 'setup_cmd': 'bash driver/setup.sh',
           'hooks': {'guard': 'none', 'enable': 'no hooks: the harness uses the public interface of the library only', 'source_commits': []},
           'checks': checks, 'not_applicable': [],
           'notes': 'properties.jsonl and MANIFEST.json are written by driver/mkmanifest.py from driver/props.py. '
                    'Known findings and repairs: known-findings.json. Design: DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)

rows = ['| id | property | scenarios (weight) | model | obligations | scenarios quick / thorough |', '|---|---|---|---|---|---|']
for p in props.PROPS:
    prof = ', '.join(m + ''.join(' %s' % (k if v is True else '%s=%s' % (k, v)) for k, v in kw.items() if k != 'every') + (' (%d)' % w if w > 1 else '')
                     for m, w, kw in p.profile)
    rows.append('| %s | %s | %s | %s | `%s` | %s |' % (p.pid, p.title, prof, ', '.join('MC_' + m for m in p.mc), p.tags.replace('|', '` `'),
                                                  '%d / %d' % p.n if p.n[0] else 'every day'))
seeds = ['| change | property | needs | what it breaks |', '|---|---|---|---|']
sd = os.path.join(V, 'seeded')
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    j = json.load(open(os.path.join(sd, n, 'meta.json')))
    seeds.append('| %s | %s | %s | %s |' % (n, j['property'], j['needs'], j['what_it_breaks']))
if len(seeds) > 2:
    with open(V + '/DESIGN.md', 'w') as f:
        f.write(open(os.path.join(V, 'driver/design.md.in')).read().replace('@PROPS@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(seeds)))
