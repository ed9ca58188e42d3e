#!/usr/bin/env python3
"""Writes DESIGN.md: design.md (prose), and tables from known_findings.json, seeded/ and the evidence of past runs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(HERE, 'tools', 'design.md')).read().rstrip(), '']

known = json.load(open(os.path.join(HERE, 'known_findings.json')))
out += ['', '## Repaired defects', '',
        'Each was shown by a failing input against the original tree, and is reported again by its check if the commit is reverted.', '']
by = {}
for line in known['fixed']:
    _, prop, rest = line.split(None, 2)
    by.setdefault(prop.split('=')[1], []).append(rest)
for prop in sorted(by):
    out.append('* **{}** '.format(prop) + '; '.join('{} ({})'.format(rr.split(None, 1)[1], rr.split()[0]) for rr in by[prop]))

res = {}
path = os.path.join(HERE, 'tools', 'seeded_results.json')
if os.path.exists(path):
    res = json.load(open(path))
out += ['', '## Planted bugs', '',
        'All of them apply to HEAD, change original lines, pass the stable tests and have a demonstration.  "Caught" is the quick tier (seed 1) of the',
        'property named; several were missed when planted and led to the strengthening noted.', '',
        '| bug | what it breaks | needs | caught by | note |', '|---|---|---|---|---|']
notes = json.load(open(os.path.join(HERE, 'tools', 'seeded_notes.json')))
base = os.path.join(HERE, 'seeded')
for bug in sorted(os.listdir(base)):
    meta = json.load(open(os.path.join(base, bug, 'meta.json')))
    cell = lambda xx: str(xx).replace('|', '/').replace('\n', ' ')      # noqa
    out.append('| {} | {} | {} | {} | {} |'.format(bug, cell(meta['what_it_breaks']), cell(meta['needs']), ' '.join(res.get(bug, ['?'])),
                                                  notes.get(bug, '')))

times = os.path.join(HERE, 'tools', 'times.json')
if os.path.exists(times):
    times = json.load(open(times))
    out += ['', '## Cost', '', 'Cases, verdicts and seconds (8 cores) of one run of each tier.', '',
            '| check | quick | thorough |', '|---|---|---|']
    for prop in sorted(times):
        cells = []
        for tier in ('quick', 'thorough'):
            tt = times[prop].get(tier)
            cells.append('{} cases, {} verdicts, {:.0f} s'.format(*tt) if tt else '')
        out.append('| {} | {} | {} |'.format(prop, *cells))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
