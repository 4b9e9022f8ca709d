#!/usr/bin/env python3
"""DESIGN.md = tools/design_body.md + planted bugs + table of sub-checks (needs /repo's backend to import the checks)."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if sys.executable != PY: os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from vf import target
target.import_traceon(target.build_backend())
import importlib
out = open(os.path.join(HERE, 'tools/design_body.md')).read().rstrip('\n')
fx = [l for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith('fixed:')]
n = {}
for l in fx: p = l.split('property=')[1][:3]; n[p] = n.get(p, 0) + 1
out += '\nRepaired per property: ' + ', '.join(f'{k} {v}' for k, v in sorted(n.items())) + '.\n'
out += '''
## Planted bugs

Each lives in `seeded/<id>/` with a demonstration; all of them build, pass the existing tests and are caught by the
quick check of the property they break (first column; other checks often see them too). Those missed at first led
to new sub-checks and options (C18 `small`, C14 `discrete`, C05 units, C19 tracer before bounds, C15 empty groups, ...).

| property | planted bug | what it breaks | needs |
|---|---|---|---|
'''
for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    c = lambda s: ' '.join(str(s).split()).replace('|', '/')
    out += f'| {m["property"]} | {os.path.basename(os.path.dirname(d))} | {c(m["what_it_breaks"])} | {c(m["needs"])} |\n'
out += '''
## Sub-checks: cases per quick run and rule for non-trivial cases

'''
for f in sorted(glob.glob(os.path.join(HERE, 'vf/checks/c[0-9]*.py'))):
    P = importlib.import_module('vf.checks.' + os.path.basename(f)[:-3]).PROPERTY
    out += f'**{P.id}**\n'
    for s in P.subs: out += f'* `{s.name}` ({s.quick}): {" ".join(s.rule.split())}\n'
    if P.assumptions: out += '\nAssumptions: ' + ' '.join(' '.join(a.split()) for a in P.assumptions) + '\n'
    out += '\n'
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)
