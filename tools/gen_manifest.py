#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules (run with ./tools/gen_manifest.sh)."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(line) for line in open(os.path.join(here, 'properties.jsonl'))]
mods = {}
for name in sorted(os.listdir(os.path.join(here, 'mc', 'checks'))):
    if name[0] == 'c' and name.endswith('.py'):
        mod = importlib.import_module('mc.checks.' + name[:-3])
        mods[mod.ID] = mod
checks = []
missing = []
for prop in props:
    mod = mods.get(prop['id'])
    if mod is None:
        missing.append(dict(property=prop['id'], reason='the check is not finished yet'))
        continue
    checks.append(dict(
        property=mod.ID, quick_cmd='./check {}'.format(mod.ID),
        thorough_cmd='./check {} --thorough'.format(mod.ID),
        evidence_file='evidence/{}.json'.format(mod.ID),
        technique=mod.TECHNIQUE, level=mod.LEVEL,
        level_note='Bounded: {} Assumes: {}. Trusted: the reference model / oracle in mc/, CPython, numpy, h5py.'.format(
            mod.RULE, '; '.join(getattr(mod, 'ASSUMPTIONS', ())) or 'nothing beyond the bounds')
    ))
manifest = dict(
    version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=missing,
    notes='No hooks are needed in /repo: the checks drive the real code through its API, a controlled event loop, and an LD_PRELOAD shim.'
)
with open(os.path.join(here, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent=1)
    file.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
