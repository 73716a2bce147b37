#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='cargo build --release --offline --quiet --manifest-path engine/Cargo.toml --target-dir .build/engine', checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 vf.py %s --tier quick' % p, thorough_cmd='python3 vf.py %s --tier thorough' % p,
            technique=c.get('technique', 'symbolic execution of the compiler\'s LLVM IR of /repo with SMT (z3), SAT sweeping and GF(2) normal forms; counterexamples replayed natively'),
            level='model_checking',
            level_note='Bounded: holds for every value within: %s. Outside: %s. Trusts rustc/LLVM\'s translation to IR, the executor (cross-checked by native replay of sampled paths), z3, and the reference models in harness/src/spec.' % (c['bounds'], c.get('outside', 'other sizes'))))
    else:
        m['not_applicable'].append(dict(property=p, reason=checks.NOT_APPLICABLE.get(p, 'no check has been built for it yet')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
