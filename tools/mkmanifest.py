#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and the list of properties that are not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import jobs
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = 'Bounded: every assertion holds for all values of the symbolic inputs within the bounds listed in the evidence (%s). Trusts rustc, rsym and Z3; every counterexample must fail natively before it is reported.'
checks = []
for i in ids:
    if i not in jobs.PROPS:
        continue
    b = jobs.PROPS[i]['bounds'][0]
    checks.append(dict(property=i, quick_cmd='python3 vp.py check %s quick' % i, thorough_cmd='python3 vp.py check %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, level='model_checking',
                       technique='symbolic execution of the compiled LLVM IR of /repo, every branch and assertion decided by Z3 (bit-vectors), native replay',
                       level_note=NOTE % b))
na = [dict(property=i, reason=jobs.NOT_CLAIMED.get(i, 'check not built yet')) for i in ids if i not in jobs.PROPS]
json.dump(dict(version=1, setup_cmd='python3 vp.py setup', checks=checks, not_applicable=na,
               hooks=dict(guard='cfg(vt6_model_locks)', enable="RUSTFLAGS='--cfg vt6_model_locks' when vp.py builds the crates harness_tokio and harness_server (whose tokio is /verif/tokio_model)",
                          source_commits=['0df2db103c4141b8f8a999837902d5784caf3909']),
               notes='The hook replaces the locks of the Tokio dispatch by locks of the model, where threads can be preempted; everything else is reached through the public interface.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
