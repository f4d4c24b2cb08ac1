"""Writes MANIFEST.json from the harness modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        c = i in ('C01', 'C02', 'C03', 'C04', 'C05', 'C20', 'C21', 'C13') and os.path.exists(os.path.join(V, 'sx', 'cbridge.py'))
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique='bounded symbolic execution of the real source with z3 (all feasible paths; assertions as queries; counterexamples replayed natively)',
            level='model_checking',
            level_note='Holds for every value of the symbolic inputs within the bounds stated in the evidence file (sizes, number of operations, hash residues); nothing is claimed outside them. Trusts z3, the symbolic value classes / source instrumentation in sx/'
                + (', the LLVM-IR executor and CPython-API model for the C vector' if c else '') + '; sampled path models are replayed on the unmodified build each run to cross-check the encoding.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it yet.')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang --version >/dev/null', checks=checks, not_applicable=na,
    notes='check.py regenerates the encoding from /repo on every run; no hooks in /repo are needed.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
