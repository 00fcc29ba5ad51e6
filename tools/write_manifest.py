"""MANIFEST.json from the contract modules and the not-applicable list."""
import ast
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(V, 'contracts', i + '.py')
    if os.path.exists(f) and i not in NA:
        m = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'LEVEL_NOTE'):
                m[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
                           technique=m.get('TECHNIQUE', 'contract-based deductive verification: loop contracts on the real source, verification conditions discharged by SMT solvers'),
                           level=m.get('LEVEL', 'proof'),
                           level_note=m.get('LEVEL_NOTE', 'Contracts on the functions named in the evidence are proved for all inputs on every run from the current source; '
                                            'floats as reals with NaN, numpy/numba/Cython/pytables behaviour as modelled; file-level plumbing and fallback for source '
                                            'outside the verifier subset is a bounded run-time contract evaluation, labelled bounded in the evidence.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
