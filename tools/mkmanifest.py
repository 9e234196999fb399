"""Regenerate MANIFEST.json from properties.jsonl, the checks present and the tables below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C25': 'Quantifies over floating-point residuals of a dense solve whose conditioning depends on runtime values (stiffness contrasts, segment lengths); no sound static bound is in reach.',
    'C26': 'Existence and ordering of roots of a transcendental function (substitute stiffnesses come from solved boundary-value problems) over all parameters: an analytic question about runtime values that no static argument in reach decides.',
    'C27': 'The number of real and complex eigenvalues of a 6x6 matrix and rounding of eigenvalues near the axes depend on runtime values; static analysis has no sound bound for the classification.',
    'C28': 'Needs external reference data (finite-element solutions, field measurements); nothing in the source decides agreement with them.',
    'C29': 'Accuracy of adaptive quadrature and grid averages is a property of runtime integrands; no static error bound is in reach.',
}
TECH = {}
exec(open(os.path.join(ROOT, 'tools', 'techniques.py'), encoding='utf-8').read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.isfile(os.path.join(ROOT, 'checks', i + '.py')):
        t, n = TECH[i]
        checks.append(dict(property=i, technique=t, level='other', level_note=n,
                           quick_cmd=f'python3-vt checks/{i}.py',
                           thorough_cmd=f'VERIF_TIER=thorough python3-vt checks/{i}.py',
                           evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i, reason='Check not built yet.'))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q vlib checks',
         checks=checks, not_applicable=na,
         notes='Static analysis of /repo\'s current source: abstract interpretation over an algebraic term domain (gated value numbering), '
               'a unit domain, effect/typestate/escape analyses of the same interpreter; no code of /repo is executed and no solver is used. '
               'Known findings and repairs: KNOWN_FINDINGS.txt. No hooks in /repo.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
