#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = '/verif'
M = ['array_2d_row_real_matrix.go', 'block_real_matrix.go', 'diagonal_matrix.go', 'real_matrix.go']
V = ['array_real_vector.go', 'real_vector.go']
D = ['lu_decomposition.go', 'qr_decomposition.go', 'rrqr_decomposition.go', 'cholesky_decomposition.go', 'rectangular_cholesky_decomposition.go',
     'eigen_decomposition.go', 'singular_value_decomposition.go', 'bidiagonal_transformer.go', 'tridiagonal_transformer.go', 'hessenberg_transformer.go', 'schur_transformer.go']
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na, state=state or []))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())
P.sort(key=lambda p: p['id'])
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], state=p['state'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
checks, na = [], []
for p in P:
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
    notes='No hooks: the analyser reads the source of /repo as it is. Repairs of genuine defects are the fix: commits listed in known_findings.txt.'), open(ROOT + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(ROOT + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(ROOT + '/properties.jsonl'):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(checks), 'checks', len(na), 'not applicable')
except ImportError:
    print('written (no jsonschema)')
