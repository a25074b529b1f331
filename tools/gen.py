#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from meta.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import meta  # NOQA

na = dict(meta.NOT_APPLICABLE)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        assert len(p['title']) <= 80, p['id']
        assert all(os.path.exists(os.path.join('/repo', n))
                   for n in p['files']), p['files']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
checks = []
for p in meta.PROPS:
    i = p['id']
    if i in na or not os.path.exists(os.path.join(V, 'checks', i + '.py')):
        continue
    checks.append({
        'property': i, 'quick_cmd': './run.py {} --tier quick'.format(i),
        'thorough_cmd': './run.py {} --tier thorough'.format(i),
        'evidence_file': 'evidence/{}.json'.format(i),
        'technique': 'symbolic execution of the real Python code over z3 '
                     'terms (path-exhaustive, bounded), SMT-discharged '
                     'assertions, counterexample replay on the unpatched '
                     'code',
        'level': 'model_checking',
        'level_note': p['note'] or (
            'All values within the bounds listed in the evidence file, over '
            'exact reals/integers instead of machine floats; numpy/chainer '
            'kernels and RNG are modelled by the framework in symx/.')})
claimed = {c['property'] for c in checks}
out = {
    'version': 1,
    'setup_cmd': './run.py --selftest',
    'checks': checks,
    'not_applicable': [
        {'property': p['id'], 'reason': na.get(p['id'], 'check not built '
                                               'yet')}
        for p in meta.PROPS if p['id'] not in claimed],
    'notes': 'No hooks in /repo. See DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(out['not_applicable']), 'not applicable')

# -- the per-property part of DESIGN.md
import ast  # NOQA


def consts(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name \
                if isinstance(n, ast.Assign) and \
                isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
    return ''


def is_harness(f):
    return isinstance(f, ast.FunctionDef) and any(
        isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness'
        for d in f.decorator_list)


def one_line(s):
    return ' '.join((s or '').split())


sec = []
for p in meta.PROPS:
    i = p['id']
    path = os.path.join(V, 'checks', i + '.py')
    if i in na or not os.path.exists(path):
        continue
    tree = ast.parse(open(path).read())
    sec.append('### {} {}\n'.format(i, p['title']))
    sec.append('*Property.* ' + p['statement'] + '\n')
    sec.append('*Decided by* `checks/{}.py` — {}\n'.format(
        i, one_line(ast.get_docstring(tree))))
    for f in tree.body:
        if is_harness(f):
            doc = one_line(ast.get_docstring(f))
            sec.append('- `{}`{}'.format(f.name, ': ' + doc if doc else ''))
    sec.append('')
    sec.append('*Bounds.* ' + one_line(consts(tree, 'BOUNDS')) + '\n')
    asm = consts(tree, 'ASSUMPTIONS')
    if asm:
        sec.append('*Assumed.* ' + '; '.join(map(one_line, asm)) + '\n')
    sec.append('*Beyond tests.* {}; the check covers {}.\n'.format(
        p['why'].rstrip('.'), p['quant'].rstrip('.')))
for i, why in sorted(na.items()):
    p = [q for q in meta.PROPS if q['id'] == i][0]
    sec.append('### {} {} (not applicable)\n\n{}\n\n{}\n'.format(
        i, p['title'], p['statement'], why))
path = os.path.join(V, 'DESIGN.md')
d = open(path).read()
B, E = '<!-- generated by tools/gen.py -->', '<!-- end -->'
a, b = d.index(B) + len(B), d.index(E)
open(path, 'w').write(d[:a] + '\n' + '\n'.join(sec) + '\n' + d[b:])
