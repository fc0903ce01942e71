#!/usr/bin/env python3
"""Writes DESIGN.md from doc/head.md, properties.jsonl, the checks, seeded/ and doc/tail.md."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
man = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
out = [open('doc/head.md').read().rstrip() + '\n']
seeded = {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    seeded.setdefault(m['property'], []).append((d.split('/')[1], m['needs']))
results = json.load(open('doc/planted.json')) if os.path.exists('doc/planted.json') else {}
for line in open('properties.jsonl'):
    p = json.loads(line)
    f = glob.glob('checks/%s_*.py' % p['id'].lower())[0]
    t = ast.parse(open(f).read())
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('Specified: see `properties.jsonl`. Quantified over: %s.\n' % p['quantifier']['text'].rstrip('.'))
    o = man[p['id']]['level_note'].split('. Assurance')[0]
    out.append('%s. Check: `%s`.\n' % (o, f))
    out.append('Why tests cannot settle it: %s.\n' % p['why_tests_cant'].rstrip('.'))
    out.append('| law | cases (quick / thorough) | decides | non-trivial |\n|---|---|---|---|')
    for n in t.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func) == 'R.law':
                kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords if k.arg in ('quick', 'thorough', 'rule')}
                q = kw.get('quick', 200)
                out.append('| %s | %d / %d | %s | %s |' % (n.name, q, kw.get('thorough', 20 * q), ' '.join((ast.get_docstring(n) or '').split()), kw.get('rule', '')))
    out.append('')
    if p['id'] in seeded:
        out.append('Planted bugs (all caught by this check unless said otherwise):\n')
        for i, needs in seeded[p['id']]:
            r = results.get(i)
            out.append('* `%s`: %s%s' % (i, needs.rstrip('.'), '' if r is None else ' — ' + r))
        out.append('')
out.append(open('doc/tail.md').read())
open('DESIGN.md', 'w').write('\n'.join(out))
