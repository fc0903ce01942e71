#!/usr/bin/env python3
"""Mutation sampling: applies small syntactic changes to copies of /repo and runs
the checks of the changed module.  A development aid (not used by any check):
survivors show behaviour that no law looks at.

usage: mutate.py OUT.jsonl SEED COUNT [file-substring ...]
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys

REPO = '/repo'
MAP = {
    'shape.py': ['C01', 'C02', 'C26'], 'moments.py': ['C02', 'C03', 'C13', 'C19'], 'jacobian/': ['C04', 'C06'], 'pixels/': ['C05', 'C12'],
    'observation.py': ['C06', 'C07', 'C15'], 'gmix/gmix.py': ['C09', 'C08', 'C10', 'C11', 'C12', 'C13', 'C30'],
    'gmix/gmix_nb.py': ['C08', 'C12', 'C10', 'C11', 'C09', 'C13', 'C20'], 'gmix/render_nb.py': ['C11'], 'gmix/gmix_lists.py': ['C10', 'C20', 'C09'],
    'fastexp_nb.py': ['C12', 'C11'], 'admom/': ['C14'], 'prepsfmom.py': ['C15'], 'gaussmom.py': ['C13'], 'metacal/': ['C16', 'C17'],
    'simobs.py': ['C18'], 'em/': ['C19'], 'fitting/results.py': ['C20', 'C21', 'C23'], 'fitting/fitters.py': ['C21', 'C23', 'C20'],
    'fitting/leastsqbound.py': ['C22', 'C21'], 'fitting/galsim': ['C24', 'C23'], 'runners.py': ['C25'], 'bootstrap.py': ['C25'],
    'priors/': ['C26', 'C27'], 'joint_prior.py': ['C27'], 'guessers.py': ['C28'], 'gmix_ndim/': ['C29'], 'gaussap.py': ['C30'], 'medsreaders.py': ['C31'],
    'util.py': ['C21', 'C03', 'C16'], 'defaults.py': ['C21', 'C19', 'C13'], 'flags.py': ['C03', 'C21'],
}
SKIPFN = {'plot', '__repr__', '__str__', 'plot_comp', 'show', 'view', 'print_pars', 'format_pars', 'report'}
PAIRS = [('row', 'col'), ('irr', 'icc'), ('g1', 'g2'), ('u', 'v'), ('e1', 'e2'), ('s1', 's2'), ('minval', 'maxval'), ('sigma1', 'sigma2'), ('cen1', 'cen2'),
         ('row0', 'col0'), ('vrow', 'urow'), ('dvdrow', 'dudrow'), ('dvdcol', 'dudcol'), ('nrow', 'ncol'), ('udiff', 'vdiff'), ('i', 'j'), ('beg', 'end'),
         ('start', 'stop'), ('mean', 'sigma'), ('image', 'weight'), ('bmask', 'ormask'), ('T', 'flux'), ('nband', 'nobs')]
SW = {}
for a, b in PAIRS:
    SW[a] = b
    SW[b] = a
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def sites(tree):
    """list of (lineno, description, function that changes the tree in place); deterministic order"""
    out = []

    def add(node, desc, fn):
        out.append((node.lineno, desc, fn))

    def walk(node, infn):
        for name, val in ast.iter_fields(node):
            vals = val if isinstance(val, list) else [val]
            for i, x in enumerate(vals):
                if not isinstance(x, ast.AST):
                    continue
                if isinstance(x, (ast.FunctionDef,)) and (x.name in SKIPFN or x.name.startswith('plot')):
                    continue
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    continue        # docstring
                if isinstance(x, ast.Raise):
                    if infn and isinstance(val, list):
                        add(x, 'drop raise', lambda val=val, i=i, x=x: val.__setitem__(i, ast.copy_location(ast.Pass(), x)))
                    continue
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                    s = ast.unparse(x)
                    if 'logger' in s or 'print(' in s or 'warn' in s:
                        continue
                    if isinstance(val, list):
                        add(x, 'drop ' + s[:60], lambda val=val, i=i, x=x: val.__setitem__(i, ast.copy_location(ast.Pass(), x)))
                if isinstance(x, (ast.Import, ast.ImportFrom, ast.Global)):
                    continue
                if isinstance(x, ast.Assign) and name == 'body' and not infn and not isinstance(node, ast.ClassDef) and isinstance(x.value, (ast.Constant, ast.List)) and '__all__' in ast.unparse(x):
                    continue
                if isinstance(x, ast.AugAssign) and isinstance(val, list):
                    add(x, 'drop ' + ast.unparse(x)[:60], lambda val=val, i=i, x=x: val.__setitem__(i, ast.copy_location(ast.Pass(), x)))
                    if type(x.op) in BIN:
                        add(x, 'op of ' + ast.unparse(x)[:60], lambda x=x: setattr(x, 'op', BIN[type(x.op)]()))
                if isinstance(x, ast.Compare) and type(x.ops[0]) in CMP:
                    add(x, 'cmp ' + ast.unparse(x)[:60], lambda x=x: x.ops.__setitem__(0, CMP[type(x.ops[0])]()))
                if isinstance(x, ast.BinOp) and type(x.op) in BIN and not (isinstance(x.left, ast.Constant) and isinstance(x.left.value, str)):
                    add(x, 'op of ' + ast.unparse(x)[:60], lambda x=x: setattr(x, 'op', BIN[type(x.op)]()))
                if isinstance(x, ast.BoolOp):
                    add(x, 'bool ' + ast.unparse(x)[:60], lambda x=x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
                if isinstance(x, ast.If):
                    add(x, 'never ' + ast.unparse(x.test)[:60], lambda x=x: setattr(x, 'test', ast.copy_location(ast.Constant(False), x.test)))
                    add(x, 'always ' + ast.unparse(x.test)[:60], lambda x=x: setattr(x, 'test', ast.copy_location(ast.Constant(True), x.test)))
                if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool) and infn:
                    v = x.value
                    add(x, 'const %r +1' % v if isinstance(v, int) else 'const %r *1.01' % v, lambda x=x, v=v: setattr(x, 'value', v + 1 if isinstance(v, int) else v * 1.01 if v else 0.01))
                if isinstance(x, ast.Constant) and isinstance(x.value, bool) and infn:
                    add(x, 'not %r' % x.value, lambda x=x: setattr(x, 'value', not x.value))
                if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and isinstance(val, list) is False:
                    add(x, 'drop minus ' + ast.unparse(x)[:40], lambda node=node, name=name, x=x: setattr(node, name, x.operand))
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in SW and infn:
                    add(x, 'swap %r' % x.value, lambda x=x: setattr(x, 'value', SW[x.value]))
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in SW and infn:
                    add(x, 'swap name %s' % x.id, lambda x=x: setattr(x, 'id', SW[x.id]))
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in SW and infn:
                    add(x, 'swap attr %s' % x.attr, lambda x=x: setattr(x, 'attr', SW[x.attr]))
                if isinstance(x, ast.Call) and infn:
                    for k, kw in enumerate(x.keywords):
                        if kw.arg:
                            add(x, 'drop kw %s of %s' % (kw.arg, ast.unparse(x.func)[:40]), lambda x=x, k=k: x.keywords.pop(k))
                    if isinstance(x.func, ast.Attribute) and x.func.attr == 'copy' and not x.args:
                        add(x, 'no copy ' + ast.unparse(x)[:50], lambda val=val, i=i, x=x, node=node, name=name: val.__setitem__(i, x.func.value) if isinstance(val, list) else setattr(node, name, x.func.value))
                if isinstance(x, ast.Assign) and infn and isinstance(val, list) and isinstance(x.targets[0], (ast.Attribute, ast.Subscript)):
                    add(x, 'drop ' + ast.unparse(x)[:60], lambda val=val, i=i, x=x: val.__setitem__(i, ast.copy_location(ast.Pass(), x)))
                if isinstance(x, ast.Continue) and isinstance(val, list):
                    add(x, 'continue -> break', lambda val=val, i=i, x=x: val.__setitem__(i, ast.copy_location(ast.Break(), x)))
                walk(x, infn or isinstance(x, ast.FunctionDef))
    walk(tree, False)
    return out


def checks_for(path):
    for k, v in sorted(MAP.items(), key=lambda t: -t[0].count('/')):
        if path.startswith('ngmix/' + k) or path.endswith('/' + k) and k != 'bootstrap.py':
            return v
    return []


def run(job):
    num, path, idx, line, desc, checks = job
    me = mp.current_process()._identity[0]
    rr, vv = '/tmp/mut/r%d' % me, '/tmp/mut/v%d' % me
    if not os.path.isdir(rr):
        os.makedirs('/tmp/mut', exist_ok=True)
        subprocess.check_call(['cp', '-a', REPO, rr])
        subprocess.check_call('mkdir -p %s && cd /verif && git archive HEAD | tar x -C %s' % (vv, vv), shell=True)
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    sites(tree)[idx][2]()
    ast.fix_missing_locations(tree)
    try:
        new = ast.unparse(tree)
    except Exception as e:
        return dict(path=path, idx=idx, line=line, desc=desc, result='unparse %r' % e)
    f = os.path.join(rr, path)
    open(f, 'w').write(new)
    res, by, msg = 'SURVIVED', None, ''
    env = dict(os.environ, VERIF_REPO=rr, VERIF_SEED='1', VERIF_NPROC='2')
    try:
        for c in checks:
            try:
                p = subprocess.run(['./check', c, 'quick'], cwd=vv, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                res, by = 'timeout', c
                break
            if p.returncode == 1:
                res, by = 'killed', c
                msg = [x for x in p.stdout.split('\n') if x.startswith('law ')][:1]
                break
            if p.returncode != 0:
                res, by = 'error', c
                msg = (p.stdout + p.stderr)[-300:]
                break
    finally:
        open(f, 'w').write(src)
    return dict(path=path, idx=idx, line=line, desc=desc, result=res, by=by, msg=msg, src=src.split('\n')[line - 1].strip())


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4:]
    jobs = []
    for d, _, fs in os.walk(os.path.join(REPO, 'ngmix')):
        if 'tests' in d:
            continue
        for fn in sorted(fs):
            path = os.path.relpath(os.path.join(d, fn), REPO)
            if not fn.endswith('.py') or fn == '__init__.py' or (only and not any(o in path for o in only)):
                continue
            c = checks_for(path)
            if not c:
                continue
            for idx, (line, desc, _) in enumerate(sites(ast.parse(open(os.path.join(REPO, path)).read()))):
                jobs.append((0, path, idx, line, desc, c))
    done = set()
    if os.path.exists(out):
        done = {(j['path'], j['idx']) for j in map(json.loads, open(out))}
    print(len(jobs), 'sites,', len(done), 'done')
    random.Random(seed).shuffle(jobs)
    # at most CAP (in all) from one file
    cap, n, keep = int(os.environ.get('CAP', '60')), {}, []
    for j in jobs:
        n[j[1]] = n.get(j[1], 0) + 1
        if n[j[1]] <= cap:
            keep.append(j)
    jobs = keep
    jobs = [j for j in jobs if (j[1], j[2]) not in done][:count]
    ctx = mp.get_context('fork')
    n = int(os.environ.get('MUT_PROCS', '5'))
    with ctx.Pool(n) as pool, open(out, 'a') as fo:
        for r in pool.imap_unordered(run, jobs):
            fo.write(json.dumps(r) + '\n')
            fo.flush()


if __name__ == '__main__':
    main()
