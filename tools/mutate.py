"""Mutation testing of the checks (development tool, not part of any check).

usage: mutate.py FILE.py N SEED [FUNC,...]  -- N random syntactic mutants of
spaudiopy/FILE.py, each run against the quick checks that mention the changed
function; survivors are written to /tmp/w/mut/FILE_SEED.txt.
"""
import ast
import copy
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/mut'


def targets(tree):
    """(function, node path, mutation name, mutator)."""
    out = []

    def swap_op(new):
        def f(n):
            n.op = new
        return f

    def walk(fn, node, cls):
        for n in ast.walk(node):
            if isinstance(n, ast.BinOp):
                alt = {ast.Add: [ast.Sub()], ast.Sub: [ast.Add()],
                       ast.Mult: [ast.Div()], ast.Div: [ast.Mult()],
                       ast.Pow: [ast.Mult()],
                       ast.FloorDiv: [ast.Mult()],
                       ast.MatMult: []}.get(type(n.op), [])
                for a in alt:
                    out.append((fn, n, f'op->{type(a).__name__}',
                                swap_op(a)))
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                    out.append((fn, n, 'binop->left', 'left'))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                out.append((fn, n, 'drop minus', 'operand'))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append((fn, n, 'drop not', 'operand'))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = n.ops[0]
                alt = {ast.Lt: [ast.LtE(), ast.Gt()],
                       ast.LtE: [ast.Lt(), ast.Gt()],
                       ast.Gt: [ast.GtE(), ast.Lt()],
                       ast.GtE: [ast.Gt(), ast.Lt()],
                       ast.Eq: [ast.NotEq()], ast.NotEq: [ast.Eq()],
                       ast.Is: [ast.IsNot()], ast.IsNot: [ast.Is()],
                       ast.In: [ast.NotIn()],
                       ast.NotIn: [ast.In()]}.get(type(o), [])
                for a in alt:
                    def f(n, a=a):
                        n.ops = [a]
                    out.append((fn, n, f'cmp->{type(a).__name__}', f))
            elif isinstance(n, ast.BoolOp):
                def f(n):
                    n.op = ast.Or() if isinstance(n.op, ast.And) \
                        else ast.And()
                out.append((fn, n, 'and<->or', f))
            elif isinstance(n, ast.Constant) and \
                    isinstance(n.value, (int, float)):
                if isinstance(n.value, bool):
                    def f(n):
                        n.value = not n.value
                    out.append((fn, n, 'negate', f))
                else:
                    def f(n):
                        n.value = n.value + 1
                    out.append((fn, n, 'const+1', f))
                    if n.value not in (0,):
                        def g(n):
                            n.value = type(n.value)(n.value * .5) \
                                if isinstance(n.value, float) else \
                                n.value - 1
                        out.append((fn, n, 'const smaller', g))
            elif isinstance(n, ast.Call):
                nm = ast.unparse(n.func)
                if n.keywords:
                    for i in range(len(n.keywords)):
                        def f(n, i=i):
                            del n.keywords[i]
                        out.append((fn, n, f'drop kw {n.keywords[i].arg}',
                                    f))
                if nm in ('abs', 'np.abs', 'np.real', 'np.conj', 'np.clip',
                          'np.sqrt', 'np.copy', 'copy.copy',
                          'copy.deepcopy', 'np.squeeze', 'np.unwrap',
                          'np.atleast_2d', 'int', 'np.round', 'np.ceil',
                          'np.floor') and n.args:
                    out.append((fn, n, f'drop {nm}', 'args0'))
                if nm.endswith(('.conj', '.copy', '.ravel')) and not n.args \
                        and isinstance(n.func, ast.Attribute):
                    out.append((fn, n, f'drop {nm[-8:]}', 'func.value'))
                if len(n.args) == 2 and not n.keywords:
                    def f(n):
                        n.args = n.args[::-1]
                    out.append((fn, n, 'swap args', f))
                alt = {'np.min': 'max', 'np.max': 'min', 'np.argmin':
                       'argmax', 'np.argmax': 'argmin', 'np.sum': 'mean',
                       'np.mean': 'sum', 'np.sin': 'cos', 'np.cos': 'sin',
                       'np.floor': 'ceil', 'np.ceil': 'floor',
                       'np.zeros': 'ones', 'np.ones': 'zeros',
                       'np.any': 'all', 'np.all': 'any'}.get(nm)
                if alt:
                    def f(n, alt=alt):
                        n.func.attr = alt
                    out.append((fn, n, f'{nm}->{alt}', f))
            elif isinstance(n, ast.Attribute) and n.attr == 'T':
                out.append((fn, n, 'drop .T', 'value'))
            elif isinstance(n, ast.Slice):
                for p in ('lower', 'upper', 'step'):
                    if getattr(n, p) is not None:
                        def f(n, p=p):
                            setattr(n, p, None)
                        out.append((fn, n, f'slice drop {p}', f))
            elif isinstance(n, (ast.If, ast.IfExp)):
                for v in (True, False):
                    def f(n, v=v):
                        n.test = ast.Constant(v)
                    out.append((fn, n, f'if {v}', f))
            elif isinstance(n, ast.AugAssign):
                def f(n):
                    n.op = ast.Sub() if isinstance(n.op, ast.Add) else \
                        ast.Add()
                out.append((fn, n, 'augassign', f))
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign,
                                ast.Assert)) and not (
                    isinstance(n, ast.Expr) and
                    isinstance(n.value, ast.Constant)):
                out.append((fn, n, 'delete', 'pass'))
    for d in tree.body:
        if isinstance(d, ast.FunctionDef):
            walk(d.name, d, None)
        elif isinstance(d, ast.ClassDef):
            for e in d.body:
                if isinstance(e, ast.FunctionDef):
                    walk(f'{d.name}.{e.name}', e, d.name)
    return out


class Rep(ast.NodeTransformer):
    def __init__(self, node, how):
        self.node, self.how = node, how

    def visit(self, n):
        if n is self.node:
            h = self.how
            if callable(h):
                h(n)
                return n
            if h == 'pass':
                return ast.copy_location(ast.Pass(), n)
            return {'left': lambda: n.left, 'operand': lambda: n.operand,
                    'args0': lambda: n.args[0],
                    'func.value': lambda: n.func.value,
                    'value': lambda: n.value}[h]()
        return self.generic_visit(n)


def props_for(fn, mod):
    """Property modules that mention the function, most specific first."""
    base = fn.split('.')[-1] if not fn.endswith('__init__') else \
        fn.split('.')[0]
    cls = fn.split('.')[0] if '.' in fn else None
    hits = []
    for f in sorted(os.listdir(os.path.join(ROOT, 'pbt/props'))):
        if not re.match(r'c\d\d\.py', f):
            continue
        s = open(os.path.join(ROOT, 'pbt/props', f)).read()
        n = len(re.findall(r'\b%s\b' % re.escape(base), s))
        if cls and cls not in s and base not in s:
            n = 0
        if n:
            hits.append((f[:3] in ('c31', 'c33', 'c11', 'c32'), -n,
                         f[:3].upper()))
    return [h[2] for h in sorted(hits)]


def main():
    fname, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
    os.makedirs(W, exist_ok=True)
    src = open(f'/repo/spaudiopy/{fname}').read()
    base = ast.unparse(ast.parse(src))
    T = targets(ast.parse(src))
    order = [i for i in range(len(T)) if not only or T[i][0] in only]
    random.Random(seed).shuffle(order)
    workers = int(os.environ.get('MUT_JOBS', '8'))
    jobs = []
    for i in order:
        if len(jobs) >= N:
            break
        tree = ast.parse(src)
        fn, node, name, how = targets(tree)[i]
        before = ast.unparse(node)[:150]
        try:
            new = ast.unparse(ast.fix_missing_locations(
                Rep(node, how).visit(tree)))
            compile(new, 'x', 'exec')
        except Exception:
            continue
        if new == base:
            continue
        jobs.append((i, fn, getattr(node, 'lineno', 0), name, before, new))
    out = open(f'{W}/{fname}_{seed}.txt', 'w')
    free = list(range(workers))
    for k in free:
        for d in ('repo', 'verif'):
            p = f'{W}/w{k}{d}'
            shutil.rmtree(p, ignore_errors=True)
            shutil.copytree('/' + d, p, symlinks=True,
                            ignore=shutil.ignore_patterns('.git', 'seeded'))

    def one(job):
        i, fn, line, name, before, new = job
        k = free.pop()
        try:
            with open(f'{W}/w{k}repo/spaudiopy/{fname}', 'w') as f:
                f.write(new)
            env = dict(os.environ, VERIF_REPO=f'{W}/w{k}repo',
                       VERIF_JOBS='2', VERIF_SEED='1')
            ps = props_for(fn, fname)
            for p in ps:
                try:
                    r = subprocess.run(
                        ['bash', f'{W}/w{k}verif/check.sh', p, 'quick'],
                        env=env, capture_output=True, text=True,
                        timeout=500)
                except subprocess.TimeoutExpired:
                    return job, f'TIMEOUT {p}'
                if r.returncode == 1:
                    return job, f'caught {p}'
                if r.returncode != 0:
                    return job, f'ERROR {p} {r.stderr[-300:]}'
            return job, f'SURVIVED {ps}'
        finally:
            free.append(k)
    n = c = 0
    with ThreadPoolExecutor(workers) as ex:
        for job, res in ex.map(one, jobs):
            n += 1
            c += res.startswith('caught')
            if not res.startswith('caught'):
                out.write(f'{job[1]}:{job[2]} [{job[3]}] {job[4]!r} -> '
                          f'{res}\n')
                out.flush()
    out.write(f'# {c} of {n} caught\n')
    out.close()
    for k in range(workers):
        for d in ('repo', 'verif'):
            shutil.rmtree(f'{W}/w{k}{d}', ignore_errors=True)


main()
