"""Random small changes everywhere in the sources: which of them does no check report? automut.py SEED COUNT [FILE...]

Works on scratch copies of /repo, several at a time. Survivors are either equivalent or show what is not checked."""
import ast
import copy
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'Aerosol/f2py/'
CHECKS = {
    'Gas_simulation.py': 'C01 C06 C13 C24 C10 C11 C12 C21 C22 C14',
    'ODE_solver.py': 'C01 C03 C05 C06 C13 C08 C07 C21 C14 C09',
    'f2py/Gas_simulation_f2py.py': 'C02 C06 C13 C15 C24 C10 C11 C12 C14 C22',
    'f2py/ODE_solver.py': 'C02 C03 C05 C06 C13 C08 C07 C14 C21 C09',
    A + 'Aerosol_simulation_f2py.py': 'C20 C18 C17 C06 C13 C07 C11 C10 C12 C14 C22 C21 C24',
    A + 'ODE_solver.py': 'C18 C17 C19 C13 C06 C05 C07 C14 C21 C08',
    A + 'Fixed_yield/Aerosol_sim_fixed_yield.py': 'C23 C18 C19 C17 C13 C11 C06 C10 C12 C14 C21 C22',
    A + 'Fixed_yield/ODE_solver_fixedyield.py': 'C23 C18 C19 C17 C13 C06 C14 C08 C21',
    'Parse_eqn_file.py': 'C01 C02 C03 C04 C18 C20 C24 C07 C05 C15 C16 C17 C10 C22 C21 C12',
    'rate_coeff_conversion.py': 'C04 C01 C02',
    'Aerosol/Property_calculation.py': 'C20 C18 C21 C23',
    'Aerosol/Size_distributions.py': 'C20 C23',
}
WEIGHT = {'Parse_eqn_file.py': 4}
NOISE = re.compile(r'^\s*(print|plt\.|pdb|leg)|Copyright|PyBox|#\s*\\n|^\s*!(?!\$)')


def noisy(node):
    s = ast.unparse(node)
    if re.match(r'\s*(print\(|plt\.|import |from |pdb)', s):
        return True
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return True
    if '.write(' in s:
        body = s.split('.write(', 1)[1].strip('"\'() ')
        if re.match(r'[\s\\n]*(!(?!\$)|#|\\n|$)', body) or re.match(r'^\s*$', body.replace('\\n', '')):
            return True
    return False


def sites(tree):
    """(statement, action) pairs"""
    out = []
    for parent in ast.walk(tree):
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(parent, field, None)
            if not isinstance(body, list):
                continue
            for i, n in enumerate(body):
                if not isinstance(n, ast.stmt) or noisy(n):
                    continue
                if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
                    out.append(('delete', body, i, n))
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and not isinstance(x.value, bool) and x.value is not None and x.value is not Ellipsis:
                            out.append(('const', x, n))
                        elif isinstance(x, ast.BinOp):
                            out.append(('op', x, n))
                        elif isinstance(x, ast.Call) and len(x.args) >= 2:
                            out.append(('args', x, n))
                elif isinstance(n, (ast.If, ast.While)) and '__name__' not in ast.dump(n.test):
                    out.append(('negate', n))
                    for x in ast.walk(n.test):
                        if isinstance(x, ast.Compare):
                            out.append(('cmp', x, n.test))
                        elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float, str)) and not isinstance(x.value, bool):
                            out.append(('const', x, n.test))
                        elif isinstance(x, ast.BoolOp):
                            out.append(('bool', x, n.test))
                elif isinstance(n, ast.For):
                    out.append(('skipfirst', n))
    return out


def mutate(src, r):
    tree = ast.parse(src)
    ss = sites(tree)
    s = r.choice(ss)
    k = s[0]
    if k == 'delete':
        what = 'delete: ' + ast.unparse(s[3])
        line = s[3].lineno
        s[1][s[2]] = ast.Pass()
    elif k == 'const':
        x = s[1]
        line = s[2].lineno
        old = x.value
        if isinstance(old, str):
            digits = list(re.finditer(r'(?<![A-Za-z_%])\d+(\.\d+)?', old))
            if digits and r.random() < .8:
                m = r.choice(digits)
                t = m.group()
                new = str(int(t) + 1) if '.' not in t else t + '1'
                x.value = old[:m.start()] + new + old[m.end():]
            elif len(old) > 3:
                ops = [m for m in re.finditer(r'[-+*/]|\.gt\.|\.lt\.|>|<', old)]
                if not ops:
                    x.value = old + 'X' if '\n' not in old else old.replace('\n', 'X\n')
                else:
                    m = r.choice(ops)
                    x.value = old[:m.start()] + {'+': '-', '-': '+', '*': '/', '/': '*'}.get(m.group(), '+') + old[m.end():]
            else:
                x.value = old + 'X'
        elif isinstance(old, int):
            x.value = old + r.choice([1, -1])
        elif isinstance(old, float):
            x.value = old * r.choice([1.01, 2, .5]) if old else 1.0
        else:
            return None
        what = 'const %r -> %r in: %s' % (old, x.value, ast.unparse(s[2]).strip())
    elif k == 'op':
        x = s[1]
        line = s[2].lineno
        new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}.get(type(x.op))
        if new is None or isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
            return None
        x.op = new()
        what = 'operator in: ' + ast.unparse(s[2])
    elif k == 'args':
        x = s[1]
        line = s[2].lineno
        i = r.randrange(len(x.args) - 1)
        x.args[i], x.args[i + 1] = x.args[i + 1], x.args[i]
        what = 'arguments swapped: ' + ast.unparse(s[2])
    elif k == 'negate':
        line = s[1].lineno
        s[1].test = ast.UnaryOp(ast.Not(), s[1].test)
        what = 'negated: ' + ast.unparse(s[1].test)
    elif k == 'cmp':
        x = s[1]
        line = x.lineno
        new = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
               ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}[type(x.ops[0])]
        x.ops[0] = new()
        what = 'comparison: ' + ast.unparse(x)
    elif k == 'bool':
        line = s[1].lineno
        s[1].op = ast.And() if isinstance(s[1].op, ast.Or) else ast.Or()
        what = 'and/or: ' + ast.unparse(s[1])
    else:
        line = s[1].lineno
        s[1].iter = ast.parse('list(0)[1:]', mode='eval').body
        s[1].iter.value.args = [ast.parse('0', mode='eval').body]
        n = s[1]
        orig = [x for x in ss if x is s][0]
        return None if orig is None else skip(tree, n, line, src)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree) + '\n', line, what


def skip(tree, n, line, src):
    # iterate over all but the first element
    t2 = ast.parse(src)
    for x in ast.walk(t2):
        if isinstance(x, ast.For) and x.lineno == line:
            what = 'first element skipped: for %s in %s' % (ast.unparse(x.target), ast.unparse(x.iter))
            c = ast.parse('list(0)[1:]', mode='eval').body
            c.value.args = [x.iter]
            x.iter = c
            ast.fix_missing_locations(t2)
            return ast.unparse(t2) + '\n', line, what
    return None


def one(job):
    i, path, src, line, what, pct = job
    root = '/tmp/automut-%d-%d' % (os.getpid(), i)
    shutil.copytree('/repo', root, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs', 'images', 'test'))
    t = time.time()
    try:
        with open(os.path.join(root, path), 'w') as f:
            f.write(src)
        sys.path.insert(0, VERIF)
        for c in CHECKS[path].split():
            import importlib
            runs = max(16, importlib.import_module('dst.props.' + c.lower()).RUNS['quick'] * pct // 100)
            p = subprocess.run([sys.executable, '-m', 'dst', 'check', c, '--runs', str(runs), '--workers', '2', '--seconds', '250'], cwd=VERIF,
                               env=dict(os.environ, PYBOX_REPO=root, DST_MINIMISE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 1 and 'VIOLATION property=' + c in p.stdout:
                why = [x for x in p.stdout.splitlines() if x.startswith('run ')]
                return '%4d caught   %s %3.0f s %s:%d %s  || %s' % (i, c, time.time() - t, path, line, what[:160].replace('\n', ' '), why[0][:100] if why else '')
            if p.returncode:
                return '%4d BROKEN %s rc=%d %s:%d %s || %s' % (i, c, p.returncode, path, line, what[:200].replace('\n', ' '), p.stdout[-300:].replace('\n', ' '))
        return '%4d SURVIVED %3.0f s %s:%d %s' % (i, time.time() - t, path, line, what[:400].replace('\n', ' '))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    seed, count = sys.argv[1], int(sys.argv[2])
    files = sys.argv[3:] or [f for f in CHECKS for _ in range(WEIGHT.get(f, 1))]
    os.environ.setdefault('DST_RUN', '/tmp')
    r = random.Random(seed)
    jobs = []
    cache = {}
    while len(jobs) < count:
        path = r.choice(files)
        if path not in cache:
            with open('/repo/' + path) as f:
                cache[path] = f.read()
        m = mutate(cache[path], r)
        if m and m[0] != ast.unparse(ast.parse(cache[path])) + '\n':
            jobs.append((len(jobs), path) + m + (30,))
    with ThreadPoolExecutor(4) as ex:
        for s in ex.map(one, jobs):
            print(s, flush=True)


main()
