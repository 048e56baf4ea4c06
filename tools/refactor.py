"""Do behaviour preserving edits leave the checks quiet? refactor.py [-r RUNS_PERCENT] [NAME...]

Every transformation rewrites all the sources in a scratch copy of /repo; all checks then run against the copy."""
import ast
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {'test', 'docs', 'images', '.git', '__pycache__', '.github'}
FUNCS = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Rename(ast.NodeTransformer):
    """Local variables of functions get other names"""

    def visit_FunctionDef(self, node):
        args = {a.arg for f in ast.walk(node) if isinstance(f, (ast.FunctionDef, ast.Lambda))
                for a in f.args.args + f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
        glob = {n for g in ast.walk(node) if isinstance(g, (ast.Global, ast.Nonlocal)) for n in g.names}
        stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names = stored - args - glob
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + '_v'
            elif isinstance(n, ast.ExceptHandler) and n.name in names:
                n.name += '_v'
        return node


class Lists(ast.NodeTransformer):
    """for x in S -> for x in list(S)"""

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.Call(ast.Name('list', ast.Load()), [node.iter], [])
        return node


class Whiles(ast.NodeTransformer):
    """for i in range(..) -> while"""
    n = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse or any(isinstance(x, ast.Continue) for x in ast.walk(node)) or not isinstance(node.target, ast.Name):
            return node
        self.n += 1
        k = '_k%d' % self.n
        s = '_s%d' % self.n
        pre = ast.parse('%s = list(0)\n%s = 0' % (s, k)).body
        pre[0].value.args = [node.iter]
        w = ast.parse('while %s < len(%s):\n    pass' % (k, s)).body[0]
        w.body = ast.parse('%s = %s[%s]' % (node.target.id, s, k)).body + node.body + ast.parse('%s += 1' % k).body
        return pre + [w]


class Inverted(ast.NodeTransformer):
    def visit_If(self, node):
        self.generic_visit(node)
        if '__name__' in ast.dump(node.test):
            return node
        node.test = ast.UnaryOp(ast.Not(), node.test)
        node.body, node.orelse = node.orelse or [ast.Pass()], node.body
        return node


class Temps(ast.NodeTransformer):
    """a = f(b) + c -> t = f(b) + c; a = t; arguments of calls as well"""
    n = 0

    def visit_Assign(self, node):
        if isinstance(node.value, (ast.BinOp, ast.Call)) and len(node.targets) == 1:
            self.n += 1
            t = '_t%d' % self.n
            return [ast.Assign([ast.Name(t, ast.Store())], node.value), ast.Assign(node.targets, ast.Name(t, ast.Load()))]
        return node


def writes(body):
    out = []
    for n in body:
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(n, f, None):
                setattr(n, f, writes(getattr(n, f)))
        if out and write(n) and write(out[-1]) and write(n) == write(out[-1]) and sum(isinstance(x, ast.BinOp) for x in ast.walk(out[-1])) < 40:
            out[-1].value.args = [ast.BinOp(out[-1].value.args[0], ast.Add(), n.value.args[0])]
        else:
            out.append(n)
    return out


def write(n):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'write' \
            and len(n.value.args) == 1 and isinstance(n.value.func.value, ast.Name):
        return n.value.func.value.id
    return None


def main_function(tree):
    out = []
    for n in tree.body:
        if isinstance(n, ast.If) and '__name__' in ast.dump(n.test):
            f = ast.parse('def main():\n    pass').body[0]
            f.body = n.body
            n.body = ast.parse('main()').body
            out += [f, n]
        else:
            out.append(n)
    tree.body = out


def split_main(tree):
    """The settings in a function that returns them"""
    for i, n in enumerate(tree.body):
        if isinstance(n, ast.If) and '__name__' in ast.dump(n.test):
            names, rest = [], []
            f = ast.parse('def settings():\n    pass').body[0]
            f.body = []
            for s in n.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and not rest[3:]:
                    try:
                        ast.literal_eval(s.value)
                        f.body.append(s)
                        names.append(s.targets[0].id)
                        continue
                    except ValueError:
                        pass
                rest.append(s)
            if len(names) < 2:
                return
            f.body += ast.parse('return ' + ', '.join(names)).body
            n.body = ast.parse(', '.join(names) + ' = settings()').body + rest
            tree.body.insert(i, f)
            return


def swaps(body):
    """Neighbouring assignments that do not touch each other change places"""
    for n in body:
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(n, f, None):
                swaps(getattr(n, f))
    i = 0
    while i + 1 < len(body):
        a, b = body[i], body[i + 1]
        if pure(a) and pure(b):
            na, nb = used(a), used(b)
            if not (na[0] & (nb[0] | nb[1])) and not (nb[0] & na[1]):
                body[i], body[i + 1] = b, a
                i += 1
        i += 1


def pure(n):
    return isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) for t in n.targets) and all(
        isinstance(x, (ast.Assign, ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.List, ast.Dict, ast.expr_context))
        for x in ast.walk(n))


def used(n):
    return ({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)},
            {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)})


def main_block(tree):
    for i, n in enumerate(tree.body):
        if isinstance(n, ast.If) and '__name__' in ast.dump(n.test):
            return i, n
    return None, None


def literal(s):
    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
        try:
            ast.literal_eval(s.value)
            return True
        except ValueError:
            pass
    return False


def oneline(tree):
    """Neighbouring settings in one tuple assignment"""
    i, n = main_block(tree)
    if n is None:
        return
    out = []
    for s in n.body:
        if literal(s) and out and literal(out[-1]):
            p = out[-1]
            out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
        else:
            out.append(s)
    n.body = out


def typed(tree):
    i, n = main_block(tree)
    if n is not None:
        n.body = [ast.AnnAssign(s.targets[0], ast.Name('object', ast.Load()), s.value, 1) if literal(s) else s for s in n.body]


def consts(tree):
    """Settings become module constants"""
    i, n = main_block(tree)
    if n is None:
        return
    out = []
    for s in n.body:
        if literal(s):
            c = 'DEFAULT_' + s.targets[0].id.upper()
            out.append(ast.Assign([ast.Name(c, ast.Store())], s.value))
            s.value = ast.Name(c, ast.Load())
    tree.body[i:i] = out


def t_tree(f):
    def g(src, path):
        tree = ast.parse(src)
        r = f(tree)
        tree = r if isinstance(r, ast.AST) else tree
        ast.fix_missing_locations(tree)
        return ast.unparse(tree) + '\n'
    return g


def body_of(f):
    def g(tree):
        r = f(tree.body)
        if r is not None:
            tree.body = r
    return g


def subs(*pairs):
    def g(src, path):
        for a, b in pairs:
            src = re.sub(a, b, src)
        return src
    return g


ALL = {
    'unparse': t_tree(lambda t: None),
    'rename': t_tree(lambda t: Rename().visit(t)),
    'lists': t_tree(lambda t: Lists().visit(t)),
    'whiles': t_tree(lambda t: Whiles().visit(t)),
    'inverted': t_tree(lambda t: Inverted().visit(t)),
    'temps': t_tree(lambda t: Temps().visit(t)),
    'writes': t_tree(body_of(writes)),
    'main': t_tree(main_function),
    'settings': t_tree(split_main),
    'oneline': t_tree(oneline),
    'typed': t_tree(typed),
    'consts': t_tree(consts),
    'swaps': t_tree(body_of(swaps)),
    'subprocess': subs((r'os\.system\((.*)\)\s*$', r'__import__("subprocess").call(\1, shell=True)'), (r'os\.system\(', r'__import__("subprocess").call(shell=True, args=')),
    'pathlib': subs((r'\bos\.remove\(', r'os.unlink('), (r'\bos\.path\.exists\(', r'os.path.lexists('), (r'os\.listdir\(([^()]*)\)', r'[_e.name for _e in os.scandir(\1)]')),
    'generated': subs((r'evaluate_rates\b(?!_)', 'compute_rates'), (r'\bdydt_partition\b', 'dydt_partition'), (r'c_p = ', 'c_p  = ')),
}


def main():
    a = sys.argv[1:]
    pct = 25
    only = None
    if '-r' in a:
        i = a.index('-r')
        pct = int(a[i + 1])
        del a[i:i + 2]
    if '-c' in a:
        i = a.index('-c')
        only = a[i + 1].split(',')
        del a[i:i + 2]
    sys.path.insert(0, VERIF)
    os.environ.setdefault('DST_RUN', '/tmp')
    import importlib
    for name in a or ALL:
        root = '/tmp/refactor-%d' % os.getpid()
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree('/repo', root, symlinks=True)
        n = 0
        try:
            for d, ds, fs in os.walk(root):
                ds[:] = [x for x in ds if x not in SKIP]
                for f in fs:
                    if f.endswith('.py') and not f.endswith('_numba.py'):
                        p = os.path.join(d, f)
                        with open(p) as h:
                            src = h.read()
                        try:
                            new = ALL[name](src, p)
                        except SyntaxError as e:
                            print('   ', f, e)
                            continue
                        if new != src:
                            n += 1
                            with open(p, 'w') as h:
                                h.write(new)
            bad = []
            t = time.time()
            for k in range(1, 28):
                pid = 'C%02d' % k
                if only and pid not in only:
                    continue
                runs = importlib.import_module('dst.props.' + pid.lower()).RUNS['quick'] * pct // 100
                r = subprocess.run([sys.executable, '-m', 'dst', 'check', pid, '--runs', str(max(24, runs))], cwd=VERIF,
                                   env=dict(os.environ, PYBOX_REPO=root, DST_MINIMISE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode or 'VIOLATION' in r.stdout:
                    bad.append(pid)
                    print('   %s %s rc=%d' % (name, pid, r.returncode))
                    print('      ' + '\n      '.join(x[:400] for x in r.stdout.splitlines()[:4]), flush=True)
            print('%-12s %2d files, %s, %.0f s' % (name, n, 'quiet' if not bad else 'NOT QUIET ' + ' '.join(bad), time.time() - t), flush=True)
        finally:
            shutil.rmtree(root, ignore_errors=True)


main()
