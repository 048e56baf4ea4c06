"""Try out small changes of the code under test: which checks report them?

mutants.py SPEC.py [ID...]     SPEC.py defines M = [(id, [checks], file, function or None, old, new), ...] or with a list of
                               (file, function, old, new) in place of the last four
Every mutant is made in a scratch copy, and the checks run on that copy (PYBOX_REPO)."""
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def scope(text, fn):
    if fn is None:
        return 0, len(text)
    m = re.search(r'^( *)def %s\(' % re.escape(fn), text, re.M)
    assert m, fn
    n = re.compile(r'^%s(def|class) ' % m.group(1), re.M).search(text, m.end())
    return m.start(), n.start() if n else len(text)


def edit(root, file, fn, old, new, nth=None):
    p = os.path.join(root, file)
    with open(p) as f:
        text = f.read()
    a, b = scope(text, fn)
    part = text[a:b]
    n = part.count(old)
    if nth is None:
        assert n == 1, '%s: %d occurrences of %r' % (file, n, old)
        part = part.replace(old, new)
    elif nth == 'all':
        assert n
        part = part.replace(old, new)
    else:
        assert n > nth, '%s: %d occurrences of %r' % (file, n, old)
        i = -1
        for _ in range(nth + 1):
            i = part.index(old, i + 1)
        part = part[:i] + new + part[i + len(old):]
    with open(p, 'w') as f:
        f.write(text[:a] + part + text[b:])


def make(spec, repo='/repo'):
    root = '/tmp/mut-%d' % os.getpid()
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(repo, root, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.so'), symlinks=True)
    edits = spec[2] if isinstance(spec[2], list) else [spec[2:]]
    for e in edits:
        edit(root, *e)
    return root


def main():
    ns = {}
    with open(sys.argv[1]) as f:
        exec(f.read(), ns)
    want = sys.argv[2:]
    for spec in ns['M']:
        if want and not any(spec[0].startswith(w) for w in want):
            continue
        try:
            root = make(spec)
        except AssertionError as e:
            print('%-28s BAD SPEC %s' % (spec[0], e), flush=True)
            continue
        try:
            res = []
            for c in spec[1]:
                t = time.time()
                r = subprocess.run([PY, '-m', 'dst', 'check', c], cwd=VERIF, env=dict(os.environ, PYBOX_REPO=root, DST_NO_EVIDENCE='1'),
                                   capture_output=True, text=True)
                v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
                res.append('%s:%s(%ds)' % (c, 'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'rc%d' % r.returncode,
                                           time.time() - t))
                if r.returncode not in (0, 1):
                    print(r.stdout[-1500:], r.stderr[-1500:])
            print('%-28s %s' % (spec[0], ' '.join(res)), flush=True)
        finally:
            shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
