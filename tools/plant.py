"""Make planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines B = {id: dict(property=, edits=[(file, function, old, new[, nth])], needs=, breaks=, demo=<Python text>)}.
Writes seeded/<id>/ after showing, on scratch copies, that the demonstration passes without and fails with the change."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import VERIF, edit  # noqa: E402

TOOLS = os.path.dirname(os.path.abspath(__file__))
BASE = '/tmp/base'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    with open(sys.argv[1]) as f:
        exec(f.read(), ns)
    want = sys.argv[2:]
    for pid, b in ns['B'].items():
        if want and pid not in want:
            continue
        d = os.path.join(VERIF, 'seeded', pid)
        tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
        try:
            w = os.path.join(tmp, 'PyBox')
            shutil.copytree('/repo', w, symlinks=True)
            assert not sh(['git', 'status', '--short'], w).stdout
            for e in b['edits']:
                edit(w, *e)
            patch = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE).stdout
            assert patch
            # the lines taken away must be lines of the original
            cur = None
            for line in patch.decode().splitlines():
                if line.startswith('--- a/'):
                    with open(os.path.join(BASE, line[6:])) as f:
                        cur = set(f.read().splitlines())
                elif line.startswith('-') and not line.startswith('---') and line[1:] not in cur:
                    print(pid, 'NOT AN ORIGINAL LINE:', line)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'patch.diff'), 'wb') as f:
                f.write(patch)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(b['demo'].strip() + '\n')
            shutil.copy(os.path.join(TOOLS, 'demo', 'pbdemo.py'), d)
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            with open(os.path.join(d, 'meta.json'), 'w') as f:
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
                f.write('\n')
            e = sh([sys.executable, '-m', 'compileall', '-q', w + '/Parse_eqn_file.py'] + [os.path.join(w, x[0]) for x in b['edits'] if x[0].endswith('.py')], w)
            good = sh(['bash', os.path.join(d, 'demo.sh')], '/repo', timeout=300)
            bad = sh(['bash', os.path.join(d, 'demo.sh')], w, timeout=300)
            last = (bad.stdout.strip().splitlines() or [''])[-1]
            ok = good.returncode == 0 and bad.returncode != 0 and last.startswith('FAIL')
            print('%-4s %s: clean %d, patched %d: %s' % ('ok' if ok else 'BAD', pid, good.returncode, bad.returncode, last[:200]), flush=True)
            if good.returncode:
                print(good.stdout[-1500:])
            if e.returncode:
                print('DOES NOT COMPILE', e.stdout)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
