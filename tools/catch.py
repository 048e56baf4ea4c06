"""Which planted bugs do the checks of their properties report? catch.py [ID...]

Every patch is applied to a scratch copy of /repo."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    a = sys.argv[1:]
    ids = a or sorted(os.listdir(VERIF + '/seeded'))
    for b in ids:
        d = os.path.join(VERIF, 'seeded', b)
        with open(d + '/meta.json') as f:
            prop = json.load(f)['property']
        root = '/tmp/catch-%d' % os.getpid()
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree('/repo', root, symlinks=True)
        try:
            subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=root)
            t = time.time()
            p = subprocess.run([sys.executable, '-m', 'dst', 'check', prop], cwd=VERIF, env=dict(os.environ, PYBOX_REPO=root, DST_MINIMISE='5'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = p.returncode == 1 and 'VIOLATION property=' + prop in p.stdout
            why = [x for x in p.stdout.splitlines() if x.startswith('run ')]
            note = ''
            if hit:
                # the replay file shows the violation on the changed tree, exactly, and nothing on the unchanged one
                f = re.search(r'replay=(\S+)', p.stdout).group(1)
                for tree, code, text in ((root, 1, 'the same as recorded'), ('/repo', 0, '')):
                    q = subprocess.run([sys.executable, '-m', 'dst', 'replay', f], cwd=VERIF, env=dict(os.environ, PYBOX_REPO=tree),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if q.returncode != code or text not in q.stdout:
                        note += ' REPLAY ON %s: %d %s' % ('THE CHANGED TREE' if code else 'THE UNCHANGED TREE', q.returncode, q.stdout[-300:])
            print('%-28s %s %s %3.0f s  %s' % (b, prop, 'caught' if hit else 'MISSED (%d)' % p.returncode, time.time() - t, (why[0][:150] if why else '') + note),
                  flush=True)
        finally:
            shutil.rmtree(root, ignore_errors=True)


main()
