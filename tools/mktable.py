"""Writes the table of planted bugs in DESIGN.md from the logs of tools/catch.py: mktable.py LOG... (later ones win)"""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted bugs -->'


def main():
    rows = {}
    for f in sys.argv[1:]:
        with open(f, errors='replace') as h:
            for x in h:
                m = re.match(r'(c\d\d-[\w-]+)\s+(C\d\d) (caught|MISSED.*?)\s+(\d+) s\s*(?:run (\d+): ([\w-]+))?', x)
                if m:
                    rows[m.group(1)] = m.groups()[1:]
    out = ['| planted bug | what it needs | reported by | first run that shows it, as |', '|---|---|---|---|']
    for b in sorted(os.listdir(VERIF + '/seeded')):
        with open('%s/seeded/%s/meta.json' % (VERIF, b)) as f:
            m = json.load(f)
        p, what, sec, run, kind = rows.get(b, (m['property'], 'not run', '', '', ''))
        out.append('| %s | %s | %s | %s |' % (b, m['needs'].replace('|', '/'), p if what == 'caught' else what, '%s, %s' % (run, kind) if run else ''))
    with open(VERIF + '/DESIGN.md') as f:
        s = f.read()
    a, _, c = s.split(MARK)
    with open(VERIF + '/DESIGN.md', 'w') as f:
        f.write(a + MARK + '\n' + '\n'.join(out) + '\n' + MARK + c)


if __name__ == '__main__':
    main()
