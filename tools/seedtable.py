"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Table of planted bugs\n'


def main():
    rows = ['| bug | needs, in order to show | caught by |', '|---|---|---|']
    d = os.path.join(ROOT, 'seeded')
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, 'meta.json')))
        rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'),
                                         m.get('caught_by', m['property'])))
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read().split(MARK)[0].rstrip('\n')
    open(p, 'w').write(s + '\n\n' + MARK + '\n' + '\n'.join(rows) + '\n')


main()
