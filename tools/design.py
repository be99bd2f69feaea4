"""Refreshes the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = []
    for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        rows.append('| %s | %s | %s |' % (
            os.path.basename(os.path.dirname(f)),
            m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
    p = os.path.join(V, 'DESIGN.md')
    text = open(p).read()
    head = '| bug | needs | caught by |\n|---|---|---|\n'
    a = text.index(head) + len(head)
    b = text.index('\n\n', a)
    open(p, 'w').write(text[:a] + '\n'.join(rows) + text[b:])


if __name__ == '__main__':
    main()
