#!/usr/bin/env python3
"""writes the table of planted changes into DESIGN.md (from seeded/*/meta.json)"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted changes: %s -->'


def main():
    rows = []
    for d in os.listdir(HERE + '/seeded'):
        with open('%s/seeded/%s/meta.json' % (HERE, d)) as f:
            m = json.load(f)
        with open('%s/seeded/%s/patch.diff' % (HERE, d)) as f:
            files = [x.split('/')[-1] for x in re.findall(
                r'^\+\+\+ b/(\S+)', f.read(), re.M)]
        rows.append((m['property'], d, ', '.join(files), m['what_it_breaks'],
                     m['needs']))
    rows.sort()
    t = ['| caught by | change | file | breaks | needs |', '|---|---|---|---|---|']
    for r in rows:
        t.append('| ' + ' | '.join(
            x.replace('|', '\\|').replace('\n', ' ') for x in r) + ' |')
    with open(HERE + '/DESIGN.md') as f:
        s = f.read()
    a, b = MARK % 'start', MARK % 'end'
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + '\n'.join(t) + '\n' + s[j:]
    with open(HERE + '/DESIGN.md', 'w') as f:
        f.write(s)


main()
