"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START = '| id | property | needs | caught by |\n|---|---|---|---|\n'

path = os.path.join(VERIF, 'DESIGN.md')
text = open(path).read()
head, tail = text.split(START)
rest = tail.split('\n\n', 1)[1:] if '\n\n' in tail else []
rows = []
for name in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
    meta = json.load(open(name))
    rows.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(name)), meta['property'], meta['needs'],
                                              meta.get('caught_by', meta['property'])))
open(path, 'w').write(head + START + ''.join(rows) + ('\n' + rest[0] if rest else ''))
