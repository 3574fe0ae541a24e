#!/usr/bin/env python3
"""DESIGN.md = design_head.md + the table of planted changes (seeded/*/meta.json, catches.json)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + '/tools/catches.json'))
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 5. Planted changes and the checks that catch them', '',
       'Each is in `seeded/<id>/` (patch, demonstration, description); `tools/catches.py` runs every check on every change and wrote this',
       'table. All are caught by the check of their own property (first column), most by others as well.', '',
       '| change | what it breaks | needs | checks that report it |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    out.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), ', '.join(c.get(d, ['not run yet']))))
out += ['', '## 6. Tools', '',
        '* `tools/all.py`: every Rust and web check in one process; `tools/refactor/run.py [-w|-c SCRIPT] NAMES`: the refactoring suite;',
        '* `tools/mkseeds.py`, `seeds.py`: planted changes are described as text substitutions, built, tested and demonstrated in a scratch copy;',
        '* `tools/catches.py`: this table; `tools/mkmanifest.py`, `mkprops.py`, `mkdesign.py`: the generated files.', '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
