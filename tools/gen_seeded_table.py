"""Rewrites the table of seeded bugs in DESIGN.md: gen_seeded_table.py LOG (output of check_seeded.sh)."""
import json
import os
import re
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {}
for text in open(sys.argv[1]):
    m = re.match(r'(\S+) (C\d\d) exit (\d+) \d+s\s*(.*)', text)
    if m:
        log.setdefault(m.group(1), []).append((m.group(2), m.group(3) == '1', m.group(4)))
rows = ['<!-- seeded -->', '| seeded bug | what it breaks | check | reported |', '|---|---|---|---|']
for name in sorted(os.listdir(os.path.join(root, 'seeded'))):
    meta = json.load(open(os.path.join(root, 'seeded', name, 'meta.json')))
    for check, caught, what in log.get(name, [(meta['property'], None, '')]):
        rows.append('| {} | {} | {} | {} |'.format(name, meta['what_it_breaks'].replace('|', '/'), check, '?' if caught is None else (what.replace('|', '/')[:110] if caught else '**missed**')))
rows.append('<!-- end seeded -->')
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
if '@@SEEDED@@' in text:
    text = text.replace('@@SEEDED@@', '\n'.join(rows))
else:
    text = re.sub('<!-- seeded -->.*<!-- end seeded -->', lambda _: '\n'.join(rows), text, flags=re.S)
open(path, 'w').write(text)
