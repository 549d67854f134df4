#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md. Ids given as arguments are marked as missed when planted."""
import json, os, re, sys
d = open('/verif/DESIGN.md').read()
head, _, rest = d.partition('| change | property | needs |\n')
star = {m.group(1) for m in re.finditer(r'^\| (\S+) \* \|', rest, re.M)} | set(sys.argv[1:])
rows = []
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i}{' *' if i in star else ''} | {m['property']} | {m['needs']} |\n")
tail = re.sub(r'\A\|---\|---\|---\|\n(\|.*\n)*', '', rest)
open('/verif/DESIGN.md', 'w').write(head + '| change | property | needs |\n|---|---|---|\n' + ''.join(rows) + tail)
print(len(rows), len(star))
