"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
H = "\n## Planted changes and what catches them\n"
rows = []
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    rows.append((m['property'], d, " ".join(m['needs'].split()).replace('|', '/')))
t = H + ("\nEach passes the 84 tests; each is caught by the quick tier of the check of the property it breaks (others may\n"
         "also notice).\n\n| property and check | seeded/ | what it needs in order to manifest |\n|---|---|---|\n")
t += "".join("| %s | %s | %s |\n" % r for r in sorted(rows))
s = open('/verif/DESIGN.md').read().split(H)[0]
open('/verif/DESIGN.md', 'w').write(s + t)
