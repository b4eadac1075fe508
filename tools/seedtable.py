"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
rows = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for s in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{s}/meta.json'))
    w = ' '.join(str(m['what_it_breaks']).split()).replace('|', '/')
    rows.append(f"| {s} | {m['property']} | {w[:220]} |")
text = open('DESIGN.md').read()
block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if 'SEEDTABLE' in text:
    text = text.replace('SEEDTABLE', block)
else:
    text = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: block, text, flags=re.S)
open('DESIGN.md', 'w').write(text)
