"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(f'{root}/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks'].replace('|', '\\|')))
t = '| change | what it breaks | caught by |\n|---|---|---|\n' + ''.join(f'| {n} | {w} | {p} |\n' for p, n, w in sorted(rows))
d = open(f'{root}/DESIGN.md').read()
d = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: f'<!-- seeds -->\n{t}<!-- /seeds -->', d, flags=re.S)
open(f'{root}/DESIGN.md', 'w').write(d)
