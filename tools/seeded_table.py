"""Rewrite the table of seeded changes in DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(f'{here}/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
path = f'{here}/DESIGN.md'
s = open(path).read()
s = re.sub(r'\| id \| property \| what it breaks.*?(?=\n\n)', lambda m: '\n'.join(rows), s, flags=re.S)
open(path, 'w').write(s)
