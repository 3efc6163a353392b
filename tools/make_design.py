"""Fill the generated parts of DESIGN.md (findings, planted bugs); rerun after changing either."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = json.load(open(R + '/known_findings.json'))['findings']
by = {}
for x in f:
    if x['status'] == 'fixed':
        m = re.match(r'fixed: property=(\S+) (\w+) (.*)', x['what'], re.S)
        by.setdefault((m[2], m[3]), []).append(m[1])
fixes = '\n'.join(f"* `{c}` ({', '.join(p)}): {w}" for (c, w), p in by.items())
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(R + '/tools/caught.json'))
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {j['property']} | {j['needs']} | {caught.get(i, '?')} |")
s = open(R + '/DESIGN.md').read()
def put(s, name, text):
    b, e = f'<!-- {name} -->', f'<!-- /{name} -->'
    if f'@@{name}@@' in s:
        return s.replace(f'@@{name}@@', f'{b}\n{text}\n{e}')
    return s[:s.index(b)] + f'{b}\n{text}\n' + s[s.index(e):]
s = put(s, 'FIXES', fixes); s = put(s, 'BUGS', '\n'.join(rows))
open(R + '/DESIGN.md', 'w').write(s)
