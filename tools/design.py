#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md: the per-property table of harnesses from the harnesses' own comments, and
the table of planted bugs from seeded/*/meta.json and tools/caught.txt."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
props = [json.loads(l) for l in open('properties.jsonl')]
docs = {}
for f in sorted(os.listdir('harness')):
    if not f.endswith('.go'): continue
    doc = []
    for line in open('harness/' + f):
        if line.startswith('// '): doc.append(line[3:].strip())
        elif line.startswith('//'): doc.append('')
        else:
            m = re.match(r'func (C\d\d)_(\w+)\(\)', line)
            if m: docs.setdefault(m[1], []).append((m[1] + '_' + m[2], ' '.join(doc)))
            doc = []
out = []
notes = json.load(open('tools/design_notes.json'))
for p in props:
    i = p['id']
    out.append(f"### {i} — {p['title']}\n")
    out.append(p['statement'] + '\n')
    n = notes.get(i, {})
    for name, d in sorted(docs.get(i, [])):
        d = d.split(': ', 1)[1] if ': ' in d and d.startswith(name) else d
        out.append(f"- `{name}`: {d}")
    out.append('')
    for k in ('Oracle', 'Outside', 'Why not tests', 'Corrected'):
        if k in n: out.append(f"*{k}.* {n[k]}\n")
caught = {}
if os.path.exists('tools/caught.txt'):
    for l in open('tools/caught.txt'):
        w = l.split(None, 4)
        if len(w) >= 4: caught[w[0]] = (w[2], w[3])
tab = ["| planted bug | property | needs | the property's quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    r = caught.get(d)
    v = 'not run again' if not r else ('caught (%s)' % r[1] if r[0] == 'rc=1' else 'MISSED')
    tab.append(f"| {d} | {m['property']} | {m['needs']} | {v} |")
s = open('tools/design_template.md').read()
s = s.replace('@PROPERTIES@', '\n'.join(out).rstrip()).replace('@SEEDED@', '\n'.join(tab))
open('DESIGN.md', 'w').write(s)
