#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (per property: what decides it; planted changes)."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
man = json.load(open(HERE + '/MANIFEST.json'))
na = {x.get('property', x.get('property_id', x.get('id'))): x for x in man['not_applicable']}
by = {}
for f in sorted(glob.glob(HERE + '/spec/*.py')):
    src = open(f).read()
    for m in re.finditer(r"@reference\('([^']+)'(.*?)\)\s*\n(?:@|def |class )", src, re.S):
        pr = re.search(r"props='([^']+)'", m.group(2))
        for p in (pr.group(1).split() if pr else []):
            by.setdefault(p, {}).setdefault(os.path.basename(f), []).append(m.group(1))
rules = {}
for f in sorted(glob.glob(HERE + '/rules/*.py')):
    for pid, names in re.findall(r"'(P\d+)': *\[([^\]]*)\]", open(f).read()):
        rules.setdefault(pid, []).append(os.path.basename(f) + ': ' + names)
rows = ['| property | obligations (reference functions) | targets | rules |', '|---|---|---|---|']
for p in props:
    pid = p['id']
    if pid in na:
        rows.append('| %s %s | not applicable | | |' % (pid, p['title'])); continue
    d = by.get(pid, {})
    n = sum(len(v) for v in d.values())
    rows.append('| %s %s | %d in %s | %s | %s |' % (pid, p['title'], n, ', '.join('spec/' + k for k in d) or '-',
        ', '.join(sorted({'`' + '.'.join(t.split('.')[:2]) + '`' if t.split('.')[1:2] and t.split('.')[1][:1].isupper() or t.count('.') > 1 else '`' + t + '`' for v in d.values() for t in v}))[:400],
        '; '.join(rules.get(pid, [])) or '-'))
seeds = ['| id | property (caught by its check) | what breaks |', '|---|---|---|']
for s in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(s))
    seeds.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(s)), m['property'], m['what_it_breaks'].replace('|', '/')))
t = open(HERE + '/DESIGN.md').read()
for tag, body in (('TABLE', rows), ('SEEDED', seeds)):
    blk = '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, '\n'.join(body), tag)
    if '@@%s@@' % tag in t:
        t = t.replace('@@%s@@' % tag, blk)
    else:
        t = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: blk, t, flags=re.S)
open(HERE + '/DESIGN.md', 'w').write(t)
