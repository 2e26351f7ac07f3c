#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (between the markers) from MANIFEST.json, the entries of the harness,
harness/costs.json, seeded/ and KNOWN_FINDINGS.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p for p in map(json.loads, open(f'{V}/properties.jsonl'))}
man = json.load(open(f'{V}/MANIFEST.json'))
cost = json.load(open(f'{V}/harness/costs.json'))
entries = {}
for f in sorted(glob.glob(f'{V}/harness/src/checks/*.rs')):
    for e in re.findall(r'^ *([a-z]\d\d_\w+) => ', open(f).read(), re.M):
        entries.setdefault(e[:3].upper(), []).append((e, os.path.basename(f)))


def esc(s):
    return s.replace('|', '\\|').replace('\n', ' ')


def table_props():
    o = ['| property | entries (quick / only thorough) | seconds of exploring, quick | bounds |', '|---|---|---|---|']
    for c in man['checks']:
        i = c['property']
        q = [e for e, _ in entries[i] if not e[4:].startswith('t_')]
        t = len(entries[i]) - len(q)
        full = [e for e in q if cost.get(e, 60) < 60]
        part = [e for e in q if e not in full]
        s = f'{sum(cost[e] for e in full):.0f} s for {len(full)} complete' + (f', rest of 50 s for {", ".join("`%s`" % e for e in part)}' if part else '')
        b = c['level_note'].replace('Bounds: ', '').replace(' Outside: longer fully symbolic texts, other characters.', '')
        o.append(f"| {i} {esc(props[i]['title'])} | {len(q)} / {t} (`checks/{entries[i][0][1]}`) | {s} | {esc(b)} |")
    return '\n'.join(o)


def table_fixed():
    o = []
    for l in open(f'{V}/KNOWN_FINDINGS.txt'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            o.append(f'- {m[1]} `{m[2]}` {m[3]}')
    return '\n'.join(o)


def table_seeded():
    o = ['| planted change | caught by | needs |', '|---|---|---|']
    for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
        m = json.load(open(d))
        o.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {esc(m['needs'])} |")
    return '\n'.join(o)


p = f'{V}/DESIGN.md'
s = open(p).read()
for k, f in (('properties', table_props), ('fixed', table_fixed), ('seeded', table_seeded)):
    a, b = f'<!-- {k} -->', f'<!-- end of {k} -->'
    assert a in s, k
    s = s[:s.index(a) + len(a)] + '\n' + f() + '\n' + s[s.index(b):]
open(p, 'w').write(s)
