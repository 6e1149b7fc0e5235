"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json (not used by any check)."""
import json, os, collections
MISSED = set("B11 B15 B18 B19 B26 B33 B38 C03 C07 C08 C12 C13 C17 C23 C27 C33 D07 D12 D25 D26 D29 D31 E02 J02 J03 J08 J11 J12 J15 J16 J17 J18 K02 K03 K04 K18 L05 L12 L14 L16 M01 M02 M13 M15 M19 M20 M32 N01 N07 N08 N14 N18 N23 N26".split())
by = collections.defaultdict(list)
d = '/verif/seeded'
for i in sorted(os.listdir(d)):
    m = json.load(open(f'{d}/{i}/meta.json')); by[m['property']].append((i, m['needs'].replace('|', '/').replace('\n', ' ')))
print('| check | planted bugs it catches (* was missed first) |\n|---|---|')
for p in sorted(by): print(f"| {p} | " + '; '.join(f"{i}{'*' if i in MISSED else ''}: {n}" for i, n in by[p]) + ' |')
