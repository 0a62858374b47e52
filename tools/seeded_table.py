"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import json, pathlib
rows = []
for d in sorted(pathlib.Path(__file__).resolve().parent.parent.glob('seeded/*/meta.json')):
    m = json.loads(d.read_text())
    rows.append((m['property'], d.parent.name, m['needs']))
for p, n, w in sorted(rows):
    print(f'| {p} | {n} | {w} |')
