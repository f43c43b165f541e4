"""Prints the table of planted changes for DESIGN.md."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent / 'seeded'
late = {'s01_idcache', 's02_blockoverlap', 's05_leak', 's08_last', 's11_listloop', 's12_tz',
        's25_opcache', 's25_jsoninplace'}
rows = {}
for d in sorted(root.iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.setdefault(m['property'], []).append(d.name + ('*' if d.name in late else ''))
print('| check | planted changes it reports |\n|---|---|')
for p, ids in sorted(rows.items()):
    print(f'| {p} | {", ".join(ids)} |')
