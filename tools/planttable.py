"""The table of planted changes in DESIGN.md, from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ['| change | property | needs |', '|----|----|----|']
for meta in sorted(root.glob('seeded/*/meta.json')):
    m = json.loads(meta.read_text())
    needs = ' '.join(str(m['needs']).split())
    rows.append(f"| {meta.parent.name} | {m['property']} | {needs[:170]}{'...' if len(needs) > 170 else ''} |")
text = (root / 'DESIGN.md').read_text()
table = '\n'.join(rows)
if 'PLANTTABLE' in text:
    text = text.replace('PLANTTABLE', table)
else:
    text = re.sub(r'\| change \| property \| needs \|\n(\|.*\n)+', table + '\n', text)
(root / 'DESIGN.md').write_text(text)
