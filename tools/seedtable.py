"""seedtable.py: rewrite section 5 of DESIGN.md from seeded/*/meta.json and the log of a validation run (argument: log file)."""
import json, re, sys, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
logs = ''.join(pathlib.Path(a).read_text() for a in sys.argv[1:])
entries, cur = {}, None
ids = sorted(p.name for p in (root/'seeded').iterdir() if (p/'meta.json').exists())
for line in logs.splitlines():
    head = line.split(' | ')[0]
    if head in ids: cur = head
    m = re.search(r'check=(\d)', line)
    if m and cur: entries[cur] = (m.group(1), re.findall(r'VIOLATED\s+(\S+)', line))
rows = []
for i in ids:
    d = json.loads((root/'seeded'/i/'meta.json').read_text())
    rc, obs = entries.get(i, ('?', []))
    by = ', '.join(obs[:3]) + (', …' if len(obs) > 3 else '')
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {'caught: '+by if rc=='1' else 'MISSED' if rc=='0' else 'see vcheck'} |")
text = (root/'DESIGN.md').read_text()
start, end = '<!-- seeds -->', '<!-- /seeds -->'
body = start + '\n\n| change | property | needs | check and obligations |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n\n' + end
if start in text:
    text = text[:text.index(start)] + body + text[text.index(end)+len(end):]
else:
    text = text.rstrip() + '\n\n' + body + '\n'
(root/'DESIGN.md').write_text(text)
