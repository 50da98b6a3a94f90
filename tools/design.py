"""writes DESIGN.md from design_head.md, props.py (per property) and design_tail.md"""
import importlib.util, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location('props', os.path.join(here, 'props.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
sys.path.insert(0, here)
from how import HOW  # noqa
out = [open(here + '/design_head.md').read(), '## The properties\n']
for p in m.PROPS:
    out.append(f"### {p['id']} {p['title']}\n")
    if p.get('na'):
        out.append(f"Not applicable: {p['na']}\n")
        continue
    out.append(HOW[p['id']] + '\n')
    out.append(f"Bounds: {p['note'].replace(m.B, '')} Why tests cannot settle it: {p['why']}\n")
root = os.path.dirname(here)
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(root + '/seeded')):
    d = json.load(open(f'{root}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {d['property']} | {d['needs']} | {m.CAUGHT.get(b, d['property'])} |")
out.append(open(here + '/design_bugs.md').read().replace('TABLE', '\n'.join(rows)))
out.append(open(here + '/design_tail.md').read())
open(os.path.join(os.path.dirname(here), 'DESIGN.md'), 'w').write('\n'.join(out))
