"""append the generated tables to DESIGN.md: spaces (from evidence) and planted bugs"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Appendix A: spaces of the quick checks\n'
text = open(f'{V}/DESIGN.md').read().split(MARK)[0].rstrip() + '\n\n' + MARK + '\n'
src = sys.argv[1] if len(sys.argv) > 1 else f'{V}/evidence'
text += 'Generated by `tools/mkdesign.py` from the evidence of a quick run. Points are single\ncomparisons (values, states, calls or faults).\n\n'
text += '| property | space | bound | cases | points |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(f'{src}/P*.json')):
    d = json.load(open(f))
    if d['tier'] != 'quick':
        print('not quick:', f)
    for n, s in d['coverage'].get('spaces', {}).items():
        b = s.get('bound', '').replace('|', '/')
        c = s.get('cases', s.get('transitions', ''))
        if 'states' in s:
            c = f"{s['states']} states, {s.get('transitions', '')} transitions"
        text += f"| {d['property']} | {n} | {b} | {c} | {s.get('checked_points', '')} |\n"
text += '\n## Appendix B: planted bugs\n\n'
text += ('Each was planted from the text of its property and the code, confirmed against the stable\n'
         'tests and its demonstration, and is kept whether caught or not. "first" tells whether the check\n'
         'caught it before or after being strengthened.\n\n')
notes = json.load(open(f'{V}/tools/seednotes.json'))
text += '| planted bug | what it breaks | caught by | first |\n|---|---|---|---|\n'
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    n = notes.get(i, {})
    w = ' '.join(str(m.get('what_it_breaks', '')).split()).replace('|', '/')
    text += f"| {i} | {w} | {n.get('by', m['property'])} | {n.get('first', 'yes')} |\n"
open(f'{V}/DESIGN.md', 'w').write(text)
