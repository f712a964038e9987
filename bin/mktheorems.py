"""writes THEOREMS.md: every theorem of every property, from specs"""
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'pyvc'), os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src'), os.path.join(V, 'harness', 'stub')]
import thm  # noqa
out = ['# Theorems', '', 'Generated by `bin/mktheorems.py` from `specs/`. Lemma: its refutation alone is reported as undecided (the proof, not the property, may have to change).', '']
n = b = 0
funcs = set()
for i in range(1, 20):
    p = f'C{i:02d}'
    T, A = thm.load(p)
    out += [f'## {p}', '']
    seen = {}
    for t in T:
        n += 1
        b += bool(t.bounded)
        funcs |= set(t.functions)
        m = re.match(r'(object|inline|root)_([A-Za-z]+)(.*)', t.name)
        if m and t.title.startswith(m.group(2).split('_')[0]):
            seen.setdefault((m.group(1), m.group(3), t.title[t.title.index(':') + 2:], t.bounded), []).append(m.group(2))
            continue
        fs = sorted(t.functions)
        out.append(f"* **{t.name}** – {t.title}" + (' [lemma]' if t.inner else '') + (f' [bounded: {t.bounded}]' if t.bounded else '') + '  \n  ' +
                   ', '.join(f'`{f}`' for f in fs[:14]) + (f' and {len(fs) - 14} more' if len(fs) > 14 else ''))
    for (a, c, title, bounded), names in seen.items():
        out.append(f"* **{a}_CLASS{c}** – {title}" + (f' [bounded: {bounded}]' if bounded else '') + f', for {len(names)} classes  \n  ' + ', '.join(names))
    out.append('')
out[2:2] = [f'{n} theorems, {b} of them bounded in the stated respect; {len(funcs)} functions named.', '']
with open(os.path.join(V, 'THEOREMS.md'), 'w', encoding='utf-8') as f:
    f.write('\n'.join(out))
print(n, b, len(funcs))
