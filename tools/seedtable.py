#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(__file__), '..'))
FIRST_MISSED = {
    'C15-stale-range': 'component instances are reused between calls',
    'C27-seconds-lost': 'clock.rs moves the clock forward between start and resume',
    'C28-many-dimensions': 'up to hundreds of dimensions, mostly few',
    'C04-no-parents': 'families of zero parents',
    'C24-many-runs': 'tables of up to 67 thousand runs',
}
FIRST_MISSED.update(json.load(open('tools/first_missed.json')) if os.path.exists('tools/first_missed.json') else {})
rows = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    rows.setdefault(m['property'], []).append((f.split('/')[1], m))
out = ['| check | planted bugs it catches (what each needs) |', '|---|---|']
def short(t):
    t = ' '.join(str(t).split())
    return t.replace('|', '\\|')
for p in sorted(rows):
    out.append('| %s | %s |' % (p, '; '.join('`%s`%s: %s' % (i, ' (*)' if i in FIRST_MISSED else '', short(m['needs'])) for i, m in rows[p])))
out += ['', '(*) missed at first; what was added: ' + '; '.join('`%s`: %s' % kv for kv in FIRST_MISSED.items()) + '.']
s = open('DESIGN.md').read()
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@', '<!-- seeds -->\n<!-- /seeds -->')
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->', s, flags=re.S)
open('DESIGN.md', 'w').write(s)
