"""Rewrites the two generated tables of DESIGN.md (run by hand)."""
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
FIRST_MISSED = set((V / 'tools' / 'first_missed.txt').read_text().split())
MISSED = set((V / 'tools' / 'missed.txt').read_text().split())
t1 = ['| property | executions | distinct observations | s |',
      '|---|---|---|---|']
for line in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    e = V / 'tools' / 'quick' / (p['id'] + '.json')
    if not e.exists():
        continue
    d = json.loads(e.read_text())
    t1.append('| %s %s | %s | %s | %d |' %
              (p['id'], p['title'], d['n'], d['states'], d['wall']))
t2 = ['| planted bug | what it breaks | caught by |', '|---|---|---|']
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    note = ''
    if d.name in FIRST_MISSED:
        note = ' (after strengthening)'
    who = '**missed**' if d.name in MISSED else m['property'] + note
    t2.append('| %s | %s | %s |' %
              (d.name, m['what_it_breaks'].replace('|', '\\|'), who))
f = V / 'DESIGN.md'
s = f.read_text()
for name, t in (('TABLE', t1), ('BUGS', t2)):
    a, b = '<!--%s-->\n' % name, '<!--/%s-->' % name
    s = re.sub(re.escape(a) + '.*?' + re.escape(b),
               lambda m: a + '\n'.join(t) + '\n' + b, s, flags=re.S)
f.write_text(s)
