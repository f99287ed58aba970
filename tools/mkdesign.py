"""Write DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + '/tools/notes.json'))
out = [open(V + '/tools/design_head.md').read(), '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    tech, note = notes['notes'][p['id']]
    d = notes.get('design', {}).get(p['id'], '')
    out += ['### %s  %s' % (p['id'], p['title']), '', p['statement'], '',
            '* Decided by: %s.' % tech, '* Bounds and limits: %s' % note,
            '* Beyond tests: %s' % p['why_tests_cant']]
    if d: out.append('* Model: ' + d)
    out.append('')
out.append(open(V + '/tools/design_tail.md').read())
out += ['', '| change | caught by | needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'].replace('|', '/')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
