"""Fills the generated tables of DESIGN.md (between the marker comments) from known_findings.jsonl and seeded/."""
import json, os, re
V = '/verif/'
fx = [json.loads(l) for l in open(V + 'known_findings.jsonl') if l.strip()]
fix = '| Check | Commit | What failed |\n|---|---|---|\n' + '\n'.join(
    '| %s | %s | %s |' % (e['property'], e['commit'], e['what']) for e in sorted(fx, key=lambda e: e['property']) if e['status'] == 'fixed')
seed = '| Planted bug | Needs | Caught by |\n|---|---|---|\n'
for d in sorted(os.listdir(V + 'seeded')):
    m = json.load(open(V + 'seeded/' + d + '/meta.json'))
    seed += '| %s | %s | %s |\n' % (d, m['needs'], m.get('caught_by', m['property']))
s = open(V + 'DESIGN.md').read()
for name, text in (('FIXLIST', fix), ('SEEDTABLE', seed.rstrip())):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, text, name), s, flags=re.S)
open(V + 'DESIGN.md', 'w').write(s)
