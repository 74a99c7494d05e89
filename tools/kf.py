"""Appends a 'fixed' or 'known' entry: kf.py fixed C04 <commit> <what> | kf.py known C04 <signature> <what>"""
import json, sys
st, pid, x, what = sys.argv[1:5]
e = {'property': pid, 'status': st, 'what': what}
if st == 'fixed':
    e.update(commit=x, note='fixed: property=%s %s %s' % (pid, x, what))
else:
    e['signature'] = x
open('/verif/known_findings.jsonl', 'a').write(json.dumps(e) + '\n')
