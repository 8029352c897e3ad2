#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo and the property of each."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
def p(ids, hashes):
    for h in hashes.split(): PROP[h] = ids
p('C02', '6c2d38c a9d377f cceda81 294a4fd d9e7bfd b08e3f1 d22f1a7 ec0c3f2 d72b8d4 18a1b1f 63f88c2 6908a72 7e96a3d 9062f08 52d7bd8 751b7c5 f139c80 8fa3408 6e5c1e7 861827d')
p('C07', 'ec7e9c8 d3133d6 e9ccc2d')
p('C10', '66a4d88 96e5c7f 6ad039f d286e9e')
p('C12', '91e3cc2 319cfbf 2e03adb d091dfb d47b98d 6c478bd f514e73 6de489f 31f6671 9ff7d64 96f164a e992647 0820794 0f9ae9f abe83aa be894b4 c78dde2 3b548c9 0950dd4 f6271e3')
p('C01', '288e903 09ea165 18a893d 25fe8ca 5de5692 1547ce6 66980de 74c1cde 0e02a3f d8258a2 fcd7f0d 493cd0b 239e0f2')
p('C28', 'cc277e2 d85734a f76c4e5 a96ac38')
p('C09', '19891f4 748c7cc')
p('C26', 'cafc358')
p('C11', '5e7459d a112ed5 eaa38a6 e8973a8 77d7df6 bc1f83c')
p('C05', 'a929fe0 2933d46 0ba918e 734b609')
p('C08', '808c0cc')
p('C17', '9f2bb03 d02ab3c 27b3d79')
p('C04', 'b21207d')
p('C19', '1e68da6')
p('C18', '7dc2aef 6f104f0 3b1befc bcb0d12 aad1c30 f777ddb')
p('C20', 'c7bcf34 e6b726a 3301116 b729574')
p('C21', '889e51f')
exec(open(os.path.join(here, 'tools', 'fixed_props.py')).read()) if os.path.exists(os.path.join(here, 'tools', 'fixed_props.py')) else None
f = os.path.join(here, 'known_findings.json')
d = json.load(open(f)) if os.path.exists(f) else {'known': [], 'fixed': []}
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'a7d5613..HEAD'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    if h not in PROP: print('no property for', l); continue
    out.append('fixed: property=%s %s %s' % (PROP[h], h, s[5:]))
d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1, ensure_ascii=False); open(f, 'a').write('\n')
