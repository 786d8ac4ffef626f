#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the findings left in place and the record of repaired defects."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(id='KF1', property='P15', key='png-mono-shift',
         what='1 bit palette PNG files without transparency are loaded one pixel to the right (the stable test test_imagemask has the shifted picture as its reference)'),
    dict(id='KF2', property='P26', key='undefined.capy_image_pdf_properties_set_conversion_intent',
         what='capy_image_pdf_properties_set_conversion_intent is declared in the C header and called by the C++ wrapper but defined nowhere: programs using it do not link '
              '(the feature itself, a rendering intent for the conversion of one image, does not exist)'),
]
PROP = dict(l.split() for l in '''
211f8f5 P25
3950922 P05
0a13ed5 P22
d68a682 P18
e0fee6d P18
066f099 P20
4dfbfa9 P25
45dbc8b P28
a616baa P21
9a715c1 P21
919e9ed P22
1f3ebf0 P22
91d3305 P05
9ac1d5c P08
a1a9d1b P09
7189e89 P12
d176a4f P12
b9e8d9c P06
cad27a1 P16
1ca00c5 P11
6109322 P03
4b7dcbe P10
3dc01a1 P10
106fc65 P05
3cbd197 P05
d63d0dd P05
6716b75 P06
9976ee0 P27
bdb5728 P05
75881a0 P02
6abaad0 P11
3daf4e1 P27
adad5b2 P05
cef9ee5 P20
ef33d55 P05
3c158d4 P07
92c8445 P07
1d8dca4 P05
ed24a6b P07
4bbd0e5 P27
fee5abc P08
9d7ed23 P17
c59438e P26
74b6a4b P11
a10dad9 P28
74de095 P18
e4f1011 P14
88e4295 P16
04c03ba P15
ec47e26 P05
6bcbc6a P15
a654e78 P15
5cbc1eb P15
52eeb4b P15
fc8fe03 P15
f5610b2 P15
b2dab7e P18
75ca8f5 P28
2915467 P28
f9b1214 P05
11c61e2 P11
0c79417 P11
ba79cf2 P22
94347f0 P14
f8bb13b P05
e308df0 P05
befecce P11
f293ec6 P23
dd50c54 P06
7e66892 P11
2e88141 P06
70c2d60 P26
89774dc P26
953325e P26
5270496 P26
4f6f049 P26
c594dab P26
4cebaf4 P26
b24d997 P26
b0f36d2 P26
e375261 P26
42d64f9 P26
1d0c679 P26
38363c7 P26
829b5d8 P26
1545349 P11
dd5be0d P11
0f19900 P11
1d93bcf P11
d99909d P11
048c8fc P11
2652d92 P13
b6112d4 P13
c18d6d1 P13
05fdb27 P13
f9ad929 P13
3faf389 P13
621e95e P13
e9122f5 P11
10fd610 P13
7227687 P13
9d74799 P13
fe5957c P13
1046d2a P05
c8b3116 P14
160eaa6 P22
1e6b901 P22
9dc4862 P22
ec7d18b P22
eff2a74 P11
b27b43e P11
cc52bb3 P05
46e8888 P08
4cfdfc0 P26
d6b6dcf P15
'''.split('\n') if l.strip())
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s', '3c18b18..HEAD'], capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split('\t')
    if not s.startswith('fix:'):
        continue
    if h not in PROP:
        print('no property for', h, s)
        continue
    fixed.append('fixed: property=%s %s %s' % (PROP[h], h, s[5:]))
json.dump({'findings': FINDINGS, 'fixed': fixed}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
print(len(fixed), 'fixed', len(FINDINGS), 'findings')
