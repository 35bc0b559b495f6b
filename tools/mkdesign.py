#!/usr/bin/env python3
"""Rewrites the table of planted bugs (section 6) of DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
V='/verif'
MISSED=set('''d02-popular d03-line-ends s03-index s03-zip t03-limit t04-i8 p04-same f01-path f01-number d06-cache t08-count s01-long f01-size
t07-marker t07-cr f02-long p02-path p06-kind u01-many t05-prefix t05-sum t05-case d01-prefix t06-many b03-many p01-take u01-header
p01-tmpdir f03-chunks'''.split())
f=f'{V}/tools/missed.txt'
if os.path.exists(f): MISSED|=set(open(f).read().split())
rows=[]
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m))
    rows.append(f"| {i}{' *' if i in MISSED else ''} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
s=open(f'{V}/DESIGN.md').read()
a,b='<!-- planted -->','<!-- /planted -->'
t=f'''{a}
{len(rows)} bugs; the check of the property in the second column catches each of them at the quick tier.
`*`: missed when planted, caught since the check was strengthened.

| bug | caught by | needs | breaks |
|---|---|---|---|
'''+'\n'.join(rows)+f'\n{b}'
s=re.sub(re.escape(a)+'.*'+re.escape(b),lambda _:t,s,flags=re.S)
open(f'{V}/DESIGN.md','w').write(s)
print(len(rows),'bugs,',len(MISSED&{r.split()[1] for r in rows}),'missed at first')
