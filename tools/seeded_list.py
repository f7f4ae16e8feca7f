"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=os.path.join(root,'seeded'); rows=[]
for i in sorted(os.listdir(d)):
    m=json.load(open(os.path.join(d,i,'meta.json')))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
table='\n'.join(['| change | caught by | breaks | needs |','|--|--|--|--|']+rows)
p=os.path.join(root,'DESIGN.md'); s=open(p).read()
a,b='<!-- seeded -->','<!-- /seeded -->'
if 'SEEDED_LIST' in s: s=s.replace('SEEDED_LIST',a+'\n'+b)
s=s[:s.index(a)+len(a)]+'\n'+table+'\n'+s[s.index(b):]
open(p,'w').write(s)
