#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
F='/verif/DESIGN.md'
s=open(F).read()
M='## Planted bugs'
head=s.split(M)[0].rstrip()+'\n\n'
late=set('hmac-sha512-long-keys bls-hash-long-message mina-many-elements hash-sm3-chunks bls-multiexp-byte-index curve-order-flag-bits point-add-y-short sm2-sign-short-s ka-u-point-y-short bls-hash-memo-ring bls-multiexp-reduces-callers-scalars'.split())
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    n=m['needs'] if isinstance(m['needs'],str) else '; '.join(m['needs'])
    rows.append((m['property'],i,n.replace('\n',' ').replace('|','/').strip(),i in late))
rows.sort()
t=M+'\n\nEach is in `seeded/<id>` with a demonstration. Every one is reported by the quick check of\nits property; those marked * were missed when they were planted, and the check was\nstrengthened (mostly with sizes: long messages, long keys, many elements).\n\n| property | change | needs |\n|---|---|---|\n'
for p,i,n,l in rows: t+='| %s | %s%s | %s |\n'%(p,i,' *' if l else '',n)
open(F,'w').write(head+t)
print(len(rows))
