#!/usr/bin/env python3
"""Packs the published mapping tables (tests/data/*.TXT of the pinned commit) into data/tables.txt.xz. Run once."""
import os,re,lzma,glob,sys
names={}
canon=lambda s:s.upper().replace('-','').replace('_','')
for l in open('/verif/data/aliases.txt'):
    w=l.split()
    for n in w[1:]: names[canon(n)]=w[1]
out=[];skipped=[]
for f in sorted(glob.glob('/repo/tests/data/*.TXT')):
    b=os.path.basename(f)[:-4]; irr=b.endswith('.IRREVERSIBLE')
    if irr: continue # a subset of the main table: those that do not map back
    n=b.replace('-BMP','')
    key=canon(n)
    if key not in names: key=canon(n.replace('IBM-','IBM')) 
    if key not in names: key=canon(n.replace('-2005',':2005').replace('-2022',':2022').replace('HKSCS-','HKSCS:'))
    if key not in names: skipped.append(b); continue
    irrs=set()
    p=f[:-4].replace('-BMP','')+'.IRREVERSIBLE.TXT'
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'0x([0-9A-Fa-f]+)\s+((?:0x[0-9A-Fa-f]+\s*)+)',l)
            if m: irrs.add((m[1].lower(),tuple(int(x,16) for x in m[2].split())))
    out.append('@ %s %s'%(names[key],b))
    for l in open(f):
        m=re.match(r'0x([0-9A-Fa-f]+)\s+((?:0x[0-9A-Fa-f]+\s*)+)',l)
        if not m: continue
        t=tuple(int(x,16) for x in m[2].split())
        out.append('%s %s%s'%(m[1].lower(),' '.join('%X'%x for x in t),' !' if (m[1].lower(),t) in irrs else ''))
open('/verif/data/tables.txt.xz','wb').write(lzma.compress(('\n'.join(out)+'\n').encode(),preset=9))
print(len(out),'lines; skipped',skipped)
