#!/usr/bin/env python3
"""Freezes the encoding list of a tree into data/*.txt (run once, at the pinned commit; the checks never run it)."""
import re,sys
src=open(sys.argv[1]+'/lib/encodings.h.snippet').read()
src=re.sub(r'/\*.*?\*/','',src,flags=re.S); src=re.sub(r'//[^\n]*','',src)
toks=re.findall(r'DEFENCODING\s*\(\s*\(([^)]*)\)\s*,\s*(\w+)\s*,\s*(\w+)\s*,|DEFCODEPAGE\s*\(\s*(\d+)\s*,\s*(\w+)\s*\)|DEFINDEX\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)',src)
al=open('/verif/data/aliases.txt','w'); cp=open('/verif/data/codepages.txt','w'); co=open('/verif/data/constants.txt','w')
idx={};cn={};i=0
for names,x,ix,cpn,cpx,da,di in toks:
    if x:
        ns=re.findall(r'"([^"]*)"',names); al.write(x+' '+' '.join(ns)+'\n'); idx[x]=i; cn[ix]=x; i+=1; co.write(ix+' '+x+'\n')
for names,x,ix,cpn,cpx,da,di in toks:
    if cpn: assert cpx in idx; cp.write(cpn+' '+cpx+'\n')
    if da: co.write(da+' '+(cn.get(di) or di)+'\n')
print(i)
