#!/usr/bin/env python3
"""Canonical decompositions and combining classes for src/nfd.inc, from Python's Unicode data. Run once."""
import unicodedata as u
d=[];c=[]
for i in range(0x110000):
    if 0xD800<=i<0xE000 or 0xAC00<=i<0xD7A4: continue
    s=u.normalize('NFD',chr(i))
    if s!=chr(i): d.append((i,[ord(x) for x in s]))
    if u.combining(chr(i)): c.append((i,u.combining(chr(i))))
with open('/verif/src/nfd.inc','w') as f:
    f.write('// Generated by tools/mknfd.py from Unicode %s.\nstatic const std::map<uint32_t, std::vector<uint32_t>> nfd_map = {\n'%u.unidata_version)
    for i,s in d:
        if i<0x3000 or 0xFB00<=i<0xFB50: f.write('{0x%X,{%s}},'%(i,','.join('0x%X'%x for x in s)))
    f.write('};\nstatic const std::map<uint32_t, int> nfd_ccc = {\n')
    for i,k in c:
        if i<0x3100: f.write('{0x%X,%d},'%(i,k))
    f.write('};\n')
