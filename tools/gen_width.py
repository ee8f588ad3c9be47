#!/usr/bin/env python3
"""gen_width.py DUMP > models/width_table.h: widths by Unicode's data (category, East Asian width). DUMP has the code's two widths per code point (without, with emoji); characters on which
Unicode's current data and the rules in wcwidth.cpp differ (unassigned, private, changed since, ambiguous emoji) are left out: 9."""
import unicodedata as u, sys
L=[tuple(map(int,l.split())) for l in open(sys.argv[1])]
def exp(c):
    ch=chr(c); cat=u.category(ch)
    if c==0: return 0
    if c<32 or 0x7f<=c<0xa0: return -1
    if cat in('Cn','Co','Cs'): return None
    if c==0xad: return 1
    if cat in('Mn','Me','Cf') or c==0x200b or 0x1160<=c<=0x11ff: return 0
    return 2 if u.east_asian_width(ch) in 'WF' else 1
rows=[]
for c,(a,b) in enumerate(L):
    e=exp(c); r=[9 if e is None or e!=x else e for x in (a,b)]
    if rows and rows[-1][1:]==r: continue
    rows.append([c]+r)
print("// First code point of each range, its width without and with colour emoji; 9 is not checked. Made by tools/gen_width.py from Unicode", u.unidata_version)
print("static const struct { unsigned first; signed char w[2]; } WIDTHS[] = {", ", ".join("{0x%x,{%d,%d}}"%tuple(r) for r in rows), "};")
