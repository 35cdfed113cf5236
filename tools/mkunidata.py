#!/usr/bin/env python3
# mkunidata.py UnicodeData.txt > sim/unidata.hpp : what the reference model
# knows of Unicode, straight from the database.
import sys
cat={}; pair={}; first=None; ranges=[]
def add(a,b,k):
    if ranges and ranges[-1][1]==a-1 and ranges[-1][2]==k: ranges[-1][1]=b
    else: ranges.append([a,b,k])
for l in open(sys.argv[1]):
    f=l.rstrip('\n').split(';'); c=int(f[0],16)
    if f[1].endswith(', First>'): first=c; continue
    if f[1].endswith(', Last>'): add(first,c,f[2]); continue
    add(c,c,f[2])
    if f[2]=='Lu' and f[13]: pair[c]=int(f[13],16)
    if f[2]=='Ll' and f[12]: pair[c]=int(f[12],16)
print("// unidata.hpp - made by tools/mkunidata.py from UnicodeData.txt\n#pragma once\n#include <cstdint>\nnamespace unidata\n{")
print("// first, last, category")
print("struct Cat { std::uint32_t first, last; char name[3]; };\ninline const Cat cats[] = {")
o=[]
for a,b,k in ranges: o.append('{%d,%d,"%s"}'%(a,b,k))
def out(o):
    line=''
    for x in o:
        if len(line)+len(x)>150: print(line); line=''
        line+=x+','
    print(line)
out(o)
print("};\n// letters and what they become in the other case\ninline const std::uint32_t pairs[][2] = {")
out(['{%d,%d}'%p for p in sorted(pair.items())])
print("};\n}")
