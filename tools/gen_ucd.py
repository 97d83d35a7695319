#!/usr/bin/env python3
"""Writes harness/ucd_core.h: categories and case pairs on which Unicode 3.2 and 15 agree (so every version between does)."""
import unicodedata as U, os
O = U.ucd_3_2_0
cats = {}
start = None
out = []
def stable(c):
    k = U.category(chr(c))
    return k if k != 'Cn' and O.category(chr(c)) == k and c != 0x180e else None
runs = []
c = 0
while c < 0x110000:
    k = stable(c)
    if k is None:
        c += 1; continue
    s = c
    while c < 0x110000 and stable(c) == k: c += 1
    runs.append((s, c - 1, k))
def one(c, f):
    r = f(chr(c))
    return ord(r) if len(r) == 1 else -1
lines = ["// Generated by tools/gen_ucd.py: do not edit", "struct ucd_run { int lo, hi; char cat[3]; };", "static const ucd_run ucd_runs[] = {"]
row = ""
for s, e, k in runs:
    row += "{%d,%d,\"%s\"}," % (s, e, k)
    if len(row) > 110: lines.append(row); row = ""
lines.append(row); lines.append("};")
def pairs(name, f):
    lines.append("struct %s_t { int from, to; };\nstatic const %s_t %s[] = {" % (name, name, name))
    row = ""
    for s, e, k in runs:
        if k[0] not in "LNSM" and s > 0x3000: continue
        for c in range(s, e + 1):
            if 0x3400 <= c <= 0xd7a3 or c >= 0x20000: continue
            t = one(c, f)
            # a target of -1: mapped differently in later versions or to several characters
            if t >= 0 and t != c and stable(t) is None: t = -1
            if t < 0 or t != c:
                row += "{%d,%d}," % (c, t)
                if len(row) > 110: lines.append(row); row = ""
    lines.append(row); lines.append("};")
pairs("ucd_upper", str.upper)
pairs("ucd_lower", str.lower)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/ucd_core.h"), "w").write("\n".join(lines) + "\n")
print(len(runs))
