#!/usr/bin/env python3
"""Generates harness/src/shapes.rs: the static query shapes (tuple types) the drivers use."""
import random
N = ["D8","P4","D1","B3","A16","Large","Zd","Zp","Za","Bx","A64","H2","Q16","Pad","B33","A128","Huge"]
r = random.Random(20)
shapes, seen = [], set()
def add(cols):
    cols = tuple(cols)
    if cols in seen: return
    seen.add(cols); shapes.append(cols)
for k in range(16):
    add([("E",-1),("R",k)]); add([("W",k),("E",-1)])
    if k % 2 == 0: add([("R",k)])
    if k % 3 == 0: add([("W",k)])
add([("E",-1)]); add([("E",-1),("E",-1)])
add([("R",0),("R",0)]); add([("R",6),("E",-1),("R",6)]); add([("R",5),("R",1),("R",5)])
bases = []
order = list(range(16))
for b in range(8):
    r.shuffle(order)
    bases.append(order[:9])
for base in bases:
    for a in range(2, 11):
        for v in range(2):
            while True:
                ks = r.sample(base, min(a, 9))
                cols = [(r.choice("RRW"), k) for k in ks]
                ne = 1 if a == 10 else (1 if r.random() < .75 else 0)
                if a == 10:
                    cols.insert(r.randrange(len(cols)+1), ("E",-1))
                elif ne:
                    cols[r.randrange(a)] = ("E",-1)
                if tuple(cols) not in seen and len(cols) == a: break
            add(cols)
# two components in every mode and order, for the lock scripts
for k, j in ((0, 6), (9, 3)):
    for m in "RW":
        for c in (k, j):
            add([(m, c)]); add([("E", -1), (m, c)]); add([(m, c), ("E", -1)])
        for n in "RW":
            for c, d in ((k, j), (j, k)):
                add([(m, c), (n, d)]); add([(m, c), ("E", -1), (n, d)])
for cols in ([("E",-1),("R",16)], [("W",16),("E",-1)], [("R",16)], [("R",0),("W",16),("E",-1)], [("E",-1),("R",16),("R",6),("W",1)], [("R",10),("R",16)]): add(cols)
out = ["// Generated by tools/mkshapes.py", "use crate::query::*;", "use crate::toks::*;", "use arche_tape::EcsIds;", ""]
out.append("pub const BASES: &[&[usize]] = &[" + ", ".join("&[" + ", ".join(map(str, b)) + "]" for b in bases) + "];")
out.append("")
out.append("crate::shapes! {")
V = "abcdefghij"
# every fifth, and every arity at least three times, is used in all ways that an iterator can be used
per = {}
for n, cols in enumerate(shapes):
    per[len(cols)] = per.get(len(cols), 0) + 1
    ways = " ways" if n % 5 == 0 or per[len(cols)] <= 3 else ""
    tys = []
    for m, k in cols:
        tys.append("EcsIds" if m == "E" else ("&'static " + ("mut " if m == "W" else "") + N[k]))
    out.append("    [%s] (%s,) (%s,)%s;" % (", ".join("(b'%s', %d)" % c for c in cols), ", ".join(tys), ", ".join(V[:len(cols)]), ways))
out.append("}")
open(__file__.rsplit("/", 2)[0] + "/harness/src/shapes.rs", "w").write("\n".join(out) + "\n")
print(len(shapes), "shapes")
