#!/usr/bin/env python3
"""collect.py OUT...: merges the lines of catch.sh/catchcopy.sh into results.txt; later files count."""
import os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
dst = os.path.join(here, "results.txt")
seeded = os.path.join(here, "..", "..", "seeded")
got = {}
for f in ([dst] if os.path.exists(dst) else []) + sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+) *(.*)", l)
        if m and os.path.isdir(os.path.join(seeded, m[1])):
            got[m[1]] = f"{m[1]} {m[2]} rc={m[3]} {m[4][:110]}".rstrip()
with open(dst, "w") as o:
    o.write("# planted bug, check, its exit status (1: VIOLATION), what it said first\n")
    for k in sorted(got, key=lambda k: (got[k].split()[1], k)):
        o.write(got[k] + "\n")
missing = sorted(set(os.listdir(seeded)) - set(got))
print(len(got), "collected;", len(missing), "never run:", *missing)
print("not caught:", *[l.split()[0] for l in got.values() if " rc=1" not in l])
