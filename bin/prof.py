#!/usr/bin/env python3
"""prof.py <keepdir>: where the symbolic run of a kept build forks (needs SY_PROF=1 in the environment of check.py)."""
import bisect, collections, subprocess, sys
k = sys.argv[1]
depth = int(sys.argv[2]) if len(sys.argv) > 2 else 6
syms = []
for l in subprocess.run(["nm", "-C", k + "/sym/prog"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    a = l.split(" ", 2)
    if len(a) == 3 and a[0] and a[1] in "tTwW":
        syms.append((int(a[0], 16), a[2]))
syms.sort()
ad = [s[0] for s in syms]
c = collections.Counter()
for l in open(k + "/out/prof.txt"):
    st = []
    for a in l.split():
        i = bisect.bisect(ad, int(a, 16)) - 1
        n = syms[i][1].split("(")[0][-70:]
        if n in ("branchOn", "concretize") or n.startswith("__sy"):
            continue
        st.append(n)
    c[" < ".join(st[:depth])] += 1
for s, n in c.most_common(25):
    print(n, s)
