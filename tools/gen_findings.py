#!/usr/bin/env python3
"""writes known_findings.json from the fix commits of /repo (run by hand, never by a check)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split() for l in """b82162f C07
f3d921f C13
435305e C31
87d789f C04
a9e62eb C06
97ed155 C05
31892cc C02
744f821 C09
04b3c9a C02
2186aa3 C03
1df7a39 C20
b625213 C18
dbf736b C18
95c0ff5 C18
1457583 C18
0fc9432 C17
95a7a9b C11
0e847d7 C09
47bdc00 C09
63698f3 C11
edc7c67 C08
5d878ae C10
1b17d42 C09
dbe2525 C20
3498204 C21
77cef09 C20
3588e11 C09
07f72d7 C20
0f3847f C20
bdf7673 C11
be341b2 C09
ff16a02 C22
38a8b3b C20
9428e72 C02
7d23e2a C09
9a244d1 C09
0ba2c3a C11
cd49bc5 C20
560bc34 C18
c720c60 C15
5833b74 C15
f12c241 C17
33ac9c7 C20
61f3026 C09
8da41bf C23
7835d98 C09
1935d06 C23
6ba131a C09
7c77104 C23
3d45b17 C22
ce12401 C22
794264b C19
881415b C24
df78cbd C24
8a25db2 C24
bb129ea C17
b071698 C24
db134e1 C24
b5901e8 C26
8c8dd0b C27
3388ed4 C28
e004233 C22
ae9f4ca C29
bb9c8a4 C36
d3b9d75 C37
c9ce743 C37
4a1dba5 C37
43df101 C31
17b4fd4 C24
8b3140f C40
13a38f1 C40
e1969fc C35
c5261f0 C35
13b4cb4 C31
1ba91c9 C31
6399123 C31
7bbf0aa C31
01ed897 C35
c6b9c6b C31
8771fd4 C31
871c1f9 C31
2d4cf2d C18
4092ccb C28
cf72cd0 C28""".splitlines())
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "7e53c8a.."], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    what = s[5:]
    out.append({"status": "fixed", "property": PROP[h], "commit": h, "what": what,
                "line": "fixed: property=%s %s %s" % (PROP[h], h, "violated before the commit: " + what)})
KNOWN = [
    ("C29", "C29/short-batch", "neural_network/basemlp64.go and basemlp32.go, fitStochastic: when the number of rows is not a multiple of the batch size, the last batch of an epoch keeps the row count of a full batch, so rows left over from the batch before it enter the gradients (and the loss is divided by the full batch size)",
     "the copies in `for _, a := range activations { a.Rows = ... }` are changed instead of the elements; repairing it changes the result ExampleGridSearchCV pins"),
    ("C29", "C29/adam-powers", "neural_network/basemlp64.go and basemlp32.go, AdamOptimizer.updateParams: the powers of beta1 and beta2 used for bias correction advance once per parameter instead of once per step",
     "repairing it changes the result ExampleGridSearchCV pins"),
]
for p, k, w, why in KNOWN:
    out.append({"status": "known", "property": p, "key": k, "what": w, "why_not_repaired": why})
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out))
