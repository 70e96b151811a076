import sys, time
sys.path.insert(0, "/verif/engine")
from interp import *
P = Program(sys.argv[1])
tr = "-t" in sys.argv
for name in sys.argv[2:]:
    if name.startswith("-"):
        continue
    for k in [r["key"] for r in P.roots.values()]:
        f = P.fn(k)
        if f.path.split("::")[-1] != name:
            continue
        I = Interp(P, trace=tr)
        t = time.time()
        o = I.run_root(k)
        print(name, "%.1fs" % (time.time() - t), "states", len(o), I.stats, "sites", len(I.sites))
        for e in I.events.values():
            print("  %s: %s at %s:%s (%s)  %s" % (e.kind, e.what, e.site[1], e.site[2], e.site[0], e.info))
            for s in e.stack[:12]:
                print("      ", s[0], s[1].split("/")[-1] if s[1] else "", s[2])
