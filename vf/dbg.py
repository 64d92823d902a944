"""python3-vt -m vf.dbg PROP [substr] [-v] [-m] [-t SECS]: run harnesses side by side and print what is open"""
import importlib
import multiprocessing as mp
import sys
import time

sys.path.insert(0, "/verif")
from vf import run    # noqa

a = sys.argv[1:]
lim = 120
if "-t" in a:
    k = a.index("-t")
    lim = float(a[k + 1])
    del a[k:k + 2]
flags = [x for x in a if x.startswith("-")]
a = [x for x in a if not x.startswith("-")]
m = importlib.import_module("vf.props." + a[0])
hs = m.harnesses()
ids = [i for i, h in enumerate(hs) if len(a) < 2 or a[1] in h.name]
for i in ids:
    hs[i].hard = lim
t = time.time()
res = run.schedule([(a[0], i, "quick", 1.0) for i in ids], hs, "quick", time.time() + 3000)
for r in res:
    bad = [o for o in r["obls"] if o["status"] != "proved"]
    print(f"== {r['name']}: paths {r['paths']} {r['secs']}s obls {len(r['obls'])} open {len(bad)}"
          f" {r['unsupported'] or ''}")
    if r["unsupported"] and r.get("tb") and "-v" in flags:
        print(r["tb"])
    if r["error"]:
        print(r["error"])
    for n, q in r["reach"]:
        if q != "sat":
            print("   reach", n, q)
    for o in r["obls"]:
        if o["status"] != "proved" or o["secs"] > 5 or "-v" in flags:
            print("   ", o["name"], o["status"], o["backend"], o["secs"], o["detail"])
            if "-m" in flags and o["model"]:
                print(o["model"])
print(f"{time.time() - t:.1f}s")
