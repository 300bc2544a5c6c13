#!/usr/bin/env python3
"""Development helper: vrun.py pkg.Func [k=v ...] - run one harness verbosely and replay what it finds."""
import sys, vlib
w = vlib.Work()
name = vlib.PKG + sys.argv[1]
kv = dict(a.split("=") for a in sys.argv[2:])
to = float(kv.pop("t", 60))
ms = int(kv.pop("ms", 0)) * 1000000
wit = int(kv.pop("w", 0))
params = {k: int(v) for k, v in kv.items()}
out = w.run([dict(name=name, label="", params=params, timeout_s=to, max_steps=ms)], verbose=True)
for h in out["harnesses"]:
    vs = h["violations"] or []
    if vs or wit:
        b, err = w.build_replay([name], race=any(v["kind"] == "race" for v in h["violations"] or []))
        if not b:
            print(err[-3000:])
            break
    for v in vs[:4]:
        for i in range(30 if v["sched"] else 1):
            k, t = w.replay(b, name, v["inputs"], params)
            if k == "fail":
                print("try", i)
                break
        print("REPLAY", v["msg"].split("\n")[0], "->", k, t[-700:])
    if wit:
        for x in h["witnesses"] or []:
            k, t = w.replay(b, name, x, params)
            print("WITNESS", k, t[-300:] if k != "ok" else "")
w.close()
