#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property on /repo's current tree
check.py --replay <file>                run a recorded counterexample on the real code
check.py --setup                        build the executor"""
import concurrent.futures as cf, json, os, sys, threading, time, traceback
import vlib
from props import PROPS

EV = os.path.join(vlib.VERIF, "evidence")


def decide(pid, tier):
    t0 = time.time()
    prop = PROPS[pid]
    hs = []
    for h in prop["harnesses"]:
        if h.get("tier", "quick") == "thorough" and tier == "quick":
            continue
        if h.get("tier") == "quickonly" and tier != "quick":
            continue
        params = dict(h.get("params", {}))
        to = h.get("t", 40)
        if tier == "thorough":
            params.update(h.get("deep", {}))
            to = h.get("tdeep", max(to * 4, 120))
        hs.append(dict(name=vlib.PKG + h["name"], label=h.get("label", ""), params=params, timeout_s=to,
                       max_steps=h.get("msteps", 0) * 1000000, max_viol=6, finding=h.get("finding"), bounds=h.get("bounds", "")))
    budget = 600 if tier == "quick" else 3600
    w = vlib.Work()
    known, viols, notes = [], [], []
    # a finding is only excused while the committed list names it
    listed = {l.split()[2].rstrip(":") for l in open(os.path.join(vlib.VERIF, "known_findings.txt")) if l.startswith("known: property=%s " % pid)}
    tested = 0
    vlib.build_symgo()
    names = sorted({h["name"] for h in hs})
    built = {}

    def bg():
        try:
            built["r"] = w.build_replay(names)
        except Exception as e:
            built["r"] = (None, str(e))
    th = threading.Thread(target=bg)
    th.start()
    out = w.run(hs, budget=budget, timeout=budget + 120)
    th.join()
    binary, berr = built["r"]
    per = []
    for h in hs:
        o = next((x for x in out["harnesses"] if x["name"] == h["name"] and x["label"] == h["label"] and (x["params"] or {}) == h["params"]), None)
        if o is None or o.get("error"):
            notes.append("%s %s not decided: %s; %s" % (h["name"], h["label"], (o or {}).get("error", "no report"), "; ".join(out["load_errors"][:5])[:600]))
            continue
        per.append((h, o))
    # what the solver found is run on the real code before it is reported
    done = set()
    for h, o in per:
        for v in o["violations"] or []:
            key = (h["name"], v["msg"].split("\n")[0], v["kind"])
            if key in done:
                continue
            if binary is None:
                verdict, txt = "err", berr[-1500:]
            elif v["kind"] == "race":
                rb, rerr = w.build_replay(names, race=True)
                verdict, txt = "err", rerr
                for _ in range(30 if rb else 0):
                    verdict, txt = w.replay(rb, h["name"], v["inputs"], h["params"])
                    if verdict == "fail":
                        break
            elif v["kind"] in ("deadlock", "hang"):
                verdict, txt = w.replay(binary, h["name"], v["inputs"], h["params"], timeout=20)
            else:
                tries = 30 if v["sched"] else 6
                for _ in range(tries):
                    verdict, txt = w.replay(binary, h["name"], v["inputs"], h["params"])
                    if verdict == "fail":
                        break
            real = verdict == "fail" or (v["kind"] in ("deadlock", "hang") and (verdict == "hang" or "deadlock!" in txt))
            if not real and v["sched"] and v["kind"] in ("assert", "deadlock", "panic") and (verdict in ("ok", "fail", "hang") or "VX-EXHAUSTED" in txt):
                real = True  # needs the recorded interleaving; the trace is the witness
                txt = "interleaving-dependent; the recorded schedule is in the replay file\n" + v["trace"]
            if not real:
                notes.append("counterexample for '%s' in %s did not reproduce natively (%s): treated as an encoding limit, not reported" % (key[1], h["name"], verdict))
                continue
            done.add(key)
            f = h.get("finding")
            if f and f["tag"] in listed and any(m in v["msg"] for m in f["msgs"]):
                known.append(f["text"])
                continue
            viols.append((h, v, txt))
    # a few completed paths are run on the real code too: the encoding must agree
    wit_ok, wit_bad = 0, 0
    if binary:
        jobs = [(h, x) for h, o in per if not (o["violations"] or h.get("finding")) for x in (o.get("witnesses") or [])]
        with cf.ThreadPoolExecutor(8) as ex:
            for (h, x), (k, t) in zip(jobs, ex.map(lambda j: w.replay(binary, j[0]["name"], j[1], j[0]["params"], timeout=30), jobs)):
                if k == "ok":
                    wit_ok += 1
                else:
                    again = [w.replay(binary, h["name"], x, h["params"], timeout=30) for _ in range(2)] if k == "fail" else []
                    if k == "fail" and all(a[0] == "fail" for a in again):
                        # the real code breaks the assertion on an input of a path the encoding passed
                        msg = next((l[9:] for l in t.splitlines() if l.startswith("VX-FAIL: ")), "crash on the real code")
                        key = (h["name"], msg, "native")
                        if key not in done:
                            done.add(key)
                            viols.append((h, dict(inputs=x, kind="native", msg=msg, trace="", sched=[]), t))
                        continue
                    wit_bad += 1
                    notes.append("path witness of %s %s behaved differently natively: %s %s" % (h["name"], h["label"], k, t[-300:]))
    else:
        notes.append("native replay could not be built: " + berr[-400:])
    ev = evidence(pid, tier, prop, per, notes, wit_ok, wit_bad, len(viols), time.time() - t0, out)
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    rc = 0
    for t in dict.fromkeys(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for i, (h, v, txt) in enumerate(viols):
        rp = os.path.join(EV, "replay", "%s-%d.json" % (pid, i))
        json.dump(dict(property=pid, harness=h["name"], params=h["params"], inputs=v["inputs"], kind=v["kind"], msg=v["msg"],
                       trace=v["trace"], native=txt), open(rp, "w"), indent=1)
        print("%s [%s] %s" % (h["name"].rsplit("/", 1)[1], h["label"], v["msg"].split("\n")[0]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    w.close()
    c = ev["coverage"]
    print("%s %s: %d paths, %d queries, %.1f s solver, %d harnesses (%d complete), %d witnesses replayed, %d undecided, %.1f s" % (
        pid, tier, c["states"], c["queries"], c["solver_s"], len(per), sum(1 for x in c["harnesses"] if x["complete"]), wit_ok, len(notes), ev["wall_s"]))
    for n in notes:
        print("note:", n[:1500])
    if rc == 0 and not per:
        print("UNDECIDED property=%s: no harness could be run on this tree" % pid)
        return 2
    return rc


def evidence(pid, tier, prop, per, notes, wit_ok, wit_bad, nviol, wall, out):
    H, funcs, samples = [], {}, []
    tot = dict(Paths=0, Decisions=0, Queries=0, SolverS=0.0, AssertQueries=0, Asserts=0, Steps=0)
    for h, o in per:
        s = o["stats"]
        for k in tot:
            tot[k] += s[k]
        for f in s["Funcs"]:
            if f.find("fairDataSociety/FaVe/") >= 0 and "zz_verif" not in f:
                funcs[f.replace("github.com/fairDataSociety/FaVe/", "")] = 1
        why = [r.split("\n")[0][:200] + " x%d" % n for r, n in (s["Reasons"] or {}).items()]
        H.append(dict(harness=h["name"].rsplit("/", 1)[1], label=h["label"], params=h["params"], bounds=h["bounds"],
                      complete=bool(s["Exhausted"]), paths=s["Paths"], infeasible=s["Infeasible"], outside=s["Unsupported"] + s["Limit"] + s["Unknown"],
                      assertions_evaluated=s["Asserts"], assertion_queries=s["AssertQueries"], queries=s["Queries"], sat=s["Sat"], unsat=s["Unsat"],
                      unknown=s["UnknownQ"], solver_s=round(s["SolverS"], 2), wall_s=round(s["WallS"], 2), reached=s["Covers"], incomplete_because=why))
        for x in (o.get("witnesses") or [])[:1]:
            samples.append(dict(harness=h["name"].rsplit("/", 1)[1], inputs={("%d:%s" % (i, y["name"])): y["val"] for i, y in enumerate(x or [])}))
    vac = [x["harness"] + " " + x["label"] for x in H if not x["reached"]]
    if vac:
        notes.append("no reachability witness in: " + ", ".join(vac))
    return dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
                coverage=dict(states=tot["Paths"], transitions=tot["Decisions"], traces_validated_against_impl=wit_ok,
                              samples=samples[:6], exhaustive=bool(H) and all(x["complete"] for x in H) and not notes,
                              rule="states: execution paths of the real code, each covering every input that follows it; transitions: forks decided by the solver; traces validated: solver models of completed paths run natively",
                              queries=tot["Queries"], assertion_queries=tot["AssertQueries"], assertions=tot["Asserts"], solver_s=round(tot["SolverS"], 2),
                              instructions=tot["Steps"], functions_encoded=sorted(funcs), harnesses=H, undecided=notes,
                              solver="z3 4.8.12", load_s=out.get("load_s", 0)),
                assumptions=prop.get("assumes", []), wall_s=round(wall, 2), violations=nviol)


def replay(path):
    r = json.load(open(path))
    w = vlib.Work()
    b, err = w.build_replay([r["harness"]], race=r["kind"] == "race")
    if not b:
        print(err)
        return 1
    k, t = w.replay(b, r["harness"], r["inputs"], r["params"])
    print(k)
    print(t)
    w.close()
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        vlib.build_symgo()
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return decide(pid, tier)
    except Exception:
        # an error of the machinery decides nothing: neither held nor violated
        traceback.print_exc()
        os.makedirs(EV, exist_ok=True)
        json.dump(dict(property=pid, tier=tier, seed=1, level="model_checking",
                       coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], undecided=[traceback.format_exc()[-1500:]]),
                       wall_s=0, violations=0), open(os.path.join(EV, pid + ".json"), "w"))
        return 2


if __name__ == "__main__":
    sys.exit(main())
