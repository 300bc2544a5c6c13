#!/usr/bin/env python3
"""seed.py <id>  finish a planted bug: /tmp/sd/<id>/{edit.py or patch.diff, main.go, meta.json}
-> /verif/seeded/<id>, after confirming it builds, passes the stable tests, and its demo fails with it and passes without.
Applies the change to /repo and always undoes it."""
import json, os, shutil, subprocess, sys
R = os.environ.get("SEED_REPO", "/repo")  # another clone of it while /repo is in use
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
def script(n):
    if R == "/repo": return "/opt/vp/%s.sh" % n
    open("/tmp/sd/overlay.json", "w").write(open("/opt/vp/overlay.json").read().replace("/repo", R))
    open("/tmp/sd/%s.sh" % n, "w").write(open("/opt/vp/%s.sh" % n).read().replace("/opt/vp/overlay.json", "/tmp/sd/overlay.json").replace("/repo", R))
    return "/tmp/sd/%s.sh" % n
def main(i):
    src, dst = "/tmp/sd/" + i, os.path.join(V, "seeded", i)
    assert sh("git", "-C", R, "status", "--porcelain").stdout == "", "repo dirty"
    try:
        if os.path.exists(src + "/edit.py"):
            r = sh("python3", src + "/edit.py", cwd=R); assert r.returncode == 0, r.stderr
        else:
            r = sh("git", "-C", R, "apply", src + "/patch.diff"); assert r.returncode == 0, r.stderr
        r = sh("bash", "-c", ". /opt/vp/env.sh; gofmt -l $(git diff --name-only)", cwd=R); print("gofmt:", r.stdout.strip())
        diff = sh("git", "-C", R, "diff").stdout
        assert diff
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(diff)
        shutil.copy(src + "/main.go", dst); shutil.copy(src + "/meta.json", dst)
        json.load(open(dst + "/meta.json"))
        for f in ("kit.go", "demo.sh"):
            shutil.copy(os.path.join(V, "tools/seedkit", f if not os.path.exists(src + "/" + f) else src + "/" + f), dst)
        if os.path.exists(src + "/demo.sh"): shutil.copy(src + "/demo.sh", dst)
        shutil.rmtree(dst + "/fairos", ignore_errors=True); shutil.copytree(os.path.join(V, "stubs/fairos"), dst + "/fairos")
        r = sh("bash", script("build")); print("build", r.returncode)
        assert r.returncode == 0, r.stdout + r.stderr
        sh("bash", script("test"), "/tmp/sd/out.json")
        o = json.load(open("/tmp/sd/out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        miss = set(b["stable"]) - set(o["passed"])
        print("tests missing:", miss)
        bad = sh("bash", dst + "/demo.sh", cwd=R); print("demo with change:", bad.returncode, (bad.stdout + bad.stderr)[-300:].strip())
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    ok = sh("bash", dst + "/demo.sh", cwd=R); print("demo without:", ok.returncode, (ok.stdout + ok.stderr)[-300:].strip())
    good = not miss and bad.returncode not in (0, 9) and ok.returncode == 0
    print("GOOD" if good else "NOT GOOD", i)
    if not good: shutil.rmtree(dst)
for i in sys.argv[1:]: main(i)
