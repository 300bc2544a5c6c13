"""Shared plumbing: where things are, how the harnesses are laid over /repo,
how the symbolic executor and the native replay are run."""
import glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.23.12"
MOD = "github.com/fairDataSociety/FaVe"
PKG = MOD + "/zz_verif/"


def env(goroot=GOROOT):
    e = dict(os.environ)
    e["PATH"] = goroot + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GOROOT", None)
    return e


def build_symgo():
    out = os.path.join(VERIF, "build", "symgo")
    srcs = glob.glob(os.path.join(VERIF, "symgo", "*.go"))
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in srcs):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    e = env("/opt/veriftools/go1.27.3")
    e["GOFLAGS"] = "-mod=vendor"
    e["CGO_ENABLED"] = "0"
    tmp = out + ".%d" % os.getpid()
    r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "symgo"), env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("building the executor failed: " + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


class Work:
    """A scratch directory with the module file and overlay for one run."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vfave.")
        # module file: /repo's plus the storage stand-in
        gm = open(os.path.join(REPO, "go.mod")).read()
        gm += "\nreplace github.com/fairdatasociety/fairOS-dfs => %s/stubs/fairos\n" % VERIF
        self.modfile = os.path.join(self.dir, "go.mod")
        open(self.modfile, "w").write(gm)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.dir, "go.sum"))
        self.overlay = {}
        self.bins = {}
        for d in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            for f in sorted(glob.glob(os.path.join(VERIF, "harness", d, "*.go"))):
                self.overlay["%s/zz_verif/%s/%s" % (REPO, d, os.path.basename(f))] = f
        # the random level source gets a hook
        rnd = GOROOT + "/src/math/rand/rand.go"
        s = open(rnd).read()
        s = s.replace("func Float64() float64 { return globalRand().Float64() }",
                      "var VerifFloat64 func() float64\n\nfunc Float64() float64 {\n\tif VerifFloat64 != nil {\n\t\treturn VerifFloat64()\n\t}\n\treturn globalRand().Float64()\n}")
        p = os.path.join(self.dir, "rand.go")
        open(p, "w").write(s)
        self.overlay[rnd] = p
        # file operations get a hook, for the packages that use it
        f = GOROOT + "/src/os/file.go"
        u = GOROOT + "/src/os/file_unix.go"
        s = open(f).read()
        for a, b in (
            ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n",
             """// VerifStep is told every operation that changes files before it is done.
var VerifStep func(op, name string, n int, partly func(int))

func verifStep(op, name string) {
	if VerifStep != nil {
		VerifStep(op, name, 0, nil)
	}
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if VerifStep != nil && flag&O_CREATE != 0 {
		if _, err := Lstat(name); err != nil {
			verifStep("create", name)
		} else if flag&O_TRUNC != 0 {
			verifStep("truncate", name)
		}
	}
"""),
            ("	n, e := f.write(b)\n	if n < 0 {", "	if VerifStep != nil {\n		VerifStep(\"write\", f.name, len(b), func(k int) { f.write(b[:k]) })\n	}\n	n, e := f.write(b)\n	if n < 0 {"),
            ("	n, handled, e := f.readFrom(r)\n", "	if VerifStep != nil {\n		return genericReadFrom(f, r)\n	}\n	n, handled, e := f.readFrom(r)\n"),
            ("	return rename(oldpath, newpath)\n", "	if VerifStep != nil {\n		if _, err := Lstat(oldpath); err == nil {\n			verifStep(\"rename\", oldpath)\n		}\n	}\n	return rename(oldpath, newpath)\n"),
        ):
            assert s.count(a) == 1, a
            s = s.replace(a, b)
        self.oshook = {f: os.path.join(self.dir, "file.go"), u: os.path.join(self.dir, "file_unix.go")}
        open(self.oshook[f], "w").write(s)
        s = open(u).read()
        a = "func Remove(name string) error {\n"
        assert s.count(a) == 1
        s = s.replace(a, a + "	if VerifStep != nil {\n		if _, err := Lstat(name); err == nil {\n			verifStep(\"remove\", name)\n		}\n	}\n")
        open(self.oshook[u], "w").write(s)
        # stand-ins used only under the symbolic executor
        self.symover = {}
        for f, where in (("allow_list.go.txt", "github.com/weaviate/weaviate@v1.18.6/adapters/repos/db/helpers/allow_list.go"),):
            self.symover[os.path.join(env()["GOMODCACHE"], where)] = os.path.join(VERIF, "stubs", "overlay", f)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def hooks(self, harnesses):
        return self.oshook if any("/h21." in h["name"] for h in harnesses) else {}

    def run(self, harnesses, budget=0, timeout=800, verbose=False, only=""):
        """Symbolic execution of the harnesses; returns the executor's report."""
        job = dict(dir=REPO, modfile=self.modfile, overlay=dict(self.overlay, **self.symover, **self.hooks(harnesses)),
                   patterns=sorted({h["name"].rsplit(".", 1)[0] for h in harnesses}),
                   harnesses=harnesses, budget_s=budget, out=os.path.join(self.dir, "out.json"))
        jf = os.path.join(self.dir, "job.json")
        json.dump(job, open(jf, "w"))
        if os.path.exists(job["out"]):
            os.remove(job["out"])
        cmd = [build_symgo(), "-job", jf]
        if verbose:
            cmd.append("-v")
        if only:
            cmd += ["-only", only]
        try:
            r = subprocess.run(cmd, env=env(), timeout=timeout, stdout=None if verbose else subprocess.DEVNULL,
                               stderr=None if verbose else subprocess.PIPE, text=True)
            err = r.stderr or ""
        except subprocess.TimeoutExpired:
            err = "executor exceeded its time limit"
        try:
            return json.load(open(job["out"]))
        except Exception as e:
            return dict(load_errors=["no report: %s %s" % (e, err[-2000:])], load_s=0, harnesses=[])

    def build_replay(self, harnesses, race=False):
        """Native binary that runs the named harnesses on recorded inputs."""
        key = "_".join(sorted(harnesses)) + ("#race" if race else "")
        if key in self.bins:
            return self.bins[key]
        n = len(self.bins)
        src = os.path.join(self.dir, "main_%d.go" % n)
        out = os.path.join(self.dir, "replay_%d" % n)
        pk = sorted({h.rsplit(".", 1)[0] for h in harnesses})
        imp = "".join('\tp%d "%s"\n' % (i, p) for i, p in enumerate(pk))
        cases = "".join('\tcase "%s":\n\t\tp%d.%s()\n' % (h, pk.index(h.rsplit(".", 1)[0]), h.rsplit(".", 1)[1]) for h in sorted(set(harnesses)))
        open(src, "w").write('package main\n\nimport (\n\t"fmt"\n\t"os"\n%s)\n\nfunc main() {\n\tswitch os.Args[1] {\n%s\tdefault:\n\t\tos.Exit(7)\n\t}\n\tfmt.Println("VX-OK")\n\tos.Exit(0)\n}\n' % (imp, cases))
        ov = dict(self.overlay, **self.hooks([dict(name=h) for h in harnesses]))
        ov["%s/zz_verif/replay%d/main.go" % (REPO, n)] = src
        ovf = os.path.join(self.dir, "overlay_%d.json" % n)
        json.dump({"Replace": ov}, open(ovf, "w"))
        r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-overlay", ovf, "-modfile", self.modfile, "-o", out, PKG + "replay%d" % n],
                           cwd=REPO, env=env(), capture_output=True, text=True)
        self.bins[key] = (out, "") if r.returncode == 0 else (None, r.stderr)
        return self.bins[key]

    def replay(self, binary, harness, inputs, params, timeout=60):
        """Runs recorded inputs on the real code. Returns (verdict, text):
        'fail' an assertion or panic, 'ok' clean, 'hang', 'err' not runnable."""
        sd = tempfile.mkdtemp(dir=self.dir)
        inp = os.path.join(sd, "in.json")
        json.dump(dict(inputs=inputs or [], params=params or {}), open(inp, "w"))
        e = env()
        e["VX_INPUT"] = inp
        try:
            r = subprocess.run([binary, harness], env=e, cwd=sd, timeout=timeout, capture_output=True, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            return "hang", "no end within %d s" % timeout
        txt = r.stdout[-6000:] + r.stderr[-6000:]
        if r.returncode == 3 or r.returncode == 2 or "WARNING: DATA RACE" in r.stderr:
            return "fail", txt
        if r.returncode == 0:
            return "ok", txt
        return "err", "exit %d\n%s" % (r.returncode, txt)
