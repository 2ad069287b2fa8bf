#!/usr/bin/env python3
"""gen.py ID...   builds /verif/seeded/ID from specs*.py, confirming that the change compiles,
passes the stable tests, and that the demonstration fails with it and passes without it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
specs = {}
for f in sorted(glob.glob(os.path.join(HERE, "specs*.py"))):
    sp = importlib.util.spec_from_file_location("s", f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for s in m.SPECS:
        assert s["id"] not in specs, s["id"]
        specs[s["id"]] = s


def run(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def gen(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(dir="/tmp", prefix="seed.")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        for path, old, new in s["edits"]:
            fn = os.path.join(r, path)
            t = open(fn).read()
            if t.count(old) != 1:
                return "%s: %d matches of %r" % (path, t.count(old), old)
            open(fn, "w").write(t.replace(old, new))
        rc, o = run(["gofmt", "-e", "-l"] + [p for p, _, _ in s["edits"]], r)
        if rc:
            return "gofmt: " + o
        _, diff = run(["git", "diff"], r)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # demo files
        pkg = s["pkg"]
        name = {"pkg/crypto": "pkg", "cmd/gen_keys": "main", "cmd/tecdsa": "main"}.get(pkg, os.path.basename(pkg))
        open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(HERE, "demo.sh")).read().replace("@PKG@", pkg))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "helper_test.go"), "w").write(open(os.path.join(HERE, "helper_%s.go" % s.get("helper", "none"))).read().replace("@NAME@", name))
        open(os.path.join(d, "demo_test.go"), "w").write("package %s\n%s" % (name, s["demo"]))
        rc, o = run(["gofmt", "-w", "demo_test.go", "helper_test.go"], d)
        if rc:
            return "demo gofmt: " + o
        shutil.copytree(os.path.join(V, "stubs"), os.path.join(d, "stubs"), ignore=shutil.ignore_patterns("repo-*", "tests"))
        mod = open(os.path.join(V, "stubs", "repo-go.mod")).read()
        mod += """
require (
	github.com/binance-chain/tss-lib v0.0.0
	github.com/rs/zerolog v0.0.0
	gitlab.com/alephledger/core-go v0.0.0
)

replace (
	github.com/binance-chain/tss-lib => ./stubs/tss-lib
	github.com/rs/zerolog => ./stubs/zerolog
	gitlab.com/alephledger/core-go => ./stubs/core-go
)
"""
        open(os.path.join(d, "demo.mod"), "w").write(mod)
        shutil.copy(os.path.join(V, "stubs", "repo-go.sum"), os.path.join(d, "demo.sum"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, o = run([os.path.join(d, "demo.sh")], "/repo")
        if rc:
            return "demo fails on the unchanged tree:\n" + o[-3000:]
        rc, o = run([os.path.join(d, "demo.sh")], r)
        if rc == 0:
            return "demo passes with the patch"
        if "FAIL" not in o or "build failed" in o:
            return "demo with the patch:\n" + o[-3000:]
        tail = o[-600:]
        rc, o = run(["bash", "-c", "cd %s && . /opt/vp/env.sh; go build ./pkg/curve ./pkg/crypto/... && go test -vet=off -count=1 ./pkg/curve ./pkg/crypto/..." % r], r)
        if rc:
            return "stable tests:\n" + o[-2000:]
        # the packages outside the stable tests must compile too
        shutil.copy("/tmp/suite/go.mod", w + "/s.mod")
        if os.path.exists("/tmp/suite/go.sum"):
            shutil.copy("/tmp/suite/go.sum", w + "/s.sum")
        rc, o = run(["bash", "-c", "cd %s && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null -modfile=%s/s.mod ./pkg/... && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go vet -unusedresult=false -modfile=%s/s.mod ./cmd/..." % (r, w, w)], r)
        if rc:
            return "compile:\n" + o[-2000:]
        return "ok: " + tail.strip().splitlines()[0][:150] if tail.strip() else "ok"
    finally:
        shutil.rmtree(w)


for i in sys.argv[1:] or list(specs):
    print(i, gen(specs[i]), flush=True)
