#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes /verif/seeded/<id> from a spec and confirms it in a
scratch copy (patch builds, stable tests pass, demo passes without and fails with it)."""
import sys, os, subprocess, shutil, json, tempfile, re
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)

def make(s):
    d = "/verif/seeded/" + s["id"]
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    r = os.path.join(w, "repo")
    try:
        shutil.copytree("/repo", r)
        if not os.path.isdir(d):
            os.makedirs(d)
        race = "-race" if s.get("race") else ""
        demo = s.get("demo") or open(LIB + "/demo.sh").read().replace("RACEFLAG", race)
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go.txt", "w").write(s["test"].lstrip())
        shutil.copy(LIB + "/helper.go.txt", d)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        p = run([d + "/demo.sh"], r)
        if p.returncode != 0:
            return "demo fails on the unchanged tree:\n" + p.stdout[-3000:]
        for f, old, new in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(old) != 1:
                return "%s: %d matches of %r" % (f, t.count(old), old)
            open(r + "/" + f, "w").write(t.replace(old, new))
        g = run("gofmt -l *.go", r).stdout.strip()
        diff = run("git diff --no-color", r).stdout
        open(d + "/patch.diff", "w").write(diff)
        for o in ("linux", "windows", "darwin"):
            b = run("GOOS=%s go build . && GOOS=%s go vet -unreachable=false . >/dev/null 2>&1; GOOS=%s go build ." % (o, o, o), r)
            if b.returncode != 0:
                return "build %s:\n" % o + b.stdout
        t = run("go test -race -vet=off -count=1 -timeout 5m . ./runes", r, stdin=subprocess.DEVNULL)
        stable = json.load(open("/opt/vp/BASELINE.json"))
        if t.returncode != 0 and "FAIL" in t.stdout and not s.get("ignore_tests"):
            return "tests:\n" + t.stdout[-2000:]
        p = run([d + "/demo.sh"], r)
        if p.returncode == 0:
            return "demo passes with the patch"
        return ""
    finally:
        shutil.rmtree(w)

for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        e = make(s)
        print(s["id"], "OK" if not e else "BAD: " + e)
        if e:
            shutil.rmtree("/verif/seeded/" + s["id"], ignore_errors=True)
