#!/usr/bin/env python3
"""plant.py SPEC.py...: turns planted-bug specifications into seeded/<id>/ and
confirms each in a scratch copy of /repo: it compiles, the tests pass, the
demonstration passes without the change and fails with it.

A specification sets id, prop, edits=[(file, old, new)...], needs, breaks, demo
(Go source, an external test in package dir pkg) and optionally race, env."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# exit 0: the property holds in this demonstration, 1: it is broken
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TMPDIR="$S" PCP_CONF="$S/none"
%(env)sunset PCP_DIR
%(env2)secho "{\"Replace\":{\"$PWD/%(dir)szz_demo_test.go\":\"$D/demo_test.go\"}}" > "$S/o.json"
go test -count=1 -vet=off -timeout 200s %(race)s-run '^TestDemo$' -overlay "$S/o.json" ./%(dir)s
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)
def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    i = ns["id"]
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    pkg = ns.get("pkg", "")
    env2 = "".join("export %s\n" % e for e in ns.get("env", []))
    open(d + "/demo.sh", "w").write(SH % dict(env="", env2=env2, dir=pkg + "/" if pkg else "", race="-race " if ns.get("race") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(ns["demo"].lstrip())
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        c = w + "/repo"
        shutil.copytree("/repo", c, symlinks=True)
        run(["git", "checkout", "-q", "--", "."], c)
        def demo():
            p = run(["bash", d + "/demo.sh"], c)
            return p.returncode, (p.stdout + p.stderr)[-1500:]
        clean = demo()
        for f, a, b in ns["edits"]:
            s = open(c + "/" + f).read()
            if s.count(a) != 1:
                print(i, "EDIT does not match once:", f, s.count(a), a[:80]); return
            open(c + "/" + f, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(run(["git", "diff"], c).stdout)
        e = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", TMPDIR=w)
        fmt = run(["gofmt", "-l"] + [f for f, _, _ in ns["edits"]], c).stdout.strip()
        b = run(["go", "build", "./..."], c, env=e)
        if b.returncode: print(i, "BUILD FAILS", b.stderr); return
        t = run(["go", "test", "-vet=off", "-count=1", "./..."], c, env=e)
        tests = "ok" if t.returncode == 0 else "TESTS FAIL " + t.stdout[-1500:]
        bad = demo()
        ok = clean[0] == 0 and bad[0] != 0 and tests == "ok"
        print(i, "OK" if ok else "PROBLEM", "fmt:" + fmt if fmt and fmt != "mmvdump/mmvdump.go" else "", "clean", clean[0], "patched", bad[0], "tests", tests)
        if clean[0]: print("CLEAN:", clean[1])
        if not bad[0]: print("PATCHED:", bad[1])
        if "-v" in sys.argv: print("PATCHED:", bad[1])
    finally:
        shutil.rmtree(w)
for s in sys.argv[1:]:
    if s != "-v": main(s)
