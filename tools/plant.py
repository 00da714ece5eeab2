#!/usr/bin/env python3
"""plant.py SPEC.py: makes /verif/seeded/<id>/ from a spec and confirms it.
The spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python, after common.py)
and optionally FILES {name: text}. plant.py --verify ID re-confirms; plant.py --checks ID P.. runs checks on it."""
import json, os, shutil, subprocess, sys
V = "/verif"
W = "/tmp/plant"
GO = "/opt/veriftools/go1.27.3/bin"
ENV = dict(os.environ, PATH=GO + ":" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", HOME="/root")


def sh(cmd, cwd=None, env=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh("cp -a /repo %s/repo && git -C %s/repo checkout -q -- ." % (W, W))


def verify(i, d):
    r = W + "/repo"
    p = sh("bash %s/demo.sh" % d, cwd=r, timeout=300)
    if p.returncode != 0:
        return "demo fails on the unchanged tree: " + p.stdout[-2000:]
    p = sh("git apply %s/patch.diff" % d, cwd=r)
    if p.returncode:
        return "patch: " + p.stdout
    p = sh("gofmt -l .", cwd=r + "/client")
    if p.stdout.strip():
        print("note: gofmt", p.stdout)
    p = sh("go build ./... && go vet ./model ./parser >/dev/null 2>&1; go build ./...", cwd=r + "/client")
    if p.returncode:
        return "build: " + p.stdout[-2000:]
    sh("go test -json -vet=off -count=1 ./... > %s/t.json" % W, cwd=r + "/client")
    passed = set()
    for l in open(W + "/t.json"):
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "/" + e["Test"])
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = base - passed
    if miss:
        return "tests fail: %s" % sorted(miss)[:5]
    p = sh("bash %s/demo.sh" % d, cwd=r, timeout=300)
    if p.returncode == 0:
        return "demo passes with the change: " + p.stdout[-1000:]
    print("  demo: " + p.stdout.strip()[-300:])
    return ""


def checks(i, props):
    r = W + "/repo"
    for pr in props:
        p = sh("python3 check.py %s quick" % pr, cwd=V, env=dict(os.environ, VP_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print("  check %s: rc=%d %s" % (pr, p.returncode, "CAUGHT " + p.stdout[:300].replace("\n", " ") if v else "MISSED " + p.stdout[-300:]))


def main():
    a = sys.argv[1:]
    if a[0] == "--checks":
        fresh()
        sh("git apply %s/seeded/%s/patch.diff" % (V, a[1]), cwd=W + "/repo")
        return checks(a[1], a[2:] or [json.load(open("%s/seeded/%s/meta.json" % (V, a[1])))["property"]])
    if a[0] == "--verify":
        for i in a[1:]:
            fresh()
            print(i, verify(i, V + "/seeded/" + i) or "ok")
        return
    for spec in a:
        n = {}
        exec(open(spec).read(), n)
        fresh()
        r = W + "/repo"
        bad = ""
        for f, old, new in n["EDITS"]:
            s = open(r + "/client/" + f).read()
            if s.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(old), old)
                break
            open(r + "/client/" + f, "w").write(s.replace(old, new))
        if bad:
            print(n["ID"], bad)
            continue
        d = W + "/" + n["ID"]
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=r, text=True, capture_output=True).stdout)
        sh("git checkout -q -- .", cwd=r)
        shutil.copy(V + "/tools/demo/common.py", d)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom common import *\n\n" + n["DEMO"].strip() + "\nprint(\"ok\")\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        for k, t in n.get("FILES", {}).items():
            open(d + "/" + k, "w").write(t)
        json.dump({"property": n["PROPERTY"], "needs": n["NEEDS"], "what_it_breaks": n["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        e = verify(n["ID"], d)
        print(n["ID"], e or "confirmed")
        if not e:
            t = V + "/seeded/" + n["ID"]
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
            checks(n["ID"], [n["PROPERTY"]] + n.get("ALSO", []))


main()
