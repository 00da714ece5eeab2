#!/usr/bin/env python3
"""reverts.py OUT [COMMIT..]: undoes each repair of /repo, one at a time, in a scratch copy, and runs the checks
of its properties (tools/fixes.json), to see that a defect is reported again if it returns. Saves the replays of
the packages that are deterministic as regression cases."""
import glob, json, os, shutil, subprocess, sys
V, W = "/verif", "/tmp/reverts"
G = {"PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOSUMDB": "off"}


def sh(c, cwd, **env):
    return subprocess.run(c, shell=True, cwd=cwd, env=dict(os.environ, **dict(G, **env)), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")


fixes = json.load(open(V + "/tools/fixes.json"))
out, only = sys.argv[1], sys.argv[2:]
for f in fixes:
    c = f["commit"]
    if only and c not in only:
        continue
    shutil.rmtree(W, ignore_errors=True)
    sh("cp -a /repo " + W, "/")
    r = {"commit": c, "what": f["what"]}
    if sh("git -c user.name=x -c user.email=x@x revert --no-commit " + c, W).returncode:
        r["res"] = "conflict"
    elif sh("go build ./...", W + "/client").returncode:
        r["res"] = "no build"
    else:
        r["res"] = {}
        for p in f["properties"]:
            for x in glob.glob(V + "/build/replays/%s-*" % p):
                os.remove(x)
            o = sh("python3 -B check.py %s quick" % p, V, VP_REPO=W, VERIF_SEED="1")
            v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
            r["res"][p] = "reported" if v and o.returncode == 1 else "MISSED rc=%d" % o.returncode
            if v and int(p[1:]) in list(range(1, 24)) + [27, 28]:
                d = V + "/regress/" + p
                os.makedirs(d, exist_ok=True)
                best = min((l.split("replay=")[1] for l in v), key=os.path.getsize)
                case = json.load(open(best))
                json.dump({k: case[k] for k in ("property", "sub", "case")}, open("%s/%s.json" % (d, c), "w"), indent=1)
    open(out, "a").write(json.dumps(r) + "\n")
    print(r, flush=True)
shutil.rmtree(W, ignore_errors=True)
