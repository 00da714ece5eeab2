#!/usr/bin/env python3
"""check.py ID quick|thorough        decide one property
check.py ID replay FILE           replay one case; exit 1 if it still fails
check.py setup                    sanity check of the toolchain
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CLIENT = os.path.join(REPO, "client")
GO = "/opt/veriftools/go1.27.3/bin/go"
MODCACHE = "/root/go/pkg/mod"
RAPID = MODCACHE + "/pgregory.net/rapid@v1.3.0"

# property: (package, needs the alda program, quick workers, thorough workers, quick budget s, thorough budget s)
REG = {}


def reg(ids, pkg, binary, qw, tw, qb, tb):
    for i in ids:
        REG[i] = (pkg, binary, qw, tw, qb, tb)


reg(["P%02d" % i for i in range(1, 21)], "plang", False, 4, 8, 60, 600)
reg(["P21", "P22", "P23"], "pxmit", False, 4, 8, 60, 600)
reg(["P27", "P28"], "pimp", False, 4, 8, 60, 600)
reg(["P24", "P25", "P26", "P29", "P30", "P31", "P32", "P33", "P34", "P35", "P36", "P37"], "pbin", True, 12, 16, 100, 600)


class Infra(Exception):
    pass


def go_env(build):
    env = dict(os.environ)
    env.update({
        "PATH": os.path.dirname(GO) + ":" + env.get("PATH", "/usr/bin:/bin"),
        "HOME": env.get("HOME") or "/root",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GO111MODULE": "on", "GOWORK": "off", "GOSUMDB": "off",
        "GOPATH": "/root/go", "GOMODCACHE": MODCACHE,
        "GOCACHE": env.get("VP_GOCACHE", "/root/.cache/go-build"),
        "GOFLAGS": "-mod=mod -modfile=%s/client.mod" % build,
    })
    for k in ("GODEBUG", "GOEXPERIMENT", "GOTMPDIR", "VERIF_TRACE"):
        env.pop(k, None)
    return env


def prepare(build):
    """Lay the harness, the version file and rapid into alda's module."""
    if os.path.isdir(build):
        shutil.rmtree(build)
    os.makedirs(build)
    # rapid's go.mod asks for a newer language version than alda's, which would
    # change how alda itself is compiled; so a copy keeps the version per file.
    rap = os.path.join(build, "rapid")
    os.makedirs(rap)
    for f in glob.glob(RAPID + "/*.go"):
        if f.endswith("_test.go"):
            continue
        s = open(f).read()
        tag = re.search(r"^//go:build (.*)$", s, re.M)
        if tag:
            s = s.replace(tag.group(0), "//go:build (%s) && go1.23" % tag.group(1), 1)
        else:
            s = "//go:build go1.23\n\n" + s
        with open(os.path.join(rap, os.path.basename(f)), "w") as o:
            o.write(s)
    with open(rap + "/go.mod", "w") as o:
        o.write("module pgregory.net/rapid\n\ngo 1.19\n")
    mod = open(CLIENT + "/go.mod").read()
    mod += "\nrequire pgregory.net/rapid v1.3.0\n\nreplace pgregory.net/rapid => %s\n" % rap
    open(build + "/client.mod", "w").write(mod)
    shutil.copy(CLIENT + "/go.sum", build + "/client.sum")
    version = open(REPO + "/VERSION").read().strip()
    open(build + "/version.go", "w").write(
        "package generated\n\nconst ClientVersion = %s\n" % json.dumps(version))
    replace = {CLIENT + "/generated/version.go": build + "/version.go"}
    src = VERIF + "/harness/zzverif"
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".go"):
                p = os.path.join(root, f)
                replace[CLIENT + "/zzverif/" + os.path.relpath(p, src)] = p
    json.dump({"Replace": replace}, open(build + "/overlay.json", "w"), indent=1)


def run_go(build, args, what, env=None):
    p = subprocess.run([GO] + args, cwd=CLIENT, env=env or go_env(build),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Infra("cannot build %s:\n%s" % (what, p.stdout[-6000:]))


def compile_all(build, pkg, binary, prop=""):
    ov = "-overlay=" + build + "/overlay.json"
    run_go(build, ["test", "-c", "-vet=off", ov, "-o", build + "/harness", "./zzverif/" + pkg], "the harness " + pkg)
    if binary:
        run_go(build, ["build", ov, "-o", build + "/alda", "."], "alda")
    if prop == "P34":
        narrow = dict(go_env(build), GOARCH="386", CGO_ENABLED="0")
        run_go(build, ["build", ov, "-o", build + "/alda386", "."], "alda for 386", narrow)
        wasm = dict(go_env(build), GOOS="js", GOARCH="wasm", CGO_ENABLED="0")
        run_go(build, ["build", ov, "-o", build + "/alda.wasm", "./wasm"], "alda for WebAssembly", wasm)


def worker_env(build, prop, tier, seed, extra):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": build + "/home", "LANG": "C.UTF-8", "TERM": "dumb", "NO_COLOR": "1", "GOTRACEBACK": "single",
        "TMPDIR": build + "/tmp",
        "VP_PROP": prop, "VP_TIER": tier, "VP_SEED": str(seed), "VP_DIR": build,
        "ALDA_DISABLE_TELEMETRY": "yes", "ALDA_DISABLE_SPAWNING": "yes",
        "XDG_CACHE_HOME": build + "/home/.cache", "XDG_CONFIG_HOME": build + "/home/.config",
        "XDG_DATA_HOME": build + "/home/.local/share",
    }
    if os.path.exists(build + "/alda"):
        env["VP_ALDA"] = build + "/alda"
    if os.path.exists(build + "/alda.wasm"):
        env.update({"VP_ALDA386": build + "/alda386", "VP_WASM": build + "/alda.wasm",
                    "VP_WASM_EXEC": os.path.dirname(os.path.dirname(GO)) + "/lib/wasm/wasm_exec.js"})
    env.update(extra)
    return env


def start(build, env, log):
    return subprocess.Popen([build + "/harness", "-test.run", "^TestVP$", "-test.timeout", "0", "-test.count", "1"],
                            cwd=build + "/tmp", env=env, stdin=subprocess.DEVNULL,
                            stdout=open(log, "wb"), stderr=subprocess.STDOUT, start_new_session=True)


def finish(procs, limit):
    """Wait for workers; end those that are over the limit. Returns exit codes."""
    end = time.time() + limit
    codes = []
    for p in procs:
        try:
            codes.append(p.wait(timeout=max(0.1, end - time.time())))
        except subprocess.TimeoutExpired:
            codes.append(None)
    for p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    for p in procs:
        try:
            p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            pass
    return codes


def known_findings():
    out = []
    try:
        for line in open(VERIF + "/known-findings.jsonl"):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    except FileNotFoundError:
        pass
    return out


def tail(path, n=4000):
    try:
        b = open(path, "rb").read()
        return b[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def replay_one(build, prop, tier, path, tag, limit=400):
    out = "%s/replay-%s.json" % (build, tag)
    log = "%s/replay-%s.log" % (build, tag)
    if os.path.exists(out):
        os.remove(out)
    env = worker_env(build, prop, tier, 1, {"VP_REPLAY": path, "VP_OUT": out, "VP_WORKER": "r" + tag})
    codes = finish([start(build, env, log)], limit)
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = None
    return codes[0], r, log


def save_replay(prop, v):
    d = VERIF + "/build/replays"
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, "sub": v["sub"], "error": v.get("error", ""),
                       "show": v.get("show", ""), "kind": v.get("kind", ""), "case": v["case"]}, indent=1)
    h = hashlib.sha1(json.dumps([v["sub"], v["case"]], sort_keys=True).encode()).hexdigest()[:10]
    path = "%s/%s-%s-%s.json" % (d, prop, v["sub"], h)
    open(path, "w").write(body)
    return path


def dirs(build):
    for d in ("/home/.cache", "/home/.config", "/home/.local/share", "/tmp"):
        os.makedirs(build + d, exist_ok=True)


def check(prop, tier):
    t0 = time.time()
    pkg, binary, qw, tw, qb, tb = REG[prop]
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    build = "%s/build/%s-%s" % (VERIF, prop, tier)
    prepare(build)
    dirs(build)
    compile_all(build, pkg, binary, prop)
    t_built = time.time()
    workers, budget = (qw, qb) if tier == "quick" else (tw, tb)
    workers = int(os.environ.get("VP_NWORKERS", workers))
    budget = int(os.environ.get("VP_BUDGET", budget))
    procs, outs, logs, journals = [], [], [], []
    for w in range(workers):
        out, log, j = ("%s/w%d.%s" % (build, w, x) for x in ("json", "log", "journal"))
        extra = {"VP_WORKER": str(w), "VP_WORKERS": str(workers), "VP_OUT": out, "VP_JOURNAL": j,
                 "VP_BUDGET": str(budget), "VP_REGRESS": VERIF + "/regress/" + prop}
        if tier == "quick" and pkg in ("plang", "pxmit"):
            extra["VP_SCALE"] = "6"
        elif tier == "quick" and pkg == "pimp":
            extra["VP_SCALE"] = "3"
        for k in ("VP_SUB", "VP_SCALE", "VP_MAXCPU"):
            if k in os.environ:
                extra[k] = os.environ[k]
        procs.append(start(build, worker_env(build, prop, tier, seed, extra), log))
        outs.append(out), logs.append(log), journals.append(j)
    codes = finish(procs, budget * 2 + 240)
    infra, violations, results = [], [], []
    for w in range(workers):
        try:
            r = json.load(open(outs[w]))
        except (OSError, ValueError):
            r = None
        if r is not None and codes[w] == 0 and (r["done"] or r["violations"]):
            results.append(r)
            violations += r["violations"]
            continue
        if codes[w] is None:
            infra.append("worker %d did not finish in time" % w)
            continue
        if codes[w] in (7, 8):
            infra.append("worker %d: %s" % (w, tail(logs[w])))
            continue
        # The worker died. If the case it was evaluating kills it again, alone,
        # then that is alda's doing.
        try:
            jr = json.load(open(journals[w]))
        except (OSError, ValueError):
            infra.append("worker %d died (%s): %s" % (w, codes[w], tail(logs[w])))
            continue
        path = "%s/crash%d.json" % (build, w)
        json.dump({"property": prop, "sub": jr["sub"], "case": jr["case"]}, open(path, "w"))
        code, r2, log2 = replay_one(build, prop, tier, path, "crash%d" % w)
        if r2 is not None and r2.get("violations"):
            violations += r2["violations"]
        elif code is not None and code not in (0, 7, 8, -signal.SIGKILL, -signal.SIGTERM) and code != 1:
            violations.append({"sub": jr["sub"], "case": jr["case"], "kind": "crash",
                               "error": "the process died: " + tail(log2, 1500)})
        elif code == 1 and "zzverif" not in tail(log2, 200):
            infra.append("worker %d died (%s): %s" % (w, codes[w], tail(logs[w])))
        else:
            infra.append("worker %d died (%s), not reproduced: %s" % (w, codes[w], tail(logs[w])))

    # Merge coverage.
    subs = {}
    for r in results:
        for s in r["subs"]:
            m = subs.setdefault(s["sub"], {"evaluations": 0, "nontrivial": 0, "hashes": set(), "labels": {},
                                           "samples": [], "truncated": False, "unconfirmed": 0})
            m["evaluations"] += s["evaluations"]
            m["nontrivial"] += s["nontrivial"]
            m["hashes"] |= set(s["hashes"] or [])
            m["truncated"] |= bool(s.get("truncated"))
            m["unconfirmed"] += len(s.get("unconfirmed") or [])
            for k, n in (s["labels"] or {}).items():
                m["labels"][k] = m["labels"].get(k, 0) + n
            for x in s["samples"] or []:
                if len(m["samples"]) < 3:
                    m["samples"].append(x)
    regress = sum(r.get("regress", 0) for r in results)
    rules = {}
    try:
        rules = json.load(open(VERIF + "/harness/rules.json"))
    except OSError:
        pass

    # Verdict: distinct failing cases that are not listed as known findings.
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "known"]
    fresh, seen_known, seen = [], {}, set()
    for v in violations:
        key = json.dumps([v["sub"], v["case"]], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        match = None
        for k in known:
            if k.get("sub") == v["sub"] and k.get("case") == v["case"]:
                match = k
        if match:
            seen_known[match["id"]] = match
        else:
            fresh.append(v)

    samples = []
    for name, m in sorted(subs.items()):
        samples += ["[%s] %s" % (name, x) for x in m["samples"][:2]]
    distinct = sum(len(m["hashes"]) for m in subs.values())
    evidence = {
        "property": prop, "tier": tier, "seed": int(seed) if seed.lstrip("-").isdigit() else 1,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in subs.values()),
            "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (n, rules.get(prop, {}).get(n, "see DESIGN.md")) for n in sorted(subs)),
            "samples": samples[:12],
            "subchecks": {n: {"evaluations": m["evaluations"], "nontrivial": m["nontrivial"],
                              "distinct_nontrivial": len(m["hashes"]), "labels": m["labels"],
                              "budget_exhausted": m["truncated"], "unconfirmed": m["unconfirmed"]}
                          for n, m in sorted(subs.items())},
            "regression_cases": regress,
            "workers": workers,
        },
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_built - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = "%s/evidence/.%s.json.tmp" % (VERIF, prop)
    json.dump(evidence, open(tmp, "w"), indent=1)
    os.replace(tmp, "%s/evidence/%s.json" % (VERIF, prop))

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for v in fresh:
        path = save_replay(prop, v)
        print("  %s: %s" % (v["sub"], (v.get("error") or "").split("\n")[0][:500]))
        if v.get("show"):
            print("  case: %s" % v["show"][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d cases, %d distinct non-trivial, %d regression cases, %d violations, %.1f s" % (
        prop, tier, evidence["coverage"]["evaluations"], distinct, regress, len(fresh), time.time() - t0))
    if os.environ.get("VP_KEEP") != "1":
        shutil.rmtree(build, ignore_errors=True)
    if fresh:
        return 1
    if infra:
        print("ERROR (no verdict): " + "\n".join(infra), file=sys.stderr)
        return 2
    if evidence["coverage"]["evaluations"] == 0:
        print("ERROR: nothing was evaluated", file=sys.stderr)
        return 2
    return 0


def replay(prop, path):
    pkg, binary, *_ = REG[prop]
    build = "%s/build/%s-replay" % (VERIF, prop)
    prepare(build)
    dirs(build)
    compile_all(build, pkg, binary, prop)
    code, r, log = replay_one(build, prop, "quick", os.path.abspath(path), "0")
    if r is not None and r["done"] and not r["violations"]:
        print("holds for this case")
        return 0
    if r is not None and r["violations"]:
        v = r["violations"][0]
        print("  %s: %s" % (v["sub"], v["error"]))
        if v.get("show"):
            print("  case: %s" % v["show"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print(tail(log), file=sys.stderr)
    if code not in (None, 0, 7, 8, -9, -15):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 2


def setup():
    build = VERIF + "/build/setup"
    prepare(build)
    compile_all(build, "plang", False)
    shutil.rmtree(build, ignore_errors=True)
    print("ok")
    return 0


def main():
    try:
        if sys.argv[1:] == ["setup"]:
            return setup()
        prop, tier = sys.argv[1], sys.argv[2]
        if tier == "replay":
            return replay(prop, sys.argv[3])
        return check(prop, tier)
    except Infra as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
