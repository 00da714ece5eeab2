#!/usr/bin/env python3
"""mutate.py COUNT SEED LANES OUT FILE-PREFIX.. [-- PROPS..]: plants COUNT random small changes in the given
files of scratch copies of /repo and says which of the checks notice them (one worker, reduced scale).
Results (one JSON line per change) go to OUT. Not part of any check; for finding what the checks miss."""
import collections, json, os, random, shutil, subprocess, sys, threading, time
sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
import check
HERE = os.path.dirname(os.path.abspath(__file__))
W = os.environ.get("MUT_DIR", "/tmp/mutw")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", HOME="/root")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SCALE = os.environ.get("MUT_SCALE", "1")
NW = int(os.environ.get("MUT_WORKERS", "1"))
BUDGET = os.environ.get("MUT_BUDGET", "60")


def sh(cmd, cwd, timeout=300):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, "timeout")


lock = threading.Lock()
wins = collections.defaultdict(collections.Counter)


class Lane:
    def __init__(self, n):
        self.n, self.dir = n, "%s/%d" % (W, n)
        os.makedirs(self.dir)
        sh("cp -a /repo %s/repo" % self.dir, "/")

    def one(self, m, props):
        client = self.dir + "/repo/client/"
        src = open(client + m["File"], "rb").read()
        new = src[:m["Start"]] + m["New"].encode() + src[m["End"]:]
        open(client + m["File"], "wb").write(new)
        try:
            return self.judge(m, props)
        finally:
            open(client + m["File"], "wb").write(src)

    def judge(self, m, props):
        client = self.dir + "/repo/client"
        if sh("go build ./...", client).returncode:
            return "no build", ""
        p = sh("go test -json -vet=off -count=1 ./...", client, 120)
        passed = set()
        for l in p.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                passed.add(e["Package"] + "/" + e["Test"])
        if BASE - passed:
            return "tests", ""
        built = {}
        with lock:
            order = sorted(props, key=lambda p: (-wins[m["File"]][p], random.random()))
        odd = []
        for prop in order:
            pkg, binary = check.REG[prop][:2]
            build = "%s/b-%s" % (self.dir, pkg)
            if pkg not in built:
                built[pkg] = self.prepare(build, pkg, binary)
                if built[pkg]:
                    return "harness", built[pkg][-300:]
            r = self.run(build, prop)
            if r[0] == "caught":
                with lock:
                    wins[m["File"]][prop] += 1
                return "caught", prop + " " + r[1][:300]
            if r[0] != "quiet":
                odd.append(prop + ": " + r[1][-200:])
        return ("odd", "; ".join(odd)) if odd else ("SURVIVED", "")

    def prepare(self, build, pkg, binary):
        # check.py's functions work on module globals, so this runs in a process of its own.
        code = "import sys; sys.path.insert(0, '/verif'); import check\ntry:\n check.prepare(%r); check.dirs(%r); check.compile_all(%r, %r, %r)\nexcept check.Infra as e:\n print(e); sys.exit(1)\n" % (build, build, build, pkg, binary)
        p = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, VP_REPO=self.dir + "/repo"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return "" if p.returncode == 0 else p.stdout or "?"

    def run(self, build, prop):
        procs, outs = [], []
        for w in range(NW):
            out = "%s/%s-%d.json" % (build, prop, w)
            if os.path.exists(out):
                os.remove(out)
            extra = {"VP_WORKER": str(w), "VP_WORKERS": str(NW), "VP_OUT": out, "VP_JOURNAL": build + "/j%d" % w, "VP_BUDGET": BUDGET, "VP_REGRESS": "/nowhere", "VP_SCALE": SCALE}
            procs.append(check.start(build, check.worker_env(build, prop, "quick", str(self.n + 1), extra), "%s/log%d" % (build, w)))
            outs.append(out)
        codes = check.finish(procs, 240)
        for w in range(NW):
            try:
                r = json.load(open(outs[w]))
            except (OSError, ValueError):
                return ("caught", "worker died") if codes[w] not in (None, 7, 8) else ("odd", "exit %s %s" % (codes[w], check.tail("%s/log%d" % (build, w), 300)))
            if r["violations"]:
                return "caught", r["violations"][0].get("error", "")
        return "quiet", ""


def main():
    a = sys.argv[1:]
    props = sorted(check.REG)
    if "--" in a:
        props = a[a.index("--") + 1:]
        a = a[:a.index("--")]
    count, seed, lanes, out, pre = int(a[0]), int(a[1]), int(a[2]), a[3], a[4:]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh("cp %s/main.go . && printf 'module mut\\ngo 1.19\\n' > go.mod && go build -o mut ." % HERE, W)
    files = [f for f in sh("git ls-files '*.go'", "/repo/client").stdout.split() if not f.endswith("_test.go") and "test_helper" not in f and any(f.startswith(p) for p in pre)]
    ms = json.loads(subprocess.run([W + "/mut"] + files, cwd="/repo/client", text=True, capture_output=True).stdout)
    random.seed(seed)
    random.shuffle(ms)
    ms = ms[:count]
    it = iter(ms)
    stats = collections.Counter()

    def work(n):
        lane = Lane(n)
        while True:
            with lock:
                m = next(it, None)
            if m is None or os.path.exists(W + "/stop"):
                return
            t = time.time()
            try:
                res, why = lane.one(m, props)
            except Exception as e:
                res, why = "error", repr(e)
            with lock:
                stats[res] += 1
                open(out, "a").write(json.dumps(dict(m, res=res, why=why, t=round(time.time() - t, 1))) + "\n")

    ts = [threading.Thread(target=work, args=(n,)) for n in range(lanes)]
    for t in ts:
        t.start()
        time.sleep(1)
    for t in ts:
        t.join()
    print(dict(stats))
    shutil.rmtree(W, ignore_errors=True)


main()
