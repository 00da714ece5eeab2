# Builds alda from the current directory (a checkout of its repository) into a
# scratch folder and offers helpers to run it. Nothing outside that folder is
# written, apart from Go's build cache.
import atexit, json, os, shutil, subprocess, sys, tempfile

TMP = tempfile.mkdtemp(prefix="alda-demo-")
atexit.register(shutil.rmtree, TMP, True)
REPO = os.getcwd()
GO = next((g for g in ("/opt/veriftools/go1.27.3/bin/go", shutil.which("go")) if g and os.path.exists(g)), "go")
ENV = dict(os.environ, HOME=TMP, XDG_CONFIG_HOME=TMP + "/config", XDG_CACHE_HOME=TMP + "/cache",
           XDG_DATA_HOME=TMP + "/data", ALDA_DISABLE_TELEMETRY="yes", ALDA_DISABLE_SPAWNING="yes", NO_COLOR="1")


def build():
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
    env.setdefault("HOME", "/root")
    version = TMP + "/version.go"
    open(version, "w").write('package generated\n\nconst ClientVersion = "%s"\n' % open(REPO + "/VERSION").read().strip())
    overlay = TMP + "/overlay.json"
    json.dump({"Replace": {REPO + "/client/generated/version.go": version}}, open(overlay, "w"))
    subprocess.run([GO, "build", "-overlay", overlay, "-o", TMP + "/alda", "."], cwd=REPO + "/client", env=env, check=True)


build()


def alda(*args, stdin="", env=None, cwd=None):
    p = subprocess.run([TMP + "/alda"] + list(args), input=stdin, text=True, capture_output=True,
                       env=dict(ENV, **(env or {})), cwd=cwd or TMP, timeout=60)
    return p.returncode, p.stdout, p.stderr


def parse(text, out="data"):
    code, so, se = alda("parse", "-o", out, "-c", text)
    if code != 0:
        return None, se
    return json.loads(so), se


def notes(text):
    """The notes of a score as (part, midi note, offset, audible length, volume)."""
    score, err = parse(text)
    if score is None:
        return None
    names = {k: v["name"] for k, v in score["parts"].items()}
    return sorted((names[e["part"]], e["midi-note"], round(e["offset"], 3), round(e["audible-duration"], 3),
                   round(e["volume"], 3)) for e in score["events"] or [])


def same(a, b, what):
    if a != b:
        print("DIFFERENT: %s\n  %s\n  %s" % (what, a, b))
        sys.exit(1)


def check(ok, what):
    if not ok:
        print("WRONG: " + what)
        sys.exit(1)
