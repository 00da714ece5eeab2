"""Runs Alda's WebAssembly module in node."""
import json, os, subprocess, tempfile, shutil
REPO = os.getcwd()
DRIVER = r'''
const fs = require("fs");
globalThis.require = require; globalThis.fs = fs; globalThis.path = require("path");
require(process.argv[1]);
const calls = JSON.parse(fs.readFileSync(0));
const go = new Go();
WebAssembly.instantiate(fs.readFileSync(process.argv[2]), go.importObject).then(async r => {
  go.run(r.instance);
  const got = [];
  for (const [kind, text] of calls) {
    try { got.push(await Alda.toOSCBytes(text)); } catch (e) { got.push("error: " + e.message); }
  }
  console.log(JSON.stringify(got.map(b => b instanceof Uint8Array ? Buffer.from(b).toString("hex") : b)));
  process.exit(0);
});
'''


class Page:
    wasm = None

    def run(self, calls):
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOOS="js", GOARCH="wasm")
        d = tempfile.mkdtemp()
        try:
            if Page.wasm is None:
                subprocess.run(["go", "build", "-o", d + "/alda.wasm", "./wasm"], cwd=REPO + "/client", env=env, check=True)
                Page.wasm = open(d + "/alda.wasm", "rb").read()
            open(d + "/alda.wasm", "wb").write(Page.wasm)
            root = subprocess.run(["go", "env", "GOROOT"], cwd=REPO + "/client", text=True, capture_output=True).stdout.strip()
            for x in ("/lib/wasm/wasm_exec.js", "/misc/wasm/wasm_exec.js"):
                if os.path.exists(root + x):
                    js = root + x
            o = subprocess.run(["node", "-e", DRIVER, js, d + "/alda.wasm"], input=json.dumps(calls), text=True, capture_output=True, timeout=120)
            if not o.stdout.startswith("["):
                raise SystemExit("node: " + o.stdout + o.stderr)
            # what comes after the time of the bundle
            return [x[32:] if x.startswith("2362") else x for x in json.loads(o.stdout)]
        finally:
            shutil.rmtree(d)
