# Runs an interactive server with stand-in players, all in the scratch folder.
import atexit, json, os, socket, subprocess, time
from common import ENV, REPO, TMP, check
from player import Player


def enc(x):
    if isinstance(x, dict):
        return b"d" + b"".join(enc(k) + enc(x[k]) for k in sorted(x)) + b"e"
    if isinstance(x, list):
        return b"l" + b"".join(map(enc, x)) + b"e"
    if isinstance(x, int):
        return b"i%de" % x
    b = x if isinstance(x, bytes) else x.encode()
    return b"%d:%s" % (len(b), b)


class Conn:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port))
        self.s.settimeout(45)
        self.b = b""

    def close(self):
        self.s.close()

    def need(self, n):
        while len(self.b) < n:
            d = self.s.recv(65536)
            if not d:
                raise EOFError("connection closed")
            self.b += d

    def take(self, n):
        self.need(n)
        r, self.b = self.b[:n], self.b[n:]
        return r

    def until(self, c):
        r = b""
        while not r.endswith(c):
            r += self.take(1)
        return r[:-1]

    def value(self):
        c = self.take(1)
        if c == b"d":
            r = {}
            while True:
                k = self.value()
                if k is None:
                    return r
                r[k] = self.value()
        if c == b"l":
            r = []
            while True:
                v = self.value()
                if v is None:
                    return r
                r.append(v)
        if c == b"e":
            return None
        if c == b"i":
            return int(self.until(b"e"))
        return self.take(int(c + self.until(b":"))).decode("utf-8", "replace")

    def send(self, **msg):
        self.s.sendall(enc(msg))

    def ask(self, **msg):
        self.send(**msg)
        return self.value()


class Session:
    """A server and its players. players[i].messages is what they were sent."""

    def __init__(self, players=1):
        version = open(REPO + "/VERSION").read().strip()
        self.dir = TMP + "/cache/alda/state/players/" + version
        os.makedirs(self.dir, exist_ok=True)
        os.makedirs(TMP + "/server", exist_ok=True)
        self.players = []
        for i in range(players):
            self.player()
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.p = subprocess.Popen([TMP + "/alda", "repl", "--server", "--port", str(self.port)], cwd=TMP + "/server",
                                  env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        atexit.register(self.p.kill)
        for _ in range(200):
            try:
                self.c = Conn(self.port)
                return
            except OSError:
                time.sleep(0.05)
        check(False, "the server didn't start")

    def player(self):
        p = Player()
        p.id = "p%02d" % len(self.players)
        self.players.append(p)
        self.state(p, "ready")
        return p

    def state(self, p, state):
        f = "%s/%s.json" % (self.dir, p.id)
        json.dump({"state": state, "port": p.port, "expiry": int(time.time() * 1000) + 600000, "pid": os.getpid()}, open(f + ".tmp", "w"))
        os.replace(f + ".tmp", f)

    def ok(self, **msg):
        r = self.c.ask(**msg)
        check(r.get("status") == ["done"], "%s: %s" % (msg, r))
        return r

    def rejected(self, **msg):
        r = self.c.ask(**msg)
        check("error" in r.get("status", []), "%s: %s" % (msg, r))
        return r

    def score(self):
        return json.loads(self.ok(op="score-data")["data"])

    def notes(self, n, player=None):
        """Waits for n note messages of a player: (track, offset, note, audible length)."""
        p = player or self.players[0]
        end = time.time() + 10
        while True:
            with p.idle:
                l = [m for m in p.messages if m[0].endswith("/midi/note")]
            if len(l) >= n or time.time() > end:
                return [(m[0].split("/")[2], m[1][1], m[1][2], m[1][4]) for m in l]
            time.sleep(0.02)
