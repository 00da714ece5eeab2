# A stand-in for a player process: records the OSC messages it is sent.
import socket, struct, threading
from common import alda, check


def string(b, i):
    j = b.index(b"\0", i)
    return b[i:j].decode(), j // 4 * 4 + 4


def decode(b):
    if b[:8] == b"#bundle\0":
        out, i = [], 16
        while i < len(b):
            n = struct.unpack(">i", b[i:i + 4])[0]
            out += decode(b[i + 4:i + 4 + n])
            i += 4 + n
        return out
    addr, i = string(b, 0)
    args = []
    if i < len(b):
        tags, i = string(b, i)
        for t in tags[1:]:
            if t == "s":
                v, i = string(b, i)
            else:
                v = struct.unpack(">" + t, b[i:i + 4])[0]
                i += 4
            args.append(v)
    return [(addr, tuple(args))]


class Player:
    """Listens on a port; messages holds what came in, in order."""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(50)
        self.port = self.s.getsockname()[1]
        self.messages = []
        self.idle = threading.Condition()
        self.open = 0
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            c, _ = self.s.accept()
            with self.idle:
                self.open += 1
            b = b""
            while True:
                d = c.recv(65536)
                if not d:
                    break
                b += d
            c.close()
            with self.idle:
                if b:
                    self.messages += decode(b)
                self.open -= 1
                self.idle.notify_all()


def played(text, *args):
    """The messages sent for a score, without the play and shutdown orders."""
    p = Player()
    code, out, err = alda("play", "-p", str(p.port), "-c", text, *args)
    check(code == 0, "alda play failed: " + err)
    import time
    for _ in range(100):
        if any(m[0] == "/system/shutdown" for m in p.messages):
            break
        time.sleep(0.05)
    return [m for m in p.messages if m[0] not in ("/system/play", "/system/shutdown")]
