# A recording stand-in for the alda-player program.
import os, time


class Stub:
    """Puts an alda-player below a directory; env() is what makes alda use it."""

    def __init__(self, dir, info):
        self.dir = dir
        os.makedirs(dir + "/bin")
        open(dir + "/log", "w").close()
        with open(dir + "/info", "w") as f:
            f.write(info)
        with open(dir + "/bin/alda-player", "w") as f:
            f.write("#!/bin/sh\nif [ \"$1\" = info ]; then cat '%s/info'; else echo \"$*\" >> '%s/log'; fi\n" % (dir, dir))
        os.chmod(dir + "/bin/alda-player", 0o755)

    def env(self):
        return {"PATH": self.dir + "/bin:" + os.environ["PATH"], "ALDA_DISABLE_SPAWNING": "no"}

    def started(self, n):
        """How many players have been started, once it is n (or not, after some time)."""
        for i in range(100):
            if len(open(self.dir + "/log").readlines()) >= n:
                break
            time.sleep(0.05)
        time.sleep(0.5)
        return len(open(self.dir + "/log").readlines())


def record(cache, version, id, state, port):
    d = cache + "/alda/state/players/" + version
    os.makedirs(d, exist_ok=True)
    f = d + "/" + id + ".json"
    with open(f, "w") as o:
        o.write('{"state":"%s","port":%d,"expiry":1,"pid":2}' % (state, port))
    return f
