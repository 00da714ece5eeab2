# Types lines at the prompt of a session's server.
import atexit, subprocess
from common import ENV, TMP, check


class Prompt:
    def __init__(self, session, cwd=TMP):
        self.p = subprocess.Popen([TMP + "/alda", "repl", "--client", "--port", str(session.port)], cwd=cwd, env=ENV, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        self.n = 0
        atexit.register(self.p.kill)
        self.p.stdin.flush()

    def do(self, line):
        """What is printed until the prompt takes another line."""
        self.n += 1
        mark = "mark%d" % self.n
        self.p.stdin.write("%s\n:help %s\n" % (line, mark))
        self.p.stdin.flush()
        out = ""
        for l in self.p.stdout:
            if "'%s'" % mark in l:
                return out
            out += l
        check(False, "the prompt ended: " + out)
