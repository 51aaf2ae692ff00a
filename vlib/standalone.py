"""The stand-alone web server of the repository, run in a forked process on a loopback address of its own, with its clock in a file."""
import ctypes
import os
import runpy
import shutil
import signal
import socket
import sys
import tempfile

from . import server
from .content import scratch
from .runner import Violation

PORT = 8059
NAME = "srv.test"


class FileClock:
    "The time in seconds is the second word of a file; the first one changes with every request."
    slept = 0.0
    nsleeps = 0

    def __init__(self, path):
        self.path = path
        self.word = None
        self.adv = 0.0

    def base(self):
        with open(self.path) as f:
            word, t = f.read().split()
        if word != self.word:
            self.word, self.adv = word, 0.0
        return float(t)

    @property
    def now(self):
        return self.base() + self.adv

    @now.setter
    def now(self, v):
        self.adv = v - self.base()


class Server:
    def __init__(self, content):
        self.dir = tempfile.mkdtemp(dir=scratch())
        self.clock = os.path.join(self.dir, "clock")
        self.n = 0
        self.set(0)
        pid = os.getpid()
        self.addr = "127.%d.%d.%d" % (1 + pid // 62500 % 250, 1 + pid // 250 % 250, 1 + pid % 250)
        with socket.socket() as s:      # An OSError here is a problem of the environment
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((self.addr, PORT))
        m = server.load()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.child(m, content)
            finally:
                os._exit(1)
        for i in range(400):
            try:
                socket.create_connection((self.addr, PORT), 5).close()
                return
            except OSError:
                server._real_sleep(0.02)
            if os.waitpid(self.pid, os.WNOHANG)[0]:
                self.pid = None
                break
        self.close()
        raise Violation("no-server", "the stand-alone server does not answer")

    def child(self, m, content):
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        signal.setitimer(signal.ITIMER_PROF, 0)
        dn = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(dn, fd)
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
        server.Clock = FileClock(self.clock)
        socket.getfqdn = lambda *a: NAME
        sys.argv = ["mod_dashlivesim", "-d", content.conf, "-c", content.root, "--host", self.addr, "--port", str(PORT)]
        os.chdir(self.dir)
        runpy.run_path(m.__file__, run_name="__main__")

    def set(self, now):
        self.n += 1
        with open(self.clock + ".new", "w") as f:
            f.write("%d %r" % (self.n, float(now)))
        os.rename(self.clock + ".new", self.clock)

    def get(self, target, now, host="x", rng=None, version="1.1", method="GET"):
        "-> (status line without the version, [(header, value)], body)"
        self.set(now)
        req = "%s %s HTTP/%s\r\n" % (method, target, version)
        if host is not None:
            req += "Host: %s\r\n" % host
        if rng is not None:
            req += "Range: %s\r\n" % rng
        s = socket.create_connection((self.addr, PORT), 30)
        try:
            s.settimeout(30)
            s.sendall((req + "\r\n").encode("latin-1"))
            out = b""
            while True:
                x = s.recv(1 << 16)
                if not x:
                    break
                out += x
        finally:
            s.close()
        head, _, body = out.partition(b"\r\n\r\n")
        lines = head.decode("latin-1").split("\r\n")
        return lines[0].partition(" ")[2], [tuple(x.split(": ", 1)) for x in lines[1:]], body

    def close(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.pid = None
        shutil.rmtree(self.dir, ignore_errors=True)
