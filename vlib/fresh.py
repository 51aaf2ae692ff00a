"""Answers of a pristine process: a zygote that has imported the application and forks once per request."""
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _read(f, n):
    out = b""
    while len(out) < n:
        x = f.read(n - len(out))
        if not x:
            raise EOFError
        out += x
    return out


def _recv(f):
    return pickle.loads(_read(f, struct.unpack(">I", _read(f, 4))[0]))


def _send(f, obj):
    d = pickle.dumps(obj)
    f.write(struct.pack(">I", len(d)) + d)
    f.flush()


class _Roots:
    def __init__(self, root, conf):
        self.root = root
        self.conf = conf


def serve():
    sys.path.insert(0, HERE)
    from vlib import server
    inp = os.fdopen(os.dup(0), "rb")
    outp = os.fdopen(os.dup(1), "wb")
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    mod = server.load()
    while True:
        try:
            req = _recv(inp)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                mod.MAX_SESSION_LENGTH = req.get("maxlen", 0)
                res = server.get(_Roots(req["root"], req["conf"]), req["path"], req["now"], raise_exc=False, **req["kw"])
                exc = None if res.exc is None else "%s: %s" % (type(res.exc).__name__, res.exc)
                d = (res.status, res.headers, res.body, exc)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(d))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        _send(outp, pickle.loads(d) if d else (None, [], b"", "fresh process died"))


_Z = None


def fresh(content, path, now, maxlen=0, **kw):
    "(status, headers, body, exception text) of the request in a pristine process."
    global _Z
    if _Z is None or _Z[0] != os.getpid():
        p = subprocess.Popen([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); from vlib.fresh import serve; serve()" % HERE],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _Z = (os.getpid(), p)
        import atexit
        atexit.register(stop)
    p = _Z[1]
    _send(p.stdin, {"root": content.root, "conf": content.conf, "path": path, "now": now, "maxlen": maxlen, "kw": kw})
    return _recv(p.stdout)


def stop():
    global _Z
    if _Z is not None and _Z[0] == os.getpid():
        _Z[1].stdin.close()
        _Z[1].wait(5)
        _Z = None


if __name__ == "__main__":
    serve()
