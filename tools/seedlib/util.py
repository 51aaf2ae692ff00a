"""Helpers of the demonstrations: synthetic content, virtual clock, WSGI client. The code under test is in the cwd."""
import io
import os
import sys
import time as _time
import contextlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
_real = _time.time
NOW = [None]
_time.time = lambda: _real() if NOW[0] is None else NOW[0]


def _sleep(s):
    NOW[0] += s


_time.sleep = _sleep

from . import content as C      # noqa: E402
from . import mp4lib as M       # noqa: E402,F401

FMT = {"styp": ["msdh", "msix"], "tfhd": 0x20000, "trun": 0x301, "tfdt_v": 0}


def track(typ, ts, ids, D=2, n=4, per=2, fb=None, fmt=None, dir=None, tid=1, docs=None):
    "A track with per frames per segment."
    fd = D * ts // per
    reps = []
    for i in ids:
        r = {"id": i, "tid": tid, "fmt": dict(FMT, **(fmt or {}))}
        if dir:
            r["dir"] = dir
        if docs:
            r["docs"] = docs
            r["fmt"] = {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": 0}
        reps.append(r)
    return {"type": typ, "ts": ts, "fd": fd, "fb": fb or [per * i for i in range(n + 1)], "reps": reps}


def mk(tracks=None, D=2, n=4, first=1, tsbd=30, **kw):
    spec = {"D": D, "n": n, "first": first, "tsbd": tsbd,
            "tracks": tracks or [track("video", 90000, ["V1"], D, n), track("audio", 48000, ["A1"], D, n)]}
    spec.update(kw)
    return C.materialize(spec)


class R:
    pass


def app():
    import dashlivesim.mod_wsgi.mod_dashlivesim as m
    assert os.path.abspath(m.__file__).startswith(os.getcwd()), m.__file__
    return m


def get(c, path, now, host="example.com", scheme="http", rng=None, qs="", conf=None, root=None, maxlen=None):
    "GET path at virtual time now."
    m = app()
    env = {"HTTP_HOST": host, "VOD_CONF_DIR": conf or c.conf, "CONTENT_ROOT": root or c.root, "wsgi.url_scheme": scheme,
           "REQUEST_METHOD": "GET", "PATH_INFO": path, "REQUEST_URI": path + ("?" + qs if qs else ""),
           "QUERY_STRING": qs}
    if rng:
        env["HTTP_RANGE"] = rng
    r = R()
    r.chunks = []

    def sr(status, headers, exc_info=None):
        r.code = int(status.split()[0])
        r.headers = dict(headers)

    if maxlen is not None:
        m.MAX_SESSION_LENGTH = maxlen
    NOW[0] = float(now)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for ch in m.application(env, sr):
            r.chunks.append((NOW[0], ch))
    NOW[0] = None
    r.body = b"".join(x for _, x in r.chunks)
    r.text = r.body.decode("utf-8", "replace")
    return r


def frags(c, rid, body):
    t, r = c.rep(rid)
    return M.parse_segment(body, c.trex_tuple(t, r))[1]


def tfdt(c, rid, body):
    return frags(c, rid, body)[0].tracks[0].tfdt
