"""In-process client of the WSGI application under test, on a virtual clock."""
import contextlib
import io
import os
import sys
import datetime as _datetime
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True

_real_time = _time.time
_real_sleep = _time.sleep
_real_gmtime, _real_localtime, _real_time_ns = _time.gmtime, _time.localtime, _time.time_ns


class Clock:
    "Virtual clock; None = real time."
    now = None
    slept = 0.0
    nsleeps = 0


def _vtime():
    return _real_time() if Clock.now is None else Clock.now


def _vsleep(s):
    if Clock.now is None:
        _real_sleep(s)
    else:
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        Clock.now += s
        Clock.slept += s
        Clock.nsleeps += 1


def _vgmtime(*a):
    return _real_gmtime(*a) if Clock.now is None or a and a[0] is not None else _real_gmtime(Clock.now)


def _vlocaltime(*a):
    return _real_localtime(*a) if Clock.now is None or a and a[0] is not None else _real_localtime(Clock.now)


def _vtime_ns():
    return _real_time_ns() if Clock.now is None else int(round(Clock.now * 1e6)) * 1000


class _VDatetime(_datetime.datetime):
    "datetime whose present is that of the virtual clock."
    @classmethod
    def now(cls, tz=None):
        return super().now(tz) if Clock.now is None else cls.fromtimestamp(Clock.now, tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_vtime(), _datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class HarnessError(Exception):
    "Problem of the harness, not of the code under test."


_mod = None


def load():
    "Import the repository's WSGI module with the virtual clock in place."
    global _mod
    if _mod is None:
        _time.time = _vtime
        _time.sleep = _vsleep
        _time.gmtime, _time.localtime, _time.time_ns = _vgmtime, _vlocaltime, _vtime_ns
        _datetime.datetime = _VDatetime
        add_paths()
        import dashlivesim.mod_wsgi.mod_dashlivesim as m
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise HarnessError("imported %s instead of %s" % (m.__file__, REPO))
        _mod = m
    return _mod


def add_paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    vp = "/opt/venv/lib/python3.12/site-packages"
    import glob
    for p in [vp] + glob.glob("/opt/venv/lib/python3*/site-packages"):
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)


class Response:
    def __init__(self):
        self.status = None
        self.code = None
        self.headers = []
        self.chunks = []      # (virtual time, bytes)
        self.exc = None
        self.log = ""

    @property
    def body(self):
        return b"".join(c for _, c in self.chunks)

    def h(self, name):
        for k, v in self.headers:
            if k.lower() == name.lower():
                return v
        return None

    @property
    def text(self):
        return self.body.decode("utf-8", "replace")


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


_NULL = _Null()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_NULL), contextlib.redirect_stderr(_NULL):
        yield


@contextlib.contextmanager
def at(now):
    "Run with the virtual clock set to now."
    old = Clock.now
    Clock.now = now
    Clock.slept = 0.0
    Clock.nsleeps = 0
    try:
        yield
    finally:
        Clock.now = old


def get(content, path, now, host="example.com", scheme="http", rng=None, qs=None, extra_env=None, sep_qs=False,
        raise_exc=True, maxlen=None, delays=None):
    """GET path (starting with '/') from the application at virtual time now.

    Exceptions escaping from the application are recorded in Response.exc (and re-raised as AppRaised if raise_exc)."""
    m = load()
    env = {"HTTP_HOST": host, "SERVER_NAME": "srv.test", "SERVER_PORT": "8059", "VOD_CONF_DIR": content.conf, "CONTENT_ROOT": content.root, "wsgi.url_scheme": scheme,
           "REQUEST_METHOD": "GET", "PATH_INFO": path}
    if qs is not None and sep_qs:
        env["QUERY_STRING"] = qs
        env["REQUEST_URI"] = path
    else:
        env["REQUEST_URI"] = path + ("?" + qs if qs is not None else "")
        env["QUERY_STRING"] = qs or ""
    if host is None:     # A request without Host header
        del env["HTTP_HOST"]
    if rng is not None:
        env["HTTP_RANGE"] = rng
    if extra_env:
        env.update(extra_env)
    r = Response()

    def start_response(status, headers, exc_info=None):
        if r.status is not None and exc_info is None:
            raise AssertionError("start_response called twice")
        if not isinstance(status, str) or not isinstance(headers, list):
            raise AssertionError("bad start_response arguments")
        r.status = status
        r.code = int(status.split()[0])
        r.headers = [(k, v) for k, v in headers]
        return None

    if maxlen is not None:
        m.MAX_SESSION_LENGTH = maxlen
    with at(float(now)):
        try:
            with quiet():
                it = m.application(env, start_response)
                for c in it:
                    r.chunks.append((Clock.now, c))
                    if delays:   # a slow reader
                        Clock.now += delays[(len(r.chunks) - 1) % len(delays)]
        except Exception as e:   # noqa: BLE001 - the oracle decides
            r.exc = e
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, GeneratorExit)):
                raise
            r.exc = e
        finally:
            if maxlen is not None:
                m.MAX_SESSION_LENGTH = 0
    if r.exc is not None and raise_exc:
        from .runner import Violation
        raise Violation("app-raised", "application raised %s: %s for %s at %s" % (
            type(r.exc).__name__, r.exc, path, now))
    if r.exc is None and r.status is None and raise_exc:
        from .runner import Violation
        raise Violation("no-response", "no response for %s at %s" % (path, now))
    return r


def url(opts, *parts, prefix="livesim"):
    "Path from option pairs and path parts."
    return "/" + "/".join([prefix] + ["%s_%s" % (k, v) for k, v in opts] + list(parts))
