"""The VoD analyzer: generated content is analysed (through the command line entry point) and the written configuration is
compared with the generator's specification, then used for serving."""
import configparser
import contextlib
import copy
import io
import os
import re
import runpy
import shutil
import struct
import sys
import tempfile
import warnings
import zlib

from vlib.common import *
from vlib import server
from vlib.content import Content, scratch
from vlib.model import timeline
from vlib.mpd import kid, kids


@st.composite
def deviating(draw, n, D, ts, limit):
    "Segment boundaries in ticks with deviations below limit (ticks) from the nominal grid; the loop itself is exact."
    b = [0]
    for i in range(1, n):
        b.append(i * D * ts + draw(st.one_of(st.just(0), st.integers(-limit, limit))))
    return b + [n * D * ts]


@st.composite
def specs(draw, refuse=False):
    D = draw(st.integers(1, 8))
    n = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 30)))
    inexact = draw(st.integers(0, 3)) == 0      # the last segment does not end on the grid either
    spec = {"D": D, "n": n, "first": draw(st.sampled_from([1, 0, 1, 5, 100])), "tsbd": 300, "mpd": {}, "tracks": []}
    types = draw(st.sampled_from([("video", "audio"), ("video", "audio"), ("video",), ("audio",), ("video", "audio", "subtitles"), ("audio", "video"),
                                  ("subtitles",), ("video", "subtitles"), ("subtitles", "video")]))
    tid = 1
    for typ in types:
        if typ == "subtitles":
            spec["tracks"].append({"type": "subtitles", "ts": 1000, "fd": D * 1000, "fb": list(range(n + 1)), "reps": [
                {"id": "S1", "tid": 3, "fmt": {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": draw(st.integers(0, 1))},
                 "docs": ["<tt>x</tt>"]}]})
            continue
        ts = draw(st.sampled_from([1000, 90000, 48000, 44100, 12800, 600, 10000000, 30, 25]))
        # frames of one gcd: boundaries are multiples of fd
        lim = max(0, -(-ts // 10) - 2) if ts >= 25 else 0
        mode = draw(st.sampled_from(["grid", "dev", "dev", "runs"]))
        if mode == "grid":
            fd, fb = D * ts, list(range(n + 1))
            if draw(st.booleans()) and fd % 2 == 0:
                fd, fb = fd // 2, [2 * x for x in fb]
        else:
            fds = [x for x in (ts // 100, ts // 50, ts // 25, 1024, 1, 512) if x and x <= max(lim, 1) and (n * D * ts) % x == 0 and n * D * ts // x < 3000]
            if not fds:
                fd, fb = D * ts, list(range(n + 1))
            else:
                fd = draw(st.sampled_from(fds))
                if mode == "dev":
                    b = draw(deviating(n, D, ts, lim))
                    if inexact:
                        b[-1] += draw(st.integers(-lim, lim))
                    fb = [x // fd for x in b]
                else:   # like AAC: closest frame boundary
                    fb = [(2 * i * D * ts + fd) // (2 * fd) for i in range(n)] + [n * D * ts // fd + (draw(st.integers(-1, 1)) if inexact else 0)]
                ok = all(abs(f * fd - i * D * ts) < int(ts * 0.1) for i, f in enumerate(fb)) and all(b > a for a, b in zip(fb, fb[1:]))
                if not ok:
                    fd, fb = D * ts, list(range(n + 1))
        reps = []
        for i in range(draw(st.integers(1, 2))):
            reps.append({"id": "%s%d" % (typ[0].upper(), i + 1), "tid": draw(st.sampled_from([tid, 77])),
                         "fmt": draw(strat.fmts(kind="full", typ=typ))})
        tid += 1
        tr = {"type": typ, "ts": ts, "fd": fd, "fb": fb, "reps": reps}
        if fb[-1] > 64:   # many frames: fixed small samples keep the files small
            for r in reps:
                r["fmt"].update(trun=r["fmt"]["trun"] & ~0x200, tfhd=r["fmt"]["tfhd"] | 0x10, csize=1)
        spec["tracks"].append(tr)
    if draw(st.booleans()):
        spec["mpd"]["role"] = True
    spec["start"] = draw(st.sampled_from([0, 0, 0, 1, 10, spec["D"], 100]))     # Seconds on the media timeline
    for t in spec["tracks"]:
        for r in t["reps"]:
            r["fmt"]["tfdt_extra"] = spec["start"] * t["ts"]
    spec["mpd"]["minify"] = draw(st.booleans())
    spec["mpd"]["nosnr"] = spec["first"] == 1 and draw(st.booleans())
    spec["name"] = draw(st.sampled_from(["vod1", "my_content", "x.y-2"]))
    return spec


def run_analyzer(mpd_path, cwd):
    "Run the tool's main(); returns the exception or None."
    server.load()
    import dashlivesim.vodanalyzer.dashanalyzer as da
    old = os.getcwd()
    argv = sys.argv
    os.chdir(cwd)
    sys.argv = ["dashanalyzer.py", mpd_path] + ["-v"] * (zlib.crc32(open(mpd_path, "rb").read()) & 1)
    try:
        with server.quiet():
            da.main()
        return None
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except Exception as e:   # noqa: BLE001
        return e
    finally:
        os.chdir(old)
        sys.argv = argv


class Work:
    "Content written to a scratch directory of its own, without configuration."

    def __init__(self, spec):
        self.base = tempfile.mkdtemp(dir=scratch())
        self.c = Content(spec).write(self.base)
        shutil.rmtree(self.c.conf)
        os.makedirs(self.c.conf)
        self.mpd = os.path.join(self.c.root, self.c.name, self.c.mpd_name)

    def path(self, rep, i):
        return os.path.join(self.c.root, self.c.name, self.c.reldir(rep), "%d.m4s" % (self.c.first + i))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.base, ignore_errors=True)


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.join(d, f)] = h.read()
    return out


def check_config(c, n, what, stats):
    "Compare the written files with the specification, for a loop of n segments."
    cfg = configparser.RawConfigParser()
    p = os.path.join(c.conf, c.name + ".cfg")
    check(os.path.exists(p), "no-config", what)
    cfg.read(p)
    check(cfg.get("General", "version") == "1.1", "version", what)
    eq(cfg.getint("Setup", "first_segment_in_loop"), c.first, "first-segment", what)
    eq(cfg.getint("Setup", "nr_segments_in_loop"), n, "nr-segments", what)
    eq(cfg.getint("Setup", "segment_duration_s"), c.D, "segment-duration", what)
    check(cfg.getint("Setup", "default_tsbd_secs") > 0, "tsbd", what)
    eq(sorted(s for s in cfg.sections() if s not in ("General", "Setup")), sorted(t["type"] for t in c.tracks), "media", what)
    for t in c.tracks:
        k = t["type"]
        b = c.bounds(t)
        eq([x.strip() for x in cfg.get(k, "representations").split(",")], [r["id"] for r in t["reps"]], "representations", what)
        eq(cfg.getint(k, "timescale"), t["ts"], "timescale", what + " " + k)
        eq(cfg.getint(k, "total_duration"), b[n], "total-duration", what + " " + k)
        with open(os.path.join(c.conf, cfg.get(k, "dat_file")), "rb") as f:
            data = f.read()
        eq(len(data) % 12, 0, "dat-size", what)
        got = []
        runs = 0
        for i in range(0, len(data), 12):
            nr, rep, start, dur = struct.unpack_from("HHII", data, i)
            runs += 1
            for j in range(rep + 1):
                got.append((nr + j, start + j * dur, dur))
        x = c.spec.get("start", 0) * t["ts"]
        eq(got, [(c.first + i, x + b[i], b[i + 1] - b[i]) for i in range(n)], "segment-times", what + " " + k)
        if runs > 1:
            stats.label("several runs")
            stats.nt()


def good(case, stats):
    spec = case["spec"]
    what = "content %s" % {k: v for k, v in spec.items() if k != "tracks"}
    with Work(spec) as w:
        c = w.c
        before = snapshot(c.root)
        exc = run_analyzer(w.mpd, c.conf)
        if exc is not None:
            raise Violation("analyzer-raised", "%s: %s: %s" % (what, type(exc).__name__, exc))
        check(snapshot(c.root) == before, "content-changed", what)
        check_config(c, c.n, what, stats)
        if any(1 in r["fmt"].get("ivers", [0]) for t in c.tracks for r in t["reps"]):
            stats.label("version 1 headers")
        stats.nt(c.n > 1)
        if spec["start"]:
            stats.label("does not start at 0")
            return
        if any(c.bounds(t)[c.n] != c.n * c.D * t["ts"] for t in c.tracks):
            stats.label("loop of inexact length")
            return
        # serve it
        now = float(case["now"])
        s = Session(c, [], now)
        lo, hi = s.window(now)
        for x in case["pick"]:
            N = lo + x % (hi - lo + 1)
            for t, r in c.reps():
                g = need200(getseg(c, [], r, N, now), "%s segment %d of %s" % (what, N, r["id"]))
                _, fr = parse_seg(g.body, c.trex_tuple(t, r), what)
                eq(fr[0].tracks[0].tfdt, s.tfdt(N, t), "served-time", what)
                if t["type"] != "subtitles":
                    i, _ = s.source(N)
                    eq([x.data for f in fr for x in f.tracks[0].samples], [x[3] for x in c.raw_samples(t, r, i)], "served-samples", what)
        tsbd = min(300, 20 * c.D)
        m = load_mpd(getmpd(c, [["segtimeline", "1"], ["tsbd", str(tsbd)]], now), what)
        s2 = Session(c, [["tsbd", str(tsbd)]], now)
        for a, r, tm in m.reps(m.periods[0]):
            t, _ = c.rep(r.get("id"))
            eq(tm.entries(), [(x, d) for _, x, d in timeline(s2, c, t, int(now))[1]], "served-timeline", what + " " + r.get("id"))


@st.composite
def good_cases(draw):
    return {"spec": draw(specs()), "now": draw(strat.epochs()), "pick": draw(st.lists(st.integers(0, 10000), min_size=1, max_size=3))}


@st.composite
def bad_cases(draw):
    spec = draw(specs())
    kind = draw(st.sampled_from(["missing", "drift", "drift", "shorter", "odd-name"]))
    return {"spec": spec, "kind": kind, "rep": draw(st.integers(0, 5)), "at": draw(st.integers(0, 6)),
            "much": draw(st.sampled_from([1, 2, 3, 10])), "sign": draw(st.sampled_from([1, -1])), "now": draw(strat.epochs())}


def bad(case, stats):
    spec = copy.deepcopy(case["spec"])
    n = spec["n"]
    kind = case["kind"]
    tr = spec["tracks"][case["rep"] % len(spec["tracks"])]
    what = "%s content %s" % (kind, {k: v for k, v in spec.items() if k != "tracks"})
    if kind == "drift":
        # every segment is the same but too long or too short: the end drifts away from the grid
        ts, D = tr["ts"], spec["D"]
        for t in spec["tracks"]:
            if t["type"] == "subtitles":
                return
        step = max(1, -(-ts // 10) + (case["much"] - 1))
        segs = case["at"] % n
        b = [i * D * ts + (case["sign"] * step if i > segs else 0) for i in range(n + 1)]
        if any(y <= x for x, y in zip(b, b[1:])):
            return
        tr["fd"], tr["fb"] = 1, b
        for r in tr["reps"]:   # one sample per segment is enough: give it as a single long frame
            r["fmt"].update(trun=(r["fmt"]["trun"] | 0x100) & ~0x200, tfhd=r["fmt"]["tfhd"] | 0x10, csize=1, ntrun=1, nfrag=1)
        spec["single_frame"] = True
        with Work.__new__(Work) as w:
            w.base = tempfile.mkdtemp(dir=scratch())
            w.c = OneFrame(spec).write(w.base)
            shutil.rmtree(w.c.conf)
            os.makedirs(w.c.conf)
            w.mpd = os.path.join(w.c.root, w.c.name, w.c.mpd_name)
            exc = run_analyzer(w.mpd, w.c.conf)
            check(exc is not None, "drift-accepted", "%s: deviation %d ticks of timescale %d" % (what, step, ts))
            check(not os.path.exists(os.path.join(w.c.conf, w.c.name + ".cfg")), "drift-config-written", what)
            stats.nt()
            stats.label("drift")
        return
    with Work(spec) as w:
        c = w.c
        t, r = c.reps()[case["rep"] % len(c.reps())]
        i = case["at"] % n
        if kind == "missing":
            if n < 3:
                return
            i = 1 + i % (n - 2)
            os.remove(w.path(r, i))
            exc = run_analyzer(w.mpd, c.conf)
            check(exc is not None, "missing-accepted", "%s: segment %d of %s" % (what, c.first + i, r["id"]))
            check(not os.path.exists(os.path.join(c.conf, c.name + ".cfg")), "missing-config-written", what)
            stats.nt()
            stats.label("missing segment")
        elif kind == "shorter":
            # the last segments of one representation are missing: the loop is what all of them have
            m = n - 1 - case["at"] % 2
            if m < 1:
                return
            for j in range(m, n):
                os.remove(w.path(r, j))
            exc = run_analyzer(w.mpd, c.conf)
            if exc is not None:
                check(not os.path.exists(os.path.join(c.conf, c.name + ".cfg")), "shorter-config-written", what)
                stats.label("shorter refused")
                return
            check_config(c, m, what + " with %d segments of %s" % (m, r["id"]), stats)
            stats.nt()
            stats.label("shorter representation")
        else:   # files that are no segments
            d = os.path.dirname(w.path(r, 0))
            for nm in ("info.txt", "x.m4s", "init.m4v", "%d.m4s.bak" % c.first, "%d.m4sx" % (c.first + 50), "%dxm4s" % (c.first + 60)):
                with open(os.path.join(d, nm), "w") as f:
                    f.write("x")
            exc = run_analyzer(w.mpd, c.conf)
            if exc is not None:
                raise Violation("analyzer-raised", "%s: %s: %s" % (what, type(exc).__name__, exc))
            check_config(c, n, what, stats)
            stats.label("other files")


class OneFrame(Content):
    "Every segment is one sample."

    def raw_samples(self, track, rep, i):
        b = self.bounds(track)
        if track["type"] == "subtitles":
            return Content.raw_samples(self, track, rep, i)
        return [(b[i + 1] - b[i], 0x02000000, 0, b"x" * rep["fmt"].get("csize", 1))]


@st.composite
def table_cases(draw):
    at, out = draw(st.sampled_from([0, 5, 2 ** 31])), []
    for _ in range(draw(st.integers(0, 7))):
        rep, dur = draw(st.one_of(st.integers(0, 5), st.just(65535))), draw(st.integers(0, 20000))
        gap = draw(st.sampled_from([0, 0, 0, 1, -1, dur, 777]))
        start = max(0, at + gap) % 2 ** 32
        out.append([draw(st.integers(0, 65535)), rep, start, dur])
        at = start + dur * (rep + 1)
    return {"entries": out, "v": draw(st.integers(0, 2))}


def table(case, stats):
    "The tool that checks a segment time table names exactly the entries that do not follow on the one before."
    what = "table %s" % case
    fd, path = tempfile.mkstemp(dir=scratch())
    with os.fdopen(fd, "wb") as f:
        for e in case["entries"]:
            f.write(struct.pack("HHII", *e))
    server.load()
    out, argv = io.StringIO(), sys.argv
    sys.argv = ["parse_dat_file", path] + ["-v"] * case["v"]
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter("ignore")
            runpy.run_module("dashlivesim.vodanalyzer.parse_dat_file", run_name="__main__", alter_sys=True)
    except ModuleNotFoundError:
        return stats.label("no such tool")
    except SystemExit as exc:
        raise Violation("table-exit", "%s: exit %r" % (what, exc.code))
    finally:
        sys.argv = argv
        os.remove(path)
    lines = [x for x in out.getvalue().splitlines() if x.strip()]
    bad = [[int(v) for v in re.findall("[0-9]+", x)] for x in lines if "ismatch" in x]
    want = []
    for a, b in zip(case["entries"], case["entries"][1:]):
        end = a[2] + a[3] * (a[1] + 1)
        if end != b[2]:
            want.append([b[2], end])
    eq(bad, want, "table-mismatches", what)
    if case["v"]:
        got = [[int(v) for v in re.findall("[0-9]+", x)] for x in lines if "ismatch" not in x]
        eq(got, case["entries"], "table-listing", what)
    stats.nt(bool(want))
    if want:
        stats.label("table with gaps")


SUBS = [Sub("analyze", good_cases(), good, quick=700, thorough=15000, rule="content of at least two segments or with varying durations"),
        Sub("odd", bad_cases(), bad, quick=500, thorough=8000, rule="content that must be refused or cut to a common loop"),
        Sub("table", table_cases(), table, quick=400, thorough=8000, rule="a table in which an entry does not follow on the one before")]
