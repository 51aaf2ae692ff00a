"""Histories of mixed requests against pristine-process answers, interleaved generators, URL grammar fuzzing, files unchanged."""
import hashlib
import os

from vlib import server
from vlib.common import *
from vlib.content import scratch
from vlib.fresh import fresh
from vlib.mpd import kids, path_of
from vlib.resgen import build, contents, requests

XL = "{http://www.w3.org/1999/xlink}href"
OPTS = ["start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "tfdt", "cont", "periods",
        "xlink", "etp", "etpDuration", "insertad", "mpdcallback", "continuous", "segtimeline", "segtimelinenr", "peroff", "scte35", "utc",
        "snr", "ato", "spd", "sidx", "segtimelineloss", "baseurl", "chunkdur", "sts", "sid", "zz", "", "_"]


def tree(c):
    h = hashlib.sha1()
    for base in (c.root, c.conf):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                with open(p, "rb") as fh:
                    h.update(p.encode() + b"\0" + fh.read() + b"\1")
    return h.hexdigest()


@st.composite
def fuzz_opt(draw):
    name = draw(st.sampled_from(OPTS))
    now = 1_600_000_000
    if name in ("start", "ast", "stop", "timeoffset", "sts"):
        v = draw(st.one_of(st.integers(now - 5000, now + 5000), st.integers(-5, 5), st.sampled_from([2 ** 31, 10 ** 12, 10 ** 20])))
    elif name == "utc":
        v = draw(st.sampled_from(["direct", "head-ntp", "httpiso-sntp-httpxsdate", "x", "", "none"]))
    elif name == "baseurl":
        v = draw(st.sampled_from(["u10_d20", "d5_u10", "u_d", "u10", "d10_d10", "u0_d0", "x", "u1_d1_u1", "u10_dx"]))
    elif name in ("chunkdur", "ato"):
        v = draw(st.sampled_from(["1", "0.5", "2.25", "0", "-1", "inf", "nan", "1e3", "x"]))
    else:
        v = draw(st.one_of(st.sampled_from([0, 1, 2, 5, 10, 60, -1, 12, 32, 30]), st.integers(-100, 99999)))
    if draw(st.integers(0, 9)) == 0:
        v = draw(st.one_of(st.text("0123456789-_.xeE+ %", max_size=5), st.text(max_size=4)))
    return "%s_%s" % (name, v)


@st.composite
def fuzz_url(draw):
    "Path template: list of parts, resolved against the content's names."
    head = draw(st.sampled_from(["livesim", "livesim", "livesim", "dash", ""]))
    parts = draw(st.lists(fuzz_opt(), max_size=5))
    tail = draw(st.one_of(
        st.sampled_from([["@c", "@m"], ["@c", "@m"], ["@c", "@v", "@n.m4s"], ["@c", "@v", "@n.m4s"], ["@c", "@a", "@n.m4s"], ["@c", "@v", "init.mp4"], ["@c", "@v__@a", "@n.m4s"],
                         ["@c", "@v", "t@t.m4s"], ["@c", "I1", "@n.jpg"], ["@c", "@m", "p1.period"], ["@c"], ["@v", "@n.m4s"],
                         ["@c", "@v__@v__@a", "@n.m4s"], ["@c", "@v__X", "init.mp4"], ["@c", "@v", ".m4s"], ["@c", "..", "@v", "@n.m4s"],
                         ["@c", "@v", "-1.m4s"], ["@c", "@v", "t.m4s"], ["@c", "@v", "tx.m4s"], ["@c", "@v", "t-5.m4s"],
                         ["@c", "@v", "99999999999999999999.m4s"], ["@c", "@v", "1e5.m4s"], ["@c", "", "@m"], ["", ""], [""]]),
        st.lists(st.one_of(st.sampled_from(["@c", "@v", "@a", "@m", "@n.m4s", "init.mp4", "", ".", ".."]),
                           st.text(max_size=5)), max_size=4)))
    tail = [x for x in tail]
    return {"kind": "fuzz", "parts": [head] + parts + tail, "abs": draw(st.sampled_from(["/", "/", "/", "/", "//", "", "http://h/", "//[", "//]x/"])),
            "pos": draw(st.integers(-3, 6))}


@st.composite
def mixed(draw):
    return draw(st.one_of(requests(), requests(), rich(), rich(), rich(), fuzz_url(), requests(kinds=["mpd", "seg", "tseg", "chunk", "period"])))


RICH = ["chunkdur_0.5", "chunkdur_1", "segtimeline_1", "segtimelinenr_1", "periods_60", "periods_20", "periods_0", "xlink_60", "xlink_20",
        "insertad_1", "insertad_2", "mpdcallback_20", "etp_60", "etpDuration_30", "continuous_1", "peroff_1", "scte35_1", "scte35_3", "utc_direct",
        "utc_httpiso-ntp", "utc_none", "utc_keep", "ato_1", "ato_inf", "ato_0.5", "spd_6", "sidx_1", "tsbd_20", "mup_3", "init_30", "snr_3", "snr_-1",
        "cont_1", "startrel_-40", "stoprel_40", "baseurl_u20_d10", "tfdt_32", "modulo_10", "dur_60", "timeoffset_0"]


LATE = [["start_@S"], ["start_@S", "dur_60"], ["start_@S", "dur_6000"], ["start_@S", "dur_60", "dur_120"], ["start_@S", "stop_@T"], ["start_@S", "modulo_10"],
        ["start_@S", "timeoffset_@S", "snr_-2"], ["start_@T", "stop_@S"], ["start_@S", "dur_60", "periods_7"], ["periods_60", "segtimeline_1"]]


@st.composite
def rich(draw):
    "Manifests and segments with combinations of valid options."
    opts = draw(st.lists(st.sampled_from(RICH), min_size=1, max_size=4, unique_by=lambda o: o.split("_")[0]))
    if draw(st.integers(0, 3)) == 0:        # sessions, also such that are found contradictory late
        opts = list(draw(st.permutations(draw(st.sampled_from(LATE)) + draw(st.sampled_from([[], ["tfdt_32"], ["cont_1"], ["tfdt_32", "cont_1"]])))))
    return {"kind": "rich", "opts": opts,
            "what": draw(st.sampled_from(["mpd", "mpd", "v", "a", "vi", "vt"])), "a": draw(st.integers(0, 400)), "b": draw(st.integers(0, 3))}


def resolve(c, q, base):
    if q["kind"] == "rich":
        now = base + q["a"] * 0.25
        k = int(now) // c.D - 1 - q["b"]
        t = c.track("video")
        V, A = t["reps"][0]["id"], c.track("audio")["reps"][0]["id"]
        loops, i = divmod(k, c.n)
        tail = {"mpd": c.mpd_name, "v": "%s/%d.m4s" % (V, k), "a": "%s/%d.m4s" % (A, k), "vi": V + "/init.mp4",
                "vt": "%s/t%d.m4s" % (V, c.bounds(t)[i] + loops * c.loop_ticks(t))}[q["what"]]
        return "/livesim/%s/%s/%s" % ("/".join(q["opts"]).replace("@S", str(base - 40)).replace("@T", str(base + 60)), c.name, tail), now
    if q["kind"] != "fuzz":
        path, now, status = build(c, q, base)
        if q["kind"] == "period":
            m = load_mpd(server.get(c, path, now), path)
            refs = [p.get(XL) for p in kids(m.root, "Period") if p.get(XL)]
            path = path_of(refs[q["b"] % len(refs)], "")[0]
        return path, now
    now = 1_600_000_000 + q["pos"] * 7.25
    n = int(now) // c.D - q["pos"]
    sub = {"@c": c.name, "@m": c.mpd_name, "@v": c.track("video")["reps"][0]["id"], "@a": c.track("audio")["reps"][0]["id"],
           "@n": str(n), "@t": str(n * c.D * c.track("video")["ts"])}
    out = []
    for p in q["parts"]:
        for k, v in sub.items():
            p = p.replace(k, v)
        out.append("".join(ch for ch in p if ch not in "\ud800"))
    return q["abs"] + "/".join(out), now


def plausible(r, what):
    check(r.exc is None, "app-raised", "%s: %s: %s" % (what, type(r.exc).__name__, r.exc))
    check(r.code in (200, 206, 404), "status", "%s: %s" % (what, r.status))
    for _, ch in r.chunks:
        check(isinstance(ch, bytes), "body-not-bytes", what)
    check(r.body, "empty-body", what)
    cl = r.h("Content-Length")
    check(cl is None or cl == str(len(r.body)), "content-length", "%s: %s" % (what, cl))


@st.composite
def hist_cases(draw):
    specs = [draw(contents()), draw(contents())]
    for sp in specs:
        for t in sp["tracks"][:2]:
            t["reps"][0]["fmt"] = draw(st.one_of(st.just(t["reps"][0]["fmt"]), strat.fmts(kind="full", typ=t["type"])))
    return {"specs": specs, "links": draw(st.booleans()), "base": draw(st.integers(1_500_000_000, 1_700_000_000)),
            "reqs": draw(st.lists(st.tuples(mixed(), st.integers(0, 1), st.integers(0, 2)), min_size=3, max_size=10)),
            "again": draw(st.lists(st.integers(0, 30), max_size=5)),
            "hosts": draw(st.permutations(["a.example", "b.example:81", None]))}


def prop_hist(case, stats):
    cs = []
    for i, sp in enumerate(case["specs"]):
        sp = dict(sp, name="vod%d" % (i * draw_same(case) * (not case.get("links"))))
        cs.append(materialize(sp))
    site = [Fixed(x) for x in cs] if not case.get("links") else [Replaced(cs, 0), Replaced(cs, 1)]
    before = [tree(c) for c in cs]
    seq = list(case["reqs"]) + [case["reqs"][i % len(case["reqs"])] for i in case["again"]]
    codes = set()
    for q, ci, hi in seq:
        c = cs[ci]
        path, now = resolve(c, q, case["base"])
        kw = {"host": case["hosts"][hi], "scheme": ("http", "https")[hi % 2]}
        c = site[ci].current()
        r = server.get(c, path, now, raise_exc=False, **kw)
        what = "%r at %r after %d other requests" % (path, now, len(codes))
        plausible(r, what)
        ref = fresh(c, path, now, **kw)
        if ref[3]:
            raise Violation("app-raised", "%s: %s in a fresh process" % (what, ref[3]))
        eq((r.status, sorted(r.headers)), (ref[0], sorted(ref[1])), "history-changes-headers", what)
        check(r.body == ref[2], "history-changes-body", what)
        codes.add((q["kind"], r.code))
        stats.label("%s %s" % (q["kind"], r.code))
    eq([tree(c) for c in cs], before, "content-modified", "")
    stats.nt(len([k for k, x in codes if x == 200]) >= 2)
    if case.get("links"):
        stats.label("content replaced during the history")


def draw_same(case):
    "Both contents have the same name in every other case (the directories differ)."
    return case["base"] % 2


class Fixed:
    def __init__(self, c):
        self.c = c

    def current(self):
        return self.c


class Replaced:
    "One place on disk where content 0 and 1 take turns (an operator who replaces the content)."

    def __init__(self, cs, i):
        self.cs, self.i = cs, i
        self.dir = os.path.join(scratch(), "site")
        self.root, self.conf = os.path.join(self.dir, "content"), os.path.join(self.dir, "conf")

    def current(self):
        os.makedirs(self.dir, exist_ok=True)
        for link, target in ((self.root, self.cs[self.i].root), (self.conf, self.cs[self.i].conf)):
            if os.path.islink(link):
                os.unlink(link)
            os.symlink(target, link)
        return self


@st.composite
def inter_cases(draw):
    return {"spec": draw(contents()), "base": draw(st.integers(1_500_000_000, 1_700_000_000)),
            "reqs": draw(st.lists(mixed(), min_size=2, max_size=4)), "order": draw(st.lists(st.integers(0, 3), min_size=4, max_size=20))}


def prop_inter(case, stats):
    "Requests whose response bodies are produced alternately (as by a threaded server) do not disturb each other."
    c = materialize(case["spec"])
    m = server.load()
    runs = []
    for i, q in enumerate(case["reqs"]):
        path, now = resolve(c, q, case["base"])
        host = "h%d.example" % i
        env = {"HTTP_HOST": host, "VOD_CONF_DIR": c.conf, "CONTENT_ROOT": c.root, "wsgi.url_scheme": "http", "REQUEST_METHOD": "GET",
               "PATH_INFO": path, "REQUEST_URI": path, "QUERY_STRING": ""}
        st_ = {"status": None, "headers": None, "body": b"", "done": False}

        def start_response(status, headers, exc_info=None, st_=st_):
            st_["status"], st_["headers"] = status, list(headers)
        runs.append([iter(m.application(env, start_response)), st_, path, now, host, now])
    steps = 0
    order = list(case["order"]) + list(range(len(runs))) * 400
    for j in order:
        if all(x[1]["done"] for x in runs):
            break
        g, st_, path, now, host, clock = runs[j % len(runs)]
        if st_["done"]:
            continue
        try:
            with server.at(float(clock)), server.quiet():
                st_["body"] += next(g)
                runs[j % len(runs)][5] = server.Clock.now
        except StopIteration:
            st_["done"] = True
        except Exception as e:  # noqa: BLE001
            raise Violation("app-raised", "%r at %r: %s: %s" % (path, now, type(e).__name__, e))
        steps += 1
    for g, st_, path, now, host, _ in runs:
        what = "%r at %r" % (path, now)
        check(st_["done"], "endless-response", what)
        ref = fresh(c, path, now, host=host)
        eq((st_["status"], sorted(st_["headers"])), (ref[0], sorted(ref[1])), "interleaving-changes-headers", what)
        check(st_["body"] == ref[2], "interleaving-changes-body", what)
    stats.nt(len([1 for x in runs if x[1]["status"].startswith("200")]) >= 2)


@st.composite
def fuzz_cases(draw):
    return {"spec": draw(contents()), "urls": draw(st.lists(fuzz_url(), min_size=3, max_size=8)),
            "host": draw(st.sampled_from(["example.com", "", "x:1", "é", None])),
            "rng": draw(st.one_of(st.none(), st.none(), st.text("bytes=0123456789-,", max_size=12), st.text(max_size=5))),
            "qs": draw(st.one_of(st.none(), st.text("ab=&;%+#?/2", max_size=8)))}


def prop_fuzz(case, stats):
    c = materialize(case["spec"])
    before = tree(c)
    codes = []
    for q in case["urls"]:
        path, now = resolve(c, q, 0)
        if case["qs"] is not None and "?" in path:
            continue
        r = server.get(c, path, now, host=case["host"], rng=case["rng"], qs=case["qs"], raise_exc=False)
        what = "%r at %r range %r query %r" % (path, now, case["rng"], case["qs"])
        plausible(r, what)
        codes.append(r.code)
        stats.label(str(r.code))
        if r.code == 404:
            check(r.h("Content-Type").split(";")[0] == "text/plain", "error-type", what)
    eq(tree(c), before, "content-modified", "")
    stats.nt(200 in codes or 206 in codes)


SUBS = [Sub("histories", hist_cases(), prop_hist, quick=700, thorough=25000,
            rule="at least two kinds of resources were served successfully in the history"),
        Sub("interleaved", inter_cases(), prop_inter, quick=500, thorough=20000, rule="at least two of the interleaved responses are 200"),
        Sub("fuzz", fuzz_cases(), prop_fuzz, quick=2500, thorough=120000, rule="at least one fuzzed URL was served")]
