from fractions import Fraction as F
from vlib.common import *
from vlib.model import timeline

HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


@st.composite
def tl_cases(draw, periods=True, nestable=True, types=None, maxtsbd=10 ** 6, nprobes=4, images=False):
    types = types or draw(st.sampled_from([("video", "audio"), ("video", "audio"), ("video",), ("video", "audio", "subtitles")]))
    if "subtitles" in types:
        spec = draw(strat.specs(kind="plain", types=types[:2], maxn=6))
        D, n = spec["D"], spec["n"]
        ts, fd, fb = draw(strat.layouts(n, D))
        spec["tracks"].append({"type": "subtitles", "ts": ts, "fd": fd, "fb": fb, "reps": [
            {"id": "S1", "tid": 1, "fmt": {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": 0},
             "docs": ["<tt>x</tt>"]}]})
    else:
        spec = draw(strat.specs(kind="plain", types=types, maxn=draw(st.sampled_from([3, 6, 12])), nested=nestable))
    if images:
        spec = draw(strat.with_images(spec))
    D, n = spec["D"], spec["n"]
    o = [[draw(st.sampled_from(["segtimeline", "segtimelinenr"])), "1"]]
    mode = draw(st.sampled_from(["plain", "plain", "start", "start", "stop", "dur", "tfdt", "cont", "modulo"] +
                                (["periods", "periods"] if periods else [])))
    S = draw(strat.epochs())
    if draw(st.booleans()):
        S = S // D * D
    ast = 0
    anchor = draw(st.one_of(st.integers(0, 20 * n), st.integers(0, 10 ** 8))) * D
    if mode in ("start", "stop", "dur"):
        o.append(["start", str(S)])
        ast = S // D * D
        if draw(st.integers(0, 1)):
            o.append(["timeoffset", str(draw(st.one_of(st.just(0), st.integers(0, 200).map(lambda j: ast - j * D))))])
        anchor = ast + draw(st.integers(0, 4 * n + 5)) * D
        if mode == "stop":
            o.append(["stop", str(ast + draw(st.one_of(st.integers(0 if S == ast else 1, 4 * n + 5).map(lambda j: j * D), st.integers(1, 100))))])
        if mode == "dur":
            for _ in range(draw(st.integers(1, 2))):
                o.append(["dur", str(draw(st.integers(1, 4 * n + 5)) * D + draw(st.sampled_from([0, 0, 1])))])
    elif mode == "tfdt":
        o.append(["tfdt", "32"])
        anchor = S // 10800 * 10800 + draw(st.integers(0, 10799))
    elif mode == "cont":
        o.append(["cont", "1"])
        anchor = S
    elif mode == "modulo":
        xs = [x for x in HOUR_DIV if 12 * x % D == 0]
        x = draw(st.sampled_from(xs or [60]))
        o.append(["modulo", str(x)])
        anchor = S // (60 * x) * 60 * x + draw(st.integers(0, 54 * x - 1))
    elif mode == "periods":
        ns = [x for x in HOUR_DIV if 3600 // x % D == 0]
        x = draw(st.sampled_from(ns or [1]))
        o.append(["periods", str(x)])
        pd = 3600 // x
        anchor = draw(st.sampled_from([S // pd * pd, S // pd * pd, 0, pd, 2 * pd, 4 * pd])) + \
            draw(st.sampled_from([0, 1, pd // 2, pd - 1, D, 2 * D]))
        if draw(st.booleans()):
            o.append(["continuous", "1"])
    if periods and mode in ("start", "stop", "dur", "tfdt", "cont", "modulo"):
        ns = [x for x in HOUR_DIV if 3600 // x % D == 0]
        if ns and draw(st.integers(0, 2)) == 0:
            x = draw(st.sampled_from(ns))
            o.append(["periods", str(x)])
            if mode in ("start", "stop", "dur"):
                anchor += draw(st.integers(0, 4)) * (3600 // x) + draw(st.sampled_from([0, 0, -D, -1]))
            if draw(st.integers(0, 2)) == 0:
                o.append(["continuous", "1"])
    if "periods" in dict(o) and draw(st.integers(0, 2)) == 0:      # periods that end early
        x = int(dict(o)["periods"])
        o.append(["etp", str(draw(st.sampled_from([m for m in range(1, x + 1) if x % m == 0])))])
        if draw(st.integers(0, 3)):
            o.append(["etpDuration", str(draw(st.one_of(st.integers(1, 3600 // x // D).map(lambda j: j * D), st.integers(1, 3600 // x))))])
    elif periods and mode in ("start", "stop", "plain") and draw(st.integers(0, 7)) == 0:      # one period, 1000 hours late
        o.append(["periods", "0"])
        anchor = ast + 3600000 + draw(st.sampled_from([-3600000, -50, 0, 0, 0, 10 ** 7])) + draw(st.integers(0, 3 * n * D))
    if draw(st.booleans()):
        o.append(["snr", str(draw(st.sampled_from([-1, 0, 1, 5, 900])))])
    tsbd = draw(st.one_of(st.none(), st.sampled_from([0, 1, D, 2 * D, n * D, n * D - 1, n * D + 1, 3 * n * D]), st.integers(0, 3 * n * D)))
    if tsbd is not None:
        o.append(["tsbd", str(min(tsbd, maxtsbd))])
    o = list(draw(st.permutations(o)))
    times = draw(st.lists(st.tuples(st.one_of(st.sampled_from([0, D, -D, 1, -1]), st.integers(-3 * n * D, 3 * n * D)), strat.frac()),
                          min_size=1, max_size=nprobes))
    return {"spec": spec, "opts": o, "times": [float(anchor + a) + b for a, b in times]}


def period_list(m):
    "[(element, start, end or None)] from the MPD's own attributes."
    from vlib.mpd import dur_s
    out = []
    for p in m.periods:
        out.append([p, dur_s(p.get("start")), None])
    for i, x in enumerate(out):
        if x[0].get("duration"):
            x[2] = x[1] + dur_s(x[0].get("duration"))
        elif i + 1 < len(out):
            x[2] = out[i + 1][1]
    return out


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    for now in case["times"]:
        s = Session(c, opts, now)
        if now < s.ast:
            continue
        what = "opts %s at %r (AST %s D %d n %d)" % (opts, now, s.ast, c.D, c.n)
        m = load_mpd(getmpd(c, opts, now), what)
        multi = len(m.periods) > 1
        for p, ps, pe in period_list(m):
            seen = set()
            for a, r, tm in m.reps(p):
                t, rep = c.rep(r.get("id"))
                seen.add(rep["id"])
                w = "%s rep %s period %s" % (what, rep["id"], p.get("id"))
                if t["type"] == "image":        # Thumbnails stay described by numbers
                    check(tm.timeline is None and "$Number$" in tm.media, "image-timeline", w)
                    eq(F(tm.duration, tm.timescale), c.D, "image-duration", w)
                    eq(F(tm.pto, tm.timescale), s.mt0 + ps, "image-pto", w)
                    stats.label("thumbnails")
                    continue
                check(tm.timeline is not None, "no-timeline", w)
                check(tm.duration is None, "duration-and-timeline", w)
                eq(tm.timescale, t["ts"], "timescale", w)
                check(tm.gaps_ok(), "timeline-gap", w)
                eq(tm.pto, (s.mt0 + ps) * t["ts"], "pto", w)
                j0, want = timeline(s, c, t, int(now), ps, pe)
                got = tm.entries()
                eq(got, [(x[1], x[2]) for x in want], "timeline", w)
                if len(want) > c.n:
                    stats.label("spans a wrap or more")
                if len(want) > 1 and c.n > 1:
                    stats.nt()
                if p.get("duration"):
                    stats.label("ends early")
                if not want:
                    stats.label("empty")
                if multi:
                    stats.label("multi-period session" if s.ast else "multi-period")
            eq(seen, {r["id"] for _, r in c.reps()}, "representations", what)


SUBS = [Sub("timeline", tl_cases(images=True), prop, quick=3000, thorough=100000,
            rule="content with more than one segment per loop and a non-empty window of more than one entry")]
