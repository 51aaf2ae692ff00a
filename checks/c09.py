"""A DASH client follows number-based manifests: everything announced is there, with the announced media time."""
from urllib.parse import urlparse

from vlib.common import *
from vlib.mpd import dur_s, lex_datetime, path_of

HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


@st.composite
def cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video", "audio"), ("video",), ("video", "audio", "subtitles")]))
    spec = draw(strat.specs(kind="plain", maxn=5, types=[t for t in types if t != "subtitles"]))
    D = spec["D"]
    if "subtitles" in types:
        spec["tracks"].append({"type": "subtitles", "ts": 1000, "fd": D * 1000, "fb": list(range(spec["n"] + 1)), "reps": [
            {"id": "S1", "tid": 1, "fmt": {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": 0}, "docs": ["<tt>x</tt>"]}]})
    spec = draw(strat.with_images(spec))
    o = []
    mode = draw(st.sampled_from(["plain", "start", "start", "rel", "rel", "relopen", "tfdt", "cont", "modulo", "periods", "periods",
                                 "periods0", "stop", "dur"]))
    S = draw(strat.epochs())
    anchor = S
    ast = S // D * D
    if mode == "dur":
        S = ast
    if mode in ("start", "stop", "dur"):
        o.append(["start", str(S)])
    if mode == "dur":
        for _ in range(draw(st.integers(1, 2))):
            o.append(["dur", str(D * draw(st.integers(1, 200)))])
    if mode == "stop":
        o.append(["stop", str(ast + draw(st.one_of(st.just(0 if S == ast else D), st.integers(1, 60 * D))))])
    if mode == "tfdt":
        o.append(["tfdt", "32"])
        anchor = S // 10800 * 10800 + draw(st.sampled_from([0, D, 2 * D, 5000, 10800 - D]))
    if mode == "cont":
        o.append(["cont", "1"])
    if mode == "modulo":
        xs = [x for x in HOUR_DIV if 12 * x % D == 0]
        x = draw(st.sampled_from(xs or [60]))
        if 12 * x % D == 0:
            o.append(["modulo", str(x)])
            anchor = S // (60 * x) * 60 * x + draw(st.sampled_from([0, 6 * x, 12 * x, 18 * x, 30 * x, 53 * x]))
    if mode in ("rel", "relopen"):
        o.append(["startrel", str(-draw(st.integers(0, 400)))])
        if mode == "rel":
            o.append(["stoprel", str(draw(st.integers(max(-20, int(dict(o)["startrel"])), 400)))])   # never ends before it starts
    elif mode in ("start", "stop", "dur") and draw(st.booleans()):
        o.append(["timeoffset", str(draw(st.one_of(st.just(0), st.integers(0, 400).map(lambda j: ast - j * D))))])
    if mode in ("start", "rel", "relopen", "stop", "dur", "tfdt", "modulo", "cont"):
        ns = [x for x in HOUR_DIV if 3600 // x % D == 0]
        if ns and draw(st.integers(0, 2)) == 0:
            x = draw(st.sampled_from(ns))
            o.append(["periods", str(x)])
            if mode not in ("tfdt", "modulo"):
                anchor += draw(st.integers(0, 6)) * (3600 // x) + draw(st.sampled_from([0, -1, D]))
    if mode == "periods":
        ns = [x for x in HOUR_DIV if 3600 // x % D == 0]
        x = draw(st.sampled_from(ns or [1]))
        if 3600 // x % D == 0:
            o.append(["periods", str(x)])
            pd = 3600 // x
            anchor = draw(st.one_of(st.just(S // pd * pd), st.just(S // pd * pd), st.integers(0, 4).map(lambda j: j * pd))) + \
                draw(st.sampled_from([0, 1, D, pd // 2, pd - 1]))
            if draw(st.booleans()):
                o.append(["continuous", "1"])
            if draw(st.integers(0, 2)) == 0:
                o.append(["peroff", "1"])
    if mode == "periods0" and 3600000 % D == 0:
        o.append(["periods", "0"])
        anchor = max(S, 3700000)
        if draw(st.booleans()):
            o.append(["start", str(S)])
            if draw(st.booleans()):
                o.append(["timeoffset", str(draw(st.one_of(st.just(0), st.integers(0, 400).map(lambda j: ast - j * D))))])
            anchor = ast + 3600000 + draw(st.sampled_from([0, D, 5000]))
        if draw(st.booleans()):
            o.append(["peroff", "1"])
    if draw(st.booleans()):
        o.append(["snr", str(draw(st.sampled_from([-1, 0, 1, 5, 900])))])
    if draw(st.booleans()):
        o.append(["tsbd", str(draw(st.sampled_from([0, 1, 5, 30, 60, 400, 4000])))])
    ato = None
    if draw(st.integers(0, 2)) == 0 and mode not in ("stop", "rel", "relopen"):
        ato = draw(st.sampled_from(["1", "0.5", "inf", "2.25", "7", "0.0625", "3.96875", "12.015625"]))
        o.append(["ato", ato])
    if draw(st.booleans()):
        o.append(["mup", str(draw(st.sampled_from([0, 1, 10, 60])))])
    o = list(draw(st.permutations(o)))
    times = draw(st.lists(st.tuples(st.one_of(st.sampled_from([0, D, -1, 1, 2 * D]), st.integers(0, 600)), strat.frac()), min_size=1, max_size=3))
    if ato not in (None, "inf") and draw(st.booleans()):     # right around the moment a segment becomes available
        times[0] = (times[0][0] // D * D - anchor % D, draw(st.sampled_from([0, 1 / 64, -1 / 64, 1 / 1024, -1 / 1024])) - float(ato))
    return {"spec": spec, "opts": o, "times": [max(0.0, anchor + a + b) for a, b in times],
            "later": draw(st.one_of(st.just(0), st.integers(0, 200 * 64).map(lambda x: x / 64))),
            "salt": draw(st.integers(0, 1000))}


def follow(c, m, url, now, tsbd, case, stats, what, ato_inf=False):
    "Fetch what the manifest announces at now."
    od = dict(case["opts"])
    base = m.base(url)
    ato = F(0)
    if m.baseurls and m.baseurls[0].get("availabilityTimeOffset"):
        v = m.baseurls[0].get("availabilityTimeOffset")
        ato = None if v == "INF" else F(v)
    pres = dur_s(m.a["mediaPresentationDuration"]) if "mediaPresentationDuration" in m.a else None
    tsbd = dur_s(m.a["timeShiftBufferDepth"]) if "timeShiftBufferDepth" in m.a else None     # None: everything from the start
    static_end = m.a.get("type") == "static"
    starts = [dur_s(p.get("start")) for p in m.periods]
    fnow = F(now)
    nfetched = 0
    if "availabilityEndTime" in m.a and fnow > lex_datetime(m.a["availabilityEndTime"]):
        return 0        # nothing is announced as available any more
    for pi, p in enumerate(m.periods):
        ps = starts[pi]
        pe = starts[pi + 1] if pi + 1 < len(starts) else (pres if pres is not None else None)
        if p.get("duration"):
            pe = ps + dur_s(p.get("duration"))
        for a, r, tm in m.reps(p):
            w = "%s rep %s period %s" % (what, r.get("id"), p.get("id"))
            t, rep = c.rep(r.get("id"))
            image = t["type"] == "image"
            eq(image, tm.init is None, "init-template", w)
            path, host, _ = path_of(base, tm.expand(tm.init or ""))
            if now >= m.ast and not image:
                ri = get(c, path, now, host=host)
                need200(ri, w + " init " + path)
                check(parse_boxes(ri.body, w)[0].type == b"ftyp", "init-content", w)
            d = F(tm.duration, tm.timescale)
            # index of the newest available segment of the period and of the oldest one
            p0 = m.ast + ps
            x = fnow + (ato if ato is not None else 0) - p0
            hi = int(x // d) - 1           # p0 + (hi+1) d - ato <= now
            if ato is None:
                hi = max(hi, 0) + 3 if now >= m.ast else -1
            if static_end or tsbd is None:
                lo = 0
            else:
                lo = max(0, -int((p0 + d + d + tsbd - fnow) // d))     # p0 + (lo+1)d + d + tsbd >= now
            nxt = hi + 1
            if pe is not None:
                kmax = -(-(pe - ps) // d) - 1
                if nxt > kmax and pi == len(starts) - 1:
                    nxt = None
                hi = min(hi, kmax)
            ks = []
            if hi >= lo:
                ks = sorted({lo, min(lo + 1, hi), (lo + hi) // 2, max(lo, hi - 1), hi, lo + case["salt"] % (hi - lo + 1)})
            for k in ks:
                N = tm.start_number + k
                path, host, _ = path_of(base, tm.expand(tm.media, N))
                resp = get(c, path, now, host=host)
                ww = "%s: segment %d (k=%d of %d..%d)" % (w, N, k, lo, hi)
                need200(resp, ww)
                nfetched += 1
                if image:
                    check(resp.body == c.seg_bytes(t, rep, int(F(tm.pto, tm.timescale) + k * d) // c.D % c.n), "wrong-image", ww)
                    stats.label("image")
                    continue
                _, frags = parse_seg(resp.body, c.trex_tuple(t, rep), ww)
                tr = frags[0].tracks[0]
                pt = F(tr.tfdt, t["ts"]) - F(tm.pto, tm.timescale)
                check(abs(pt - k * d) <= F(1, 2), "media-time", "%s: presentation time in period %s, expected about %s" % (
                    ww, float(pt), float(k * d)))
            if ato is not None and nxt is not None and nxt >= 0:
                N = tm.start_number + nxt
                path, host, _ = path_of(base, tm.expand(tm.media, N))
                eq(get(c, path, now, host=host).code, 404, "early-segment", "%s: segment %d not yet ended" % (w, N))
            if ps == 0 and tm.start_number > 0:
                path, host, _ = path_of(base, tm.expand(tm.media, tm.start_number - 1))
                eq(get(c, path, now, host=host).code, 404, "segment-before-first", "%s: segment %d" % (w, tm.start_number - 1))
    return nfetched


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    od = dict(opts)
    tot = 0
    for now in case["times"]:
        s = Session(c, opts, now)
        what = "opts %s at %r (D %d)" % (opts, now, c.D)
        url = "http://example.com" + mpd_path(opts, c)
        m = load_mpd(get(c, urlparse(url).path, now), what)
        tot += follow(c, m, url, now, s.tsbd, case, stats, what)
        if m.locations:
            loc = m.locations[0].text
            later = now + case["later"]
            u = urlparse(loc)
            m2 = load_mpd(get(c, u.path, later, host=u.netloc), "Location %s at %r (from %s)" % (loc, later, what))
            eq(m2.ast, m.ast, "location-ast", what)
            # the opened session keeps its buffer depth
            s2 = Session(c, [["start", str(int(m.ast))] if k == "startrel" else [k, v] for k, v in opts], later)
            tot += follow(c, m2, loc, later, s2.tsbd, case, stats, "Location %s at %r" % (loc, later))
            stats.label("via Location")
        if "periods" in od:
            stats.label("multi-period session" if s.ast and od["periods"] != "0" else "multi-period" if od["periods"] != "0" else "periods_0")
    for k in od:
        stats.label(k)
    stats.nt(tot >= 6)


SUBS = [Sub("client", cases(), prop, quick=1200, thorough=40000, rule="six or more media segments fetched by the client")]
