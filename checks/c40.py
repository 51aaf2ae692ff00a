"""A client that updates its manifest: successive manifests of a session agree, and a segment has the same bytes whenever it is fetched."""
from urllib.parse import urlparse

from checks.c37 import HOUR_DIV, XL, values
from vlib.common import *
from vlib.mpd import canon_elem, dur_s, kid, kids, lex_datetime, ln
from vlib.server import url
from vlib.strat import with_subs

NAMES = ["utc", "spd", "mup", "ato", "scte35", "continuous", "peroff", "mpdcallback", "init", "sidx", "snr", "tsbd", "chunkdur", "sts", "sid", "baseurl"]


@st.composite
def cases(draw, near=False):
    types = draw(st.sampled_from([("video", "audio"), ("video", "audio"), ("video",), ("audio",)]))
    spec = draw(strat.specs(kind="plain", maxn=3, types=types))
    spec = draw(with_subs(draw(strat.with_images(spec))))
    D = spec["D"]
    o, ast = draw(strat.session_opts(D, modes=("plain", "start", "stop", "stop", "dur", "dur", "tfdt", "cont", "modulo")) if near else strat.session_opts(D))
    mode = draw(st.sampled_from(["plain", "plain", "plain", "periods", "periods", "periods", "remote", "zero"]))
    n = draw(st.sampled_from(HOUR_DIV + [20, 30, 60, 60, 60]))
    if mode in ("periods", "remote") and draw(st.integers(0, 3)):   # mostly periods of whole segments
        n = draw(st.sampled_from([x for x in HOUR_DIV if 3600 // x % D == 0] or [1]))
    v = draw(values(D, n))
    names = draw(st.lists(st.sampled_from(NAMES), max_size=6, unique=True))
    if near and "ato" not in names and draw(st.booleans()):
        names.append("ato")
    tl = draw(st.sampled_from([None, "segtimeline", "segtimeline", "segtimelinenr", "segtimelinenr"]))
    if mode in ("periods", "remote"):
        names.append("periods")
        e = draw(st.integers(0, 4))
        if e < 2:
            names += ["etp"] + ["etpDuration"] * e
        if mode == "remote":
            names.append("xlink")
    elif mode == "zero":
        v["periods"] = 0
        names.append("periods")
    if tl:
        names.append(tl)
    opts = list(draw(st.permutations(o + [[k, str(v[k])] for k in names])))
    pd = 3600 // n
    t = draw(st.one_of(st.sampled_from([0, D, 10, 30, 50]), st.integers(0, 300), st.integers(0, 9000),
                       st.integers(0, 20).map(lambda j: j * pd + pd // 2)))
    t0 = (ast if o else draw(strat.epochs())) + t
    step = st.one_of(st.integers(0, 3), st.integers(0, 3 * D), st.integers(0, 100), st.sampled_from([pd, pd // 2, pd - 1, D * spec["n"]]),
                     st.integers(0, 4000))
    if near:     # mostly within the time that a segment is available
        step = st.one_of(st.integers(0, D), st.integers(0, 20), st.integers(0, int(dict(opts).get("tsbd", spec["tsbd"]))), st.integers(0, 200))
    times, cur = [], t0
    for d in [0] + draw(st.lists(step, min_size=1, max_size=4)):
        cur += d
        times.append(cur + draw(strat.frac()))
    return {"spec": spec, "opts": opts, "times": sorted(times), "picks": draw(st.lists(st.integers(0, 10 ** 6), min_size=4, max_size=4)),
            "end": draw(st.one_of(st.none(), st.sampled_from([0, 0, 1, D, -D]), st.integers(-2 * D, 2 * D)))}


MPD_FIXED = ["availabilityStartTime", "profiles", "id", "minBufferTime", "suggestedPresentationDelay"]
LIVE_FIXED = ["timeShiftBufferDepth", "maxSegmentDuration", "type", "minimumUpdatePeriod"]
CONT = "urn:mpeg:dash:period_continuity:2014"


def aset_facts(a):
    "Everything of an adaptation set that its timeline (and with it its first number) does not change."
    out = []
    for e in a:
        if ln(e) == "SupplementalProperty" and e.get("schemeIdUri") == CONT:
            continue                             # not in the first period of the manifest
        if ln(e) == "SegmentTemplate" and kid(e, "SegmentTimeline") is not None:
            out.append(("SegmentTemplate", tuple(sorted((k, v) for k, v in e.attrib.items() if k != "startNumber"))))
        else:
            out.append(canon_elem(e))
    return tuple(sorted(a.attrib.items())), tuple(out)


def facts(m, c):
    "What must not change from one manifest of a session to a later one, and the segments of the timelines."
    out = {}
    for k in MPD_FIXED + (LIVE_FIXED if m.a.get("type") == "dynamic" else []):
        out["MPD@" + k] = m.a.get(k)
    rest = []
    for e in m.root:
        if ln(e) != "Period" and not (ln(e) == "UTCTiming" and e.get("schemeIdUri") == "urn:mpeg:dash:utc:direct:2014"):
            rest.append(canon_elem(e))
    out["elements beside the periods"] = rest
    segs = {}
    for j, p in enumerate(m.periods):
        if p.get(XL):
            continue
        pid = p.get("id")
        ps = dur_s(p.get("start"))
        out["start of period " + pid] = ps
        out["period at %s" % ps] = pid
        out["elements of period " + pid] = [canon_elem(e) for e in p if ln(e) != "AdaptationSet"]
        for i, a in enumerate(kids(p, "AdaptationSet")):
            out["adaptation set %d of period %s" % (i, pid)] = aset_facts(a)
            if j:
                out["continuity of adaptation set %d of period %s" % (i, pid)] = [
                    e.get("value") for e in kids(a, "SupplementalProperty") if e.get("schemeIdUri") == CONT]
        for a, r, tm in m.reps(p):
            if tm.timeline is None:
                continue
            for i, (t, d) in enumerate(tm.entries()):
                key = (r.get("id"), pid, t)
                segs.setdefault(r.get("id"), {})[(ps + F(t - tm.pto, tm.timescale), pid)] = d
                out["duration of segment %s %s %s" % key] = d
                if "$Number$" in tm.media:
                    out["number of segment %s %s %s" % key] = tm.start_number + i
    return out, segs


def span(m):
    ps = [dur_s(p.get("start")) for p in m.periods if p.get("start")]
    return (ps[0], ps[-1]) if ps else None


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    od = dict(opts)
    what = "opts %s" % opts
    path = None
    prev = []
    for now in case["times"]:
        s = Session(c, opts, now)
        r = getmpd(c, opts, now) if path is None else get(c, path, now)
        if r.code != 200 and ("segtimeline" in od or "segtimelinenr" in od):   # before the start of the (next) session
            continue
        m = load_mpd(r, "%s at %r" % (what, now))
        if m.locations and path is None:     # a session relative to the first request
            path = urlparse(m.locations[0].text).path
            m = load_mpd(get(c, path, now), "%s at %r" % (path, now))
        f, segs = facts(m, c)
        for now0, m0, f0, segs0 in prev:
            w = "%s at %r and %r" % (what, now0, now)
            check(lex_datetime(m0.a["publishTime"]) <= lex_datetime(m.a["publishTime"]), "publish-time", w)
            if m0.ast != m.ast:              # another session has started
                check(m.ast > m0.ast and ("cont" in od or "tfdt" in od or "modulo" in od), "availability-start", w)
                stats.label("another session")
                continue
            for k, x in f0.items():
                if k in f and not (k.startswith("MPD@") and m.a["type"] != m0.a["type"]):
                    eq(f[k], x, "changed", "%s: %s" % (w, k))
            a, b = span(m0), span(m)
            if a and b:
                check(a[0] <= b[0] and a[1] <= b[1], "periods-went-back", "%s: %s then %s" % (w, a, b))
            ids0, ids = [p.get("id") for p in m0.periods], [p.get("id") for p in m.periods]
            if not any(p.get(XL) for p in m.periods + m0.periods):
                common = [x for x in ids0 if x in ids]
                eq(ids[:len(common)], common, "period-sequence", w)
                eq(ids0[len(ids0) - len(common):], common, "period-sequence", w)
            for rid in segs0:
                if segs0[rid] and segs.get(rid):
                    lo, hi = min(segs[rid]), max(segs0[rid])
                    check(min(segs0[rid]) <= lo and hi <= max(segs[rid]), "timeline-went-back", "%s rep %s" % (w, rid))
                    eq([x for x in sorted(segs[rid]) if x <= hi], [x for x in sorted(segs0[rid]) if x >= lo], "timeline-rewritten",
                       "%s rep %s" % (w, rid))
                    stats.label("timelines overlap")
            stats.nt(now > now0)
        prev.append((now, m, f, segs))
    for k in od:
        stats.label(k)


def prop_seg(case, stats):
    "A segment that is available at two times has the same bytes; it is not available before it first is, or again after it no longer is."
    c = materialize(case["spec"])
    opts = case["opts"]
    od = dict(opts)
    if "startrel" in od or "baseurl" in od:      # lossy segments get event messages
        return
    what = "opts %s" % opts
    times = case["times"]
    s = Session(c, opts, times[0])
    end = s.last if s.last is not None else s.beyond - 1 if s.beyond is not None else None
    if end is not None and s.ato is not None and case["end"] is not None:     # around the end of the session
        t1 = times[case["picks"][0] % len(times)]
        times = [float(max(s.ast, s.end_of(end) + case["end"] - (s.ato if case["picks"][1] % 2 else 0) + F(t) - F(int(t1)))) for t in times]
        if case["picks"][2] % 3 == 0:        # also well before, when the first one is no longer in the window
            T = int(dict(opts).get("tsbd", c.tsbd))
            times = sorted([float(max(s.ast, F(times[0]) - T * x - c.D * y)) for x, y in ((2, 4), (1, 2))] + times)
    ss = [Session(c, opts, t) for t in times]
    ss = [(s, t) for s, t in zip(ss, times) if s.ast == ss[0].ast]
    if len(ss) < 2:
        return
    if ss[0][0].ato is None:
        return
    same = 0
    for pk in case["picks"]:
        t, r = pick_rep(c, pk)
        s, now = ss[pk // 5 % len(ss)]
        lo, hi = s.window(now)
        N = max(s.first, lo - 1 + pk // 7 % (max(hi - lo, 0) + 3))
        if end is not None and pk // 3 % 3 == 0:
            N = max(s.first, end - pk // 7 % 3)
        name = c.reldir(r)
        if t["type"] in ("video", "audio") and pk // 11 % 3 == 0 and "chunkdur" not in od:     # multiplexed with another track
            o = [x for x in c.reps() if x[0]["type"] == {"video": "audio", "audio": "video"}[t["type"]] and x[1].get("dir") == r.get("dir")]
            name += "__" + o[0][1]["id"] if o else ""
        prev, state = None, []
        for s2, t2 in ss:
            lo2, hi2 = s2.window(t2)
            w = "%s rep %s segment %d at %r" % (what, r["id"], N, t2)
            ll = "chunkdur" in od
            rr = get(c, url(opts, c.name, name, "%d%s" % (N, ".jpg" if t["type"] == "image" else ".m4s")), t2)
            state.append(rr.code)
            if rr.code != 200:
                continue
            if prev is not None:
                eq(rr.body, prev[1], "bytes-changed", "%s and at %r" % (w, prev[0]))
                same += 1
                stats.label("multiplexed" if "__" in name else t["type"] + (" low latency" if ll else ""))
            else:
                prev = (t2, rr.body)
        on = [i for i, x in enumerate(state) if x == 200]
        if on:
            check(all(x == 200 for x in state[on[0]:on[-1] + 1]), "available-again", "%s rep %s segment %d at %s: %s" % (
                what, r["id"], N, [x[1] for x in ss], state))
    for t, r in c.reps():
        if t["type"] != "image":
            got = [get(c, init_path(opts, c, r), t2) for _, t2 in ss]
            ok = [x.body for x in got if x.code == 200]
            check(len(set(ok)) <= 1, "init-changed", "%s rep %s" % (what, r["id"]))
            codes = [x.code for x in got]
            eq(codes, sorted(codes, reverse=True), "init-gone", "%s rep %s" % (what, r["id"]))
    stats.nt(same > 0)


SUBS = [Sub("updates", cases(), prop, quick=1000, thorough=60000, rule="two manifests of one session at different times were compared"),
        Sub("segments", cases(near=True), prop_seg, quick=800, thorough=50000, rule="a segment fetched at two times")]
