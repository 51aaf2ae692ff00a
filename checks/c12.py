"""Multi-period manifests against the hour-grid model, and compared over time."""
from vlib.common import *
from vlib.mpd import canon_elem, dur_s, kid, kids, lex_duration, ln, parse

HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
CONT = "urn:mpeg:dash:period_continuity:2014"


@st.composite
def cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video",), ("audio",)]))
    spec = draw(strat.specs(kind="plain", maxn=3, types=types))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    x = draw(st.sampled_from(HOUR_DIV + [0, 0, 61, 100, 7, 8, 13, 24, 59]))
    o = [["periods", str(x)]]
    n = min(x, 60)
    pd = 3600 // n if n else 3600
    if draw(st.integers(0, 2)) == 0:
        o.append(["continuous", draw(st.sampled_from(["1", "1", "0"]))])
    if draw(st.integers(0, 3)) == 0:
        o.append(["peroff", draw(st.sampled_from(["1", "1", "0"]))])
    if draw(st.booleans()):
        o.append(["snr", str(draw(st.sampled_from([-1, 0, 1, 5, 900])))])
    if draw(st.booleans()):
        o.append(["tsbd", str(draw(st.sampled_from([0, 1, D, 30, 60, pd - D, pd, pd + 1, 2 * pd, 3000])))])
    if draw(st.integers(0, 3)) == 0:
        o.append(["mup", str(draw(st.sampled_from([0, 1, 100])))])
    tl = draw(st.integers(0, 5))
    if tl < 2:
        o.append([["segtimeline", "segtimelinenr"][tl], "1"])
    o = list(draw(st.permutations(o)))
    so, ast = draw(strat.session_opts(D))
    o += so
    o = list(draw(st.permutations(o)))
    S = draw(st.one_of(st.integers(400_000 if x else 3_700_000, 1_800_000_000), st.integers(0, 3 * pd)))
    anchor = S // pd * pd
    if so:
        anchor = ast + draw(st.one_of(st.integers(-1, 4), st.integers(0, 200))) * pd
    times = draw(st.lists(st.tuples(st.one_of(st.sampled_from([0, 1, -1, pd // 2, pd // 2 - 1, pd // 2 + 1, pd - pd // 2, pd, D, pd + D]),
                                              st.integers(0, 3 * pd)), st.sampled_from(["", "+tsbd", "+tsbd"]), strat.frac()),
                          min_size=2, max_size=3))
    return {"spec": spec, "opts": o, "anchor": anchor, "times": [list(t) for t in times]}


def grid(s, now_i, pd):
    "Numbers of the periods of session s announced at now_i, counted from the availability start."
    t = now_i - s.ast
    if s.pres is not None:
        t = min(t, s.pres)
    last = max((t + pd // 2) // pd, 0)
    if s.pres is not None:      # no period starts after the end of the presentation
        last = min(last, max(s.pres - 1, 0) // pd)
    return list(range(max((t - s.tsbd - s.D) // pd, 0), last + 1))


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    od = dict(opts)
    x = int(od["periods"])
    n = min(x, 60)
    tl = od.get("segtimeline") == "1" or od.get("segtimelinenr") == "1"
    vod = parse(c.mpd_xml())
    vasets = kids(kid(vod, "Period"), "AdaptationSet")
    seen = {}
    first_only = set()
    for off, ts, fr in case["times"]:
        s0 = Session(c, opts, 0)
        now = max(0, case["anchor"] + off + (s0.tsbd + c.D if ts else 0) + fr)
        s = Session(c, opts, now)
        what = "opts %s at %r" % (opts, now)
        if tl and now < s.ast:      # no timeline before the session
            continue
        r = getmpd(c, opts, now)
        if n and n not in HOUR_DIV:
            eq(r.code, 404, "bad-period-number", what)
            stats.label("refused")
            continue
        if n and 3600 // n % c.D != 0:
            stats.label("not aligned")
            aligned = False
        else:
            aligned = n > 0 or 3600000 % c.D == 0
        m = load_mpd(r, what)
        pd = 3600 // n if n else None
        nrs = grid(s, int(now), pd) if n else [None]
        want = [("p%d" % k, k * pd) for k in nrs] if n else [("p0", 3600000)]
        eq([(p.get("id"), dur_s(p.get("start"))) for p in m.periods], want, "periods", what)
        check(all("duration" not in p.attrib for p in m.periods), "period-duration", what)
        if n:
            if m.a.get("type") == "static":
                check("minimumUpdatePeriod" not in m.a, "update-period", what)
                stats.label("static")
            elif tl:
                eq(lex_duration(m.a.get("minimumUpdatePeriod")), (0, 0), "update-period", what)
            else:
                eq(dur_s(m.a.get("minimumUpdatePeriod")), pd // 2 - 5, "update-period", what)
        eq(m.ast, s.ast, "ast", what)
        prev = None
        for pi, (p, (pid, ps)) in enumerate(zip(m.periods, want)):
            w = "%s period %s" % (what, pid)
            asets = kids(p, "AdaptationSet")
            eq([a.get("contentType") for a in asets], [a.get("contentType") for a in vasets], "adaptation-sets", w)
            for a, va in zip(asets, vasets):
                eq([canon_elem(e) for e in kids(a, "Representation")], [canon_elem(e) for e in kids(va, "Representation")],
                   "representations", w)
                links = [e.get("value") for e in kids(a, "SupplementalProperty") if e.get("schemeIdUri") == CONT]
                eq(links, [prev] if od.get("continuous") == "1" and prev is not None else [], "continuity", w)
                if links:
                    stats.label("continuity link")
            sb = kids(p, "SegmentBase")
            if od.get("peroff") == "1":
                off = s.mt0 + ps
                eq([int(e.get("presentationTimeOffset", 0)) for e in sb], [off] if off else [], "period-level-offset", w)
                for a in asets if not tl else []:
                    for t in kids(a, "SegmentTemplate"):
                        check("presentationTimeOffset" not in t.attrib, "offset-in-template", w)
            elif "peroff" not in od:
                eq(len(sb), 0, "segment-base", w)
            for a, rep, tm in m.reps(p):
                eq(F(tm.pto, tm.timescale), s.mt0 + ps, "pto", w)
                if not tl and aligned:
                    eq(tm.start_number, s.first + ps // c.D, "start-number", w)
            prev = pid
            if not tl:
                pc = canon_elem(p)
                if od.get("continuous") == "1" and pi == 0:
                    continue
                if (s.ast, pid) in seen:
                    eq(pc, seen[s.ast, pid], "period-changed", w)
                    stats.label("period seen twice")
                seen[s.ast, pid] = pc
        if n and len(nrs) > 1:
            stats.nt()
            stats.label("session" if s.ast else "epoch")
        stats.label("%d periods" % len(want) if len(want) < 4 else "4+ periods")


SUBS = [Sub("grid", cases(), prop, quick=2400, thorough=80000, rule="a manifest with two or more periods")]
