from vlib.common import *
from vlib.mpd import dur_s, lex_datetime
from checks.c05 import brands_of

XS = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


@st.composite
def cases(draw):
    x = draw(st.sampled_from(XS))
    D = draw(st.sampled_from([d for d in range(1, 13) if 12 * x % d == 0]))
    if draw(st.integers(0, 5)) == 0:    # no whole number of segments in the presentation
        D = draw(st.sampled_from([d for d in range(1, 13) if d <= 12 * x]))
    spec = draw(strat.specs(kind="plain", maxn=4, mpdopts=False, multirep=False, Ds=[D]))
    o = {"modulo": x}
    if draw(st.booleans()):
        o["snr"] = draw(st.sampled_from([-1, 0, 1, 5, 900]))
    if draw(st.booleans()):
        o["tsbd"] = draw(st.sampled_from([0, 5, 30, 3600]))
    if draw(st.integers(0, 3)) == 0:
        o["ato"] = draw(st.sampled_from(["1", "2.5", "inf", "60"]))
    per = 60 * x
    base = draw(strat.epochs()) // per * per
    pr = []
    for _ in range(draw(st.integers(2, 5))):
        pos = draw(st.one_of(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9]).map(lambda p: p * per // 10),
                             st.integers(0, per - 1)))
        delta = draw(st.sampled_from([0.0, 0.0, -1 / 64, -1.0, 1.0, 1 / 64, 0.5]))
        pr.append([pos, delta, draw(st.one_of(st.sampled_from(["e0", "e-1", "e1"]), st.integers(-2, per // D + 2)))])
    return {"spec": spec, "opts": optlist(draw, o), "base": base, "probes": pr}


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    D = c.D
    for pos, delta, nsel in case["probes"]:
        now = case["base"] + pos + delta
        s = Session(c, opts, now)
        what = "opts %s D %d at %r" % (opts, D, now)
        m = load_mpd(getmpd(c, opts, now), what)
        eq(m.ast, s.ast, "mpd-ast", what)
        eq(lex_datetime(m.a.get("availabilityEndTime")), s.aet, "mpd-aet", what)
        eq(dur_s(m.a.get("mediaPresentationDuration")), s.pres, "mpd-duration", what)
        eq(dur_s(m.a.get("minimumUpdatePeriod")), s.mup, "mpd-mup", what)
        stats.label("share %d%%" % (s.pres * 100 // (60 * int(dict(opts)["modulo"]))))
        whole = s.pres % D == 0
        if isinstance(nsel, str):
            N = s.last + int(nsel[1:])
        else:
            N = s.first + nsel
        t, r = pick_rep(c, pos)
        want = s.available(N, now)
        resp = getseg(c, opts, r, N, now)
        what += " segment %d (first %d last %d): %s %r" % (N, s.first, s.last, resp.status,
                                                           resp.body[:80] if resp.code != 200 else "")
        if not whole and (N - s.first) * D < s.pres < (N - s.first + 1) * D:
            stats.label("segment over the end")     # neither inside nor beyond
            continue
        eq(resp.code, 200 if want else 404, "availability", what)
        stats.label("segment %s %s" % (nsel if isinstance(nsel, str) else "x", resp.code))
        if want:
            _, brands = brands_of(resp.body, what)
            if whole:
                eq(b"lmsg" in brands, s.lmsg(N), "lmsg", what)
            if s.lmsg(N):
                stats.label("lmsg")
            check_tfdt(c, t, r, resp.body, s.tfdt(N, t), N, what)
        stats.nt(want or isinstance(nsel, str))
    so = opts + [["start", "1000"]]
    check(getmpd(c, so, now).code == 404, "start-and-modulo", "start with modulo must be refused")


SUBS = [Sub("modulo", cases(), prop, quick=2000, thorough=60000,
            rule="a segment that is served, or a number at the announced presentation end or next to it")]
