from vlib.common import *
from vlib.mpd import dur_s, lex_datetime


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind=draw(st.sampled_from(["plain", "simple"])), maxn=5, mpdopts=False))
    D = spec["D"]
    o = {}
    mode = draw(st.sampled_from(["tfdt", "cont"]))
    o[mode] = 32 if mode == "tfdt" else draw(st.sampled_from([1, 1, 32]))
    if draw(st.booleans()):
        o["snr"] = draw(st.sampled_from([-1, 0, 1, 5, 900]))
    if draw(st.booleans()):
        o["tsbd"] = draw(st.sampled_from([0, 5, 30, 3600]))
    if draw(st.booleans()):
        o["ato"] = draw(st.sampled_from(["1", "2.5", "inf", "60"]))
    if draw(st.booleans()):
        o["mup"] = 7
    grid = draw(st.integers(1, 170000)) * 10800
    pr = []
    for _ in range(draw(st.integers(1, 4))):
        pos = draw(st.one_of(st.sampled_from([0, 1, D, 2 * D, 10799, 10800 - D, 5400]), st.integers(0, 10799)))
        pr.append([pos, draw(st.sampled_from([0.0, -1 / 64, 1 / 64, 0.5, -1.0, 1.0])),
                   draw(st.one_of(st.sampled_from(["now", "now+1", "now-1"]), st.integers(-2, 12), st.integers(0, 10800 // D)))])
    return {"spec": spec, "opts": optlist(draw, o), "grid": grid, "probes": pr}


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    mode = "tfdt" if "tfdt" in dict(opts) else "cont"
    for pos, delta, nsel in case["probes"]:
        now = case["grid"] + pos + delta
        s = Session(c, opts, now)
        what = "opts %s D %d at %r" % (opts, c.D, now)
        m = load_mpd(getmpd(c, opts, now), what)
        eq(m.ast, s.ast, "mpd-ast", what)
        eq(lex_datetime(m.a.get("availabilityEndTime")), s.ast + 10800, "mpd-aet", what)
        eq(dur_s(m.a.get("mediaPresentationDuration")), 10800, "mpd-duration", what)
        check(s.ast <= now < s.aet, "session-covers-now", what)
        if mode == "tfdt":
            eq(s.ast % 10800, 0, "grid", what)
        if isinstance(nsel, str):
            N = s.first + int((now - s.ast) // c.D) - 1 + (int(nsel[3:] or 0))
        else:
            N = s.first + nsel
        t, r = pick_rep(c, pos)
        want = s.available(N, now)
        resp = getseg(c, opts, r, N, now)
        what += " segment %d (first %d): %s" % (N, s.first, resp.status)
        eq(resp.code, 200 if want else 404, "availability", what)
        if want:
            frags = check_tfdt(c, t, r, resp.body, s.tfdt(N, t), N, what)
            mt = frags[0].tracks[0].tfdt
            if (s.media_time(N) + c.D) <= 10800 + c.D and t["ts"] <= 90000:
                check(mt < 2 ** 32, "exceeds-32-bits", what)
                if r["fmt"]["tfdt_v"] == 0:
                    eq(frags[0].tracks[0].tfdt_version, 0, "tfdt-version", what)
            stats.nt()
        stats.label("%s %s" % (mode, resp.code))
    both = opts + [["tfdt" if mode == "cont" else "cont", "32"]]
    t, r = pick_rep(c, 0)
    check(getmpd(c, both, now).code == 404, "tfdt-and-cont", "MPD %s" % both)
    check(getseg(c, both, r, N, now).code == 404, "tfdt-and-cont", "segment %s" % both)


SUBS = [Sub("restart", cases(), prop, quick=1600, thorough=60000, rule="at least one segment is served and its time checked")]
