from vlib.common import *
from vlib.mpd import dur_s


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind=draw(st.sampled_from(["plain", "simple"])), maxn=5, mpdopts=False))
    D = spec["D"]
    S = draw(strat.epochs())
    ast = S // D * D
    T = draw(st.one_of(st.just(0), st.integers(0, 1000).map(lambda j: ast - j * D), st.integers(0, ast // D).map(lambda j: ast - j * D)))
    o = {"start": S, "timeoffset": T}
    if draw(st.booleans()):
        o["snr"] = draw(st.sampled_from([-1, 0, 1, 5, 900]))
    if draw(st.integers(0, 3)) == 0:
        o["tsbd"] = draw(st.sampled_from([0, 30, 3600]))
    if draw(st.integers(0, 3)) == 0:
        o["stop"] = S + draw(st.integers(1, 300))
    ns = [x for x in (1, 2, 6, 20, 30, 60) if 3600 // x % D == 0]
    if ns and draw(st.integers(0, 3)) == 0:
        o["periods"] = draw(st.sampled_from(ns))
    return {"spec": spec, "opts": optlist(draw, o), "ks": draw(st.lists(st.integers(0, 40), min_size=1, max_size=4)),
            "dt": draw(strat.frac()),
            "mpd": draw(st.one_of(st.just(3 * D), st.integers(0, 3 * D), st.integers(0, 12000)))}


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    s = Session(c, opts, 0)
    now = float(s.ast + case["mpd"] + 0.5)
    m = load_mpd(getmpd(c, opts, now))
    eq(m.ast, s.ast, "mpd-ast", repr(opts))
    for p in m.periods:
        ps = dur_s(p.get("start"))
        for a, r, tm in m.reps(p):
            eq(tm.pto, (s.mt0 + ps) * tm.timescale, "pto", repr(opts))
            eq(tm.start_number, s.first + ps // c.D, "start-number", repr(opts))
    for k in case["ks"]:
        N = s.first + k
        now = float(s.end_of(N) + case["dt"])
        for t, r in c.reps():
            resp = getseg(c, opts, r, N, now)
            what = "segment %d (k %d) opts %s at %r: %s" % (N, k, opts, now, resp.status)
            want = Session(c, opts, now).available(N, now)
            eq(resp.code, 200 if want else 404, "availability", what)
            if not want:
                continue
            check_tfdt(c, t, r, resp.body, s.tfdt(N, t), N, what)
            if k == 0:
                d = s.tfdt(N, t) - s.mt0 * t["ts"]
                check(abs(d) <= 0.5 * t["ts"], "first-media-time", what)
            if s.T == 0:
                eo = [o for o in opts if o[0] not in ("start", "timeoffset", "stop", "periods")]
                es = Session(c, eo, now)
                e = getseg(c, eo, r, es.first + (s.end_of(N) // c.D - 1), now)
                need200(e, "epoch session segment for " + what)
                eq(e.body, resp.body, "epoch-session", what)
                stats.label("compared with epoch session")
            stats.nt(s.mt0 > 0)


SUBS = [Sub("timeoffset", cases(), prop, quick=1600, thorough=60000,
            rule="a served segment of a session with a positive media-time offset")]
