from vlib.common import *


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=5, mpdopts=False))
    if draw(st.integers(0, 5)) == 0:
        spec["cfgver"] = "1.0"
    D = spec["D"]
    o = {}
    anchored = draw(st.booleans())
    if anchored:
        o[draw(st.sampled_from(["start", "ast"]))] = draw(strat.epochs())
        if draw(st.integers(0, 3)) == 0:
            S = int(list(o.values())[0])
            ast = S // D * D
            o["timeoffset"] = draw(st.one_of(st.just(0), st.integers(0, 400).map(lambda j: ast - j * D)))
    if draw(st.booleans()):
        o["tsbd"] = draw(st.sampled_from([0, 1, 2, 5, 10, 30, 60, 299, 300, 3600]))
    if draw(st.booleans()):
        o["ato"] = draw(st.one_of(st.sampled_from(["inf", "0", "1", "0.5", str(D - 1), str(D), str(D + 3), "-1", "-3", "x"]),
                                  st.integers(0, 64 * 3 * D).map(lambda x: repr(x / 64))))
    if draw(st.booleans()):
        o["snr"] = draw(st.sampled_from([-1, 0, 1, 2, 17, 1000000]))
    opts = optlist(draw, o)
    probes = []
    for _ in range(draw(st.integers(2, 6))):
        if anchored:
            k = draw(st.one_of(st.integers(-3, 12), st.integers(0, 200000), st.just(0)))
        else:
            k = draw(st.one_of(st.integers(-3, 12), st.integers(10 ** 7, 3 * 10 ** 8)))
        probes.append([k, draw(st.sampled_from(["early", "late", "early", "late", "ast", "mid"])),
                       draw(st.one_of(st.sampled_from(list(DELTAS) + [-float(D), float(D)]), st.integers(-400, 400).map(lambda x: x / 64))),
                       draw(st.integers(0, 7))])
    return {"spec": spec, "opts": opts, "probes": probes}


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    s0 = Session(c, opts, 0)
    yes = no = 0
    for k, edge, delta, ri in case["probes"]:
        N = s0.first + k
        e = s0.end_of(N)
        ato = s0.ato or 0
        now = float({"early": e - ato, "late": e + s0.D + s0.tsbd, "ast": F(s0.ast), "mid": e + s0.tsbd // 2}[edge]) + delta
        if now < 0:
            continue
        t, r = pick_rep(c, ri)
        want = Session(c, opts, now).available(N, now)
        resp = getseg(c, opts, r, N, now)
        stats.label("%s/%s" % (edge, "200" if want else "404"))
        msg = "segment %s (k=%d) opts %s at %r (AST %s, D %d): %s" % (N, k, opts, now, s0.ast, s0.D, resp.status)
        if want:
            check(resp.code == 200, "available-refused", msg + " %r" % resp.body[:100])
            yes += 1
        else:
            check(resp.code == 404, "unavailable-served" if resp.code == 200 else "bad-status", msg)
            no += 1
    stats.nt(yes > 0 and no > 0)


SUBS = [Sub("window", cases(), prop, quick=4000, thorough=150000,
            rule="at least one probe must be served and at least one refused by the model")]
