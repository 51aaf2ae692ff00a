"""Options that cannot be honoured are refused; options that are switched off are as absent ones."""
from checks.c37 import strip
from vlib.common import *
from vlib.mpd import XLINK  # noqa: F401

HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
INT_OPTS = ["start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "periods", "xlink", "etp",
            "etpDuration", "insertad", "mpdcallback", "continuous", "segtimeline", "segtimelinenr", "peroff", "scte35", "snr", "spd", "sidx",
            "segtimelineloss"]
NOT_INT = st.one_of(st.sampled_from(["", "x", "1.5", "1e3", "0x10", "--1", "1-", "abc", "ten", "1,5", "1.0", "inf", "nan", "-", "1_x", "5s", "%31"]),
                    st.text("abcxyz.-%,", min_size=1, max_size=6),
                    st.tuples(st.integers(0, 10 ** 9), st.text("abcxyz.,", min_size=1, max_size=3)).map(lambda x: "%d%s" % x))
UNKNOWN = ["foo", "startx", "Start", "segtimelin", "sid2", "chunk", "periodes", "tsb", "xstart", "utcx", "SNR", "modul"]


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=3, types=draw(st.sampled_from([("video", "audio"), ("video",), ("audio",)]))))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    so, ast = draw(strat.session_opts(D))
    n = draw(st.sampled_from([None, None] + HOUR_DIV))
    o = []
    if n:
        o.append(["periods", str(n)])
    for k, v in (("snr", "3"), ("tsbd", "60"), ("utc", "direct"), ("spd", "10"), ("mup", "7"), ("scte35", "1"), ("sidx", "1"), ("sid", "a_b")):
        if draw(st.integers(0, 4)) == 0:
            o.append([k, v])
    if not any(k in ("tfdt", "cont", "modulo") for k, _ in so) and draw(st.integers(0, 4)) == 0:
        o.append([draw(st.sampled_from(["segtimeline", "segtimelinenr"])), "1"])
    base = so + o
    used = [k for k, _ in base]
    kind = draw(st.sampled_from(["int", "int", "int", "snr", "both", "both", "unknown", "bare", "utc", "periods", "fraction", "etpdur", "xlinkalone",
                                 "adalone"]))
    if kind == "int":
        bad = [[draw(st.sampled_from(INT_OPTS)), draw(NOT_INT)]]
    elif kind == "snr":
        bad = [["snr", str(draw(st.one_of(st.integers(-30, -2), st.integers(-10 ** 12, -2))))]]
        base = [x for x in base if x[0] != "snr"]
    elif kind == "both":
        bad = draw(st.sampled_from([[["tfdt", "32"], ["cont", "1"]], [["start", str(ast)], ["modulo", "10"]], [["startrel", "-20"], ["modulo", "10"]]]))
        drop = {"tfdt", "cont", "start", "startrel", "modulo", "stop", "stoprel", "dur", "timeoffset"}
        base = [x for x in base if x[0] not in drop]
        if bad[0][0] == "tfdt":
            bad += draw(st.sampled_from([[], [], [["start", str(ast)]], [["startrel", "-30"]], [["start", str(ast)], ["timeoffset", "0"]],
                                         [["start", str(ast)], ["dur", "3000"]]]))
        if bad[0][0].startswith("start"):
            bad += draw(st.sampled_from([[], [["stop", str(ast + 10 ** 6)]], [["stoprel", "1000"]], [["dur", "3000"]]]))
    elif kind == "unknown":
        bad = [[draw(st.sampled_from(UNKNOWN)), draw(st.sampled_from(["1", "10", "x", "-1"]))]]
    elif kind == "bare":
        bad = [[draw(st.sampled_from(INT_OPTS + ["sid", "sts", "utc", "ato", "chunkdur", "baseurl", "tfdt", "cont"])), None]]
        if bad[0][0] in ("sid", "sts", "utc", "tfdt", "cont") and draw(st.booleans()):
            bad = [["tsbd", None]]
    elif kind == "utc":
        ok = draw(st.lists(st.sampled_from(["direct", "head", "ntp", "sntp", "httpxsdate", "httpiso"]), max_size=2))
        wrong = draw(st.sampled_from(["x", "", "DIRECT", "http", "https", "ntpx", "iso", "direct ", "0"]))
        ok.insert(draw(st.integers(0, len(ok))), wrong)
        bad = [["utc", "-".join(ok)]]
        base = [x for x in base if x[0] != "utc"]
    elif kind == "periods":
        bad = [["periods", str(draw(st.one_of(st.integers(1, 60).filter(lambda x: x not in HOUR_DIV), st.integers(-100, -2))))]]
        base = [x for x in base if x[0] != "periods"]
    else:
        n = n or draw(st.sampled_from(HOUR_DIV))
        base = [x for x in base if x[0] != "periods"]
        if kind == "fraction":
            name = draw(st.sampled_from(["xlink", "etp", "mpdcallback"]))
            m = draw(st.integers(1, 70).filter(lambda m: n % min(m, 60)))
            bad = [["periods", str(n)], [name, str(m)]]
        elif kind == "etpdur":
            bad = [["periods", str(n)], ["etp", str(n)], ["etpDuration", str(3600 // n + draw(st.one_of(st.integers(1, 5), st.integers(1, 10 ** 6))))]]
        elif kind == "xlinkalone":
            bad = [["xlink", str(draw(st.integers(1, 70)))]]
        else:
            bad = [["periods", str(n)], ["insertad", str(draw(st.integers(1, 5)))]]
    pos = sorted(draw(st.lists(st.integers(0, len(base)), min_size=len(bad), max_size=len(bad))))
    full = list(base)
    for j, (p, b) in enumerate(zip(pos, draw(st.permutations(bad)))):
        full.insert(p + j, b)
    return {"spec": spec, "base": base, "opts": full, "kind": kind, "used": used,
            "now": (ast if so else draw(strat.epochs())) + draw(st.integers(0, 400)) + draw(strat.frac()), "pick": draw(st.integers(0, 3))}


def url(opts, c, tail):
    return "/" + "/".join(["livesim"] + [k if v is None else "%s_%s" % (k, v) for k, v in opts] + [c.name, tail])


# Kinds that concern the periods of the manifest only
MPD_ONLY = ("utc", "periods", "fraction", "etpdur", "xlinkalone", "adalone")


def prop(case, stats):
    c = materialize(case["spec"])
    base, opts, now = case["base"], case["opts"], case["now"]
    what = "opts %s at %r" % (opts, now)
    if case["kind"] == "bare" and len(base) == len(opts):
        return
    s = Session(c, base, now)
    if now >= s.ast:
        r = get(c, url(base, c, c.mpd_name), now)
        need200(r, "without the bad option: %s at %r" % (base, now))
    r = get(c, url(opts, c, c.mpd_name), now)
    check(r.code == 404, "not-refused", "%s (%s): %s" % (what, case["kind"], r.status))
    stats.label(case["kind"])
    stats.nt(len(base) > 0)
    if case["kind"] in MPD_ONLY:
        return
    t, rep = pick_rep(c, case["pick"])
    lo, hi = s.window(now) if s.ato is not None else (s.first, s.first + 3)
    for tail in ("%s/init.mp4" % c.reldir(rep), "%s/%d.m4s" % (c.reldir(rep), max(lo, hi))):
        r = get(c, url(opts, c, tail), now)
        check(r.code == 404, "served-anyway", "%s of %s (%s): %s" % (tail, what, case["kind"], r.status))


@st.composite
def off_cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=3, types=draw(st.sampled_from([("video", "audio"), ("video",), ("audio",)]))))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    so, ast = draw(strat.session_opts(D))
    o = []
    for k, v in (("snr", "3"), ("tsbd", "60"), ("utc", "direct"), ("spd", "10"), ("mup", "7"), ("scte35", "1"), ("sidx", "1"), ("periods", "60"),
                 ("segtimeline", "1"), ("chunkdur", "0.5"), ("ato", "1"), ("continuous", "1"), ("baseurl", "u20_d10")):
        if draw(st.integers(0, 4)) == 0:
            o.append([k, v])
    off = draw(st.sampled_from(["segtimeline", "segtimelinenr", "continuous", "sidx", "segtimelineloss", "chunkdur", "chunkdur", "ato", "ato", "ato",
                                "scte35", "etp", "mpdcallback", "xlink", "insertad", "inf"]))
    if off == "chunkdur":
        v = draw(st.sampled_from(["0", "-1", "-0.5", "0.0", "x", "", "1s", "nan", "-inf", "0,5"]))
    elif off == "ato":
        v = draw(st.sampled_from(["0", "-1", "-0.5", "0.0", "x", "", "1s", "nan", "NaN", "-nan", "-inf", "infinit", "0,5", "--1", "-1e300"]))
    elif off in ("etp", "mpdcallback", "xlink", "insertad"):
        v = draw(st.sampled_from(["0", "-1", "-5"] if off != "xlink" else ["-1", "-5"]))
    else:
        v = "0"
    o = [x for x in o if x[0] != ("ato" if off == "inf" else off)]
    base = list(draw(st.permutations(so + o)))
    full = list(base)
    p = draw(st.integers(0, len(full)))
    if off == "inf":        # other ways to write it
        base.insert(p, ["ato", "inf"])
        off, v = "ato", draw(st.sampled_from(["INF", "Infinity", "infinity", "+inf", "Inf", "1e999"]))
    full.insert(p, [off, v])
    t = draw(st.one_of(st.sampled_from([0, D, 2 * D]), st.integers(0, 300)))
    return {"spec": spec, "base": base, "opts": full, "off": off, "pick": draw(st.integers(0, 3)),
            "now": (ast if so else draw(strat.epochs())) + t + draw(strat.frac()), "ks": draw(st.lists(st.integers(-4, 3), min_size=1, max_size=3))}


def prop_off(case, stats):
    c = materialize(case["spec"])
    base, opts, now = case["base"], case["opts"], case["now"]
    what = "opts %s at %r" % (opts, now)
    s = Session(c, base, now)
    tl = any(k.startswith("segtimeline") and v == "1" for k, v in base)
    if now >= s.ast or not tl:
        m0, m1 = [load_mpd(get(c, url(o, c, c.mpd_name), now), "%s at %r" % (o, now)) for o in (base, opts)]
        eq(strip(m1, []), strip(m0, []), "manifest-changed", what)
        b0, b1 = [[(b.get("availabilityTimeOffset"), b.get("availabilityTimeComplete")) for b in m.root if b.tag.endswith("}BaseURL")] for m in (m0, m1)]
        eq(b1, b0, "baseurl-changed", what)
    t, rep = pick_rep(c, case["pick"])
    last = s.first + int((now - s.ast) // c.D) - 1
    for k in case["ks"]:
        tail = "%s/%d.m4s" % (c.reldir(rep), last + k)
        a, b = [get(c, url(o, c, tail), now) for o in (base, opts)]
        eq((b.code, b.body if b.code == 200 else None), (a.code, a.body if a.code == 200 else None), "segment-changed", "%s of %s" % (tail, what))
        stats.label("segment %d" % a.code)
    stats.label(case["off"])
    stats.nt(len(base) > 0)


SUBS = [Sub("refused", cases(), prop, quick=1600, thorough=60000, rule="a bad option among other, good ones"),
        Sub("off", off_cases(), prop_off, quick=1200, thorough=50000, rule="an option that is switched off among others")]
