"""Every manifest and remote period served is valid by the DASH schema and its rules, under all options together."""
from xml.etree import ElementTree as ET

from checks.c37 import HOUR_DIV, XL, values
from vlib import schema
from vlib.common import *
from vlib.mpd import NS, path_of
from vlib.strat import with_subs

NAMES = ["utc", "spd", "mup", "ato", "scte35", "continuous", "peroff", "mpdcallback", "init", "sidx", "snr", "tsbd", "chunkdur", "sts", "sid"]


@st.composite
def cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video", "audio"), ("video",), ("audio",)]))
    spec = draw(strat.specs(kind="plain", maxn=3, types=types))
    spec = draw(with_subs(draw(strat.with_images(spec))))
    D = spec["D"]
    if draw(st.integers(0, 3)) == 0:   # the content has a profile that the options add
        spec["mpd"]["profiles"] = ",".join(draw(st.permutations(["urn:mpeg:dash:profile:isoff-live:2011"] + draw(st.lists(st.sampled_from(
            ["http://www.dashif.org/guidelines/low-latency-live-v5", "http://dashif.org/guidelines/adin/app", "urn:x"]), min_size=1, unique=True)))))
    o, ast = draw(strat.session_opts(D))
    mode = draw(st.sampled_from(["plain", "plain", "loss", "urls", "periods", "periods", "periods", "remote", "remote", "zero"]))
    n = draw(st.sampled_from(HOUR_DIV + [20, 30, 60, 60, 60]))
    v = draw(values(D, n))
    names = draw(st.lists(st.sampled_from(NAMES), max_size=8, unique=True))
    tl = draw(st.sampled_from([None, "segtimeline", "segtimelinenr"]))
    if mode == "loss":
        names = [x for x in names if x != "chunkdur"] + ["baseurl", "segtimelineloss"]
        tl = draw(st.sampled_from(["segtimeline", "segtimelinenr"]))
    elif mode == "urls":
        names.append("baseurl")
    if mode in ("periods", "remote"):
        names.append("periods")
        e = draw(st.integers(0, 3))
        if e < 2:
            names += ["etp"] + ["etpDuration"] * e
        if mode == "remote":
            names += ["xlink"] + (["insertad"] if draw(st.booleans()) else [])
    elif mode == "zero":
        v["periods"] = 0
        names.append("periods")
    if tl:
        names.append(tl)
    opts = o + [[k, str(v[k])] for k in names]
    if mode == "urls" and draw(st.booleans()):
        opts.append(["baseurl", "d20_u15"])
    opts = list(draw(st.permutations(opts)))
    pd = 3600 // n
    t = draw(st.one_of(st.sampled_from([0, D, 10, 30, 50]), st.integers(0, 300), st.integers(0, 9000),
                       st.integers(0, 20).map(lambda j: j * pd + pd // 2)))
    return {"spec": spec, "opts": opts, "mode": mode, "now": (ast if o else draw(strat.epochs())) + t + draw(strat.frac()), "pick": draw(st.integers(0, 5)),
            "host": draw(st.sampled_from(["example.com", "a.b:8080", "[::1]:80"])), "scheme": draw(st.sampled_from(["http", "https"]))}


def prop(case, stats):
    c = materialize(case["spec"])
    opts, now = case["opts"], case["now"]
    od = dict(opts)
    what = "opts %s at %r" % (opts, now)
    kw = {"host": case["host"], "scheme": case["scheme"]}
    s = Session(c, opts, now)
    r = getmpd(c, opts, now, **kw)
    tl = "segtimeline" in od or "segtimelinenr" in od
    if r.code != 200 and ((tl and now < s.ast) or ("insertad" in od and "etp" in od)):
        stats.label("refused")
        return
    m = load_mpd(r, what)
    try:
        schema.mpd(m.root)
    except Violation as e:
        raise Violation(e.key, "%s: %s" % (what, e.msg))
    for k in od:
        stats.label(k)
    stats.nt(len(opts) >= 3)
    refs = [p.get(XL) for p in m.periods if p.get(XL) and "dashif.org" not in p.get(XL)]
    if refs:
        path = path_of("http://x/", refs[case["pick"] % len(refs)])[0]
        rp = get(c, path, now, **kw)
        need200(rp, "%s of %s" % (path, what))
        try:
            p = ET.fromstring(rp.body)
        except ET.ParseError as e:
            raise Violation("period-not-wellformed", "%s: %s" % (path, e))
        eq(p.tag, "{%s}Period" % NS, "period-tag", path)
        try:
            schema.element(p)
            schema.period(p)
        except Violation as e:
            raise Violation(e.key, "%s of %s: %s" % (path, what, e.msg))
        check(p.get("id") and p.get("start"), "remote-period-attributes", path)
        stats.label("remote")


SUBS = [Sub("schema", cases(), prop, quick=2500, thorough=100000, rule="a manifest of three or more options, checked")]
