"""BaseURL, Location and UTCTiming against the request URL and time."""
from urllib.parse import urlparse

from vlib.common import *
from vlib.mpd import canon_elem, dur_s, kid, kids, lex_datetime, ln

SCHEMES = {"direct": "urn:mpeg:dash:utc:direct:2014", "head": "urn:mpeg:dash:utc:http-head:2014",
           "ntp": "urn:mpeg:dash:utc:ntp:2014", "sntp": "urn:mpeg:dash:utc:sntp:2014",
           "httpxsdate": "urn:mpeg:dash:utc:http-xsdate:2014", "httpiso": "urn:mpeg:dash:utc:http-iso:2014"}


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=3, types=draw(st.sampled_from([("video", "audio"), ("video",)])), multirep=False))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    spec["name"] = draw(st.sampled_from(["vod1", "testpic_2s", "my-vod.x", "Content1"]))
    spec["mpdname"] = draw(st.sampled_from(["Manifest.mpd", "Manifest.mpd", "stream_x.mpd", "m-2.mpd"]))
    spec["mpd"]["baseurl"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    o = []
    mode = draw(st.sampled_from(["", "start", "rel", "rel", "rel", "startrel", "modulo", "periods"]))
    S = draw(strat.epochs())
    if mode == "start":
        o.append(["start", str(S)])
    if mode == "start" and draw(st.integers(0, 2)) == 0:        # sessions whose durations add up
        o += [["dur", str(D * draw(st.sampled_from([1, 30, 30, 600])))] for _ in range(draw(st.integers(1, 3)))]
    if mode in ("rel", "startrel"):
        o.append(["startrel", str(-draw(st.one_of(st.integers(0, 400), st.integers(0, 20000), st.sampled_from([0, D, -D, -30]))))])
    if mode == "rel":
        o.append(["stoprel", str(draw(st.one_of(st.integers(-20, 400), st.integers(0, 20000), st.sampled_from([0, D, 20]))))])
    if mode == "modulo":
        o.append(["modulo", "10"])
    if mode == "periods":
        o.append(["periods", "60"])
    for x in o:        # the same numbers, spelt with a sign
        if x[0] in ("startrel", "stoprel") and not x[1].startswith("-") and draw(st.integers(0, 2)) == 0:
            x[1] = "+" + x[1]
    utc = None
    if draw(st.booleans()):
        utc = draw(st.lists(st.sampled_from(sorted(SCHEMES) + ["direct", "head"]), min_size=1, max_size=4))
        if draw(st.integers(0, 5)) == 0:
            utc.insert(draw(st.integers(0, len(utc))), draw(st.sampled_from(["", "foo", "Direct", "http", "ntp2", "httphead", "none"])))
        o.append(["utc", "-".join(utc)])
    for kk, vv in (("snr", "1"), ("tsbd", "50"), ("ato", "2"), ("spd", "7"), ("init", "10"), ("mup", "30"), ("segtimelinenr", "0"), ("scte35", "1"),
                   ("sts", "123"), ("sid", "ab_cd"), ("sidx", "1"), ("continuous", "1")):
        if draw(st.integers(0, 4)) == 0:
            o.append([kk, vv])
    if mode in ("rel", "startrel"):
        o = [x for x in o if x[0] != "timeoffset"]
    o = list(draw(st.permutations(o)))
    return {"spec": spec, "opts": o, "utc": utc, "now": float(S + draw(st.integers(1, 100)) + draw(strat.frac())),
            "later": draw(st.one_of(st.integers(0, 20), st.integers(0, 3000))) + draw(strat.frac()),
            "host": draw(st.sampled_from(["example.com", "localhost:8080", "a.b.c-d.org", "1.2.3.4", "[::1]:80"])),
            "scheme": draw(st.sampled_from(["http", "https"])), "prefix": draw(st.sampled_from(["livesim", "dash", "x_1", "livesim-dev"])),
            "qs": draw(st.sampled_from([None, None, "a=b", "x=%2F&y"]))}


def prop(case, stats):
    c = materialize(case["spec"])
    opts, now, host, scheme = case["opts"], case["now"], case["host"], case["scheme"]
    od = dict(opts)
    what = "opts %s at %r host %s %s" % (opts, now, scheme, host)
    path = mpd_path(opts, c, case["prefix"])
    r = get(c, path, now, host=host, scheme=scheme, qs=case["qs"])
    if case["utc"] and any(u not in SCHEMES for u in case["utc"]):
        eq(r.code, 404, "unknown-utc-method", what)
        stats.label("refused")
        stats.nt()
        return
    m = load_mpd(r, what)
    s = Session(c, opts, now)
    root = "%s://%s" % (scheme, host)
    if "startrel" in od or "stoprel" in od:
        check(not m.baseurls, "baseurl-with-location", what)
        eq(len(m.locations), 1, "location-count", what)
        loc = m.locations[0].text
        u = urlparse(loc)
        eq("%s://%s" % (u.scheme, u.netloc), root, "location-host", what)
        parts, want = u.path.split("/"), path.split("/")
        eq(len(parts), len(want), "location-parts", "%s: %s" % (what, loc))
        abs_opts = []
        for a, b in zip(parts, want):
            if b.startswith("startrel_"):
                check(a.startswith("start_") and a[6:].isdigit(), "location-start", "%s: %s" % (what, loc))
                eq(int(a[6:]) // c.D * c.D, s.ast, "location-start", "%s: %s" % (what, loc))
                abs_opts.append(["start", a[6:]])
            elif b.startswith("stoprel_"):
                check(a.startswith("stop_") and a[5:].isdigit(), "location-stop", "%s: %s" % (what, loc))
                eq(-(-int(a[5:]) // c.D) * c.D, s.stop, "location-stop", "%s: %s" % (what, loc))
                abs_opts.append(["stop", a[5:]])
            else:
                eq(a, b, "location-part", "%s: %s" % (what, loc))
        # the Location yields the same session later
        later = now + case["later"]
        m2 = load_mpd(get(c, u.path, later, host=host, scheme=scheme), "%s at %r" % (loc, later))
        eq(m2.ast, m.ast, "later-ast", what)
        eq(m2.a.get("mediaPresentationDuration"), m.a.get("mediaPresentationDuration"), "later-duration", what)
        if case["later"] == 0:
            eq(m2.a.get("type"), m.a.get("type"), "same-type", what)
        eq([canon_elem(p) for p in m2.periods], [canon_elem(p) for p in m.periods], "later-periods", what)
        check(not m2.locations, "later-location", what)
        eq([b.text for b in m2.baseurls], [root + u.path.rsplit("/", 1)[0] + "/"], "later-baseurl", what)
        stats.label("location")
    else:
        check(not m.locations, "unexpected-location", what)
        eq([b.text for b in m.baseurls], [root + path.rsplit("/", 1)[0] + "/"], "baseurl", what)
    # UTCTiming
    got = [(e.get("schemeIdUri"), e.get("value")) for e in m.utc]
    eq([g[0] for g in got], [SCHEMES[x] for x in case["utc"] or ()], "utc-schemes", what)
    for x, (_, v) in zip(case["utc"] or (), got):
        if x == "direct":
            eq(lex_datetime(v), int(now), "utc-direct", what)
        elif x == "head":
            v = urlparse(v)
            eq("%s://%s" % (v.scheme, v.netloc), root, "utc-head", what)
            check(len(v.path) > 1, "utc-head-path", what)
        else:
            check(v, "utc-value", "%s %s" % (what, x))
    names = [ln(e) for e in m.root]
    order = ["ProgramInformation", "BaseURL", "Location", "ServiceDescription", "Period", "Metrics", "EssentialProperty", "SupplementalProperty",
             "UTCTiming"]
    eq(names, sorted(names, key=order.index), "element-order", what)
    stats.nt(bool(case["utc"]) or bool(m.locations))


SUBS = [Sub("urls", cases(), prop, quick=4000, thorough=150000, rule="UTC methods asked for, or a session with relative times")]
