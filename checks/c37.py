"""Options compose: adding one changes only its own part of the manifest, in any order, and manifest options never change a segment."""
import copy

from vlib.common import *
from vlib.mpd import XLINK, canon_elem, ln

HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
CONT = "urn:mpeg:dash:period_continuity:2014"
XL = "{%s}href" % XLINK
CLOCKS = ["direct", "head", "ntp", "sntp", "httpxsdate", "httpiso"]

# Option -> what it may change besides BaseURL and Location: ("mpd"/"period"/"template", attribute) or ("element", name)
TMPL_LL = [("template", "availabilityTimeOffset"), ("template", "availabilityTimeComplete")]
REGION = {
    "utc": [("element", "UTCTiming")],
    "spd": [("mpd", "suggestedPresentationDelay")],
    "mup": [("mpd", "minimumUpdatePeriod")],
    "baseurl": [],
    "ato": TMPL_LL[:1],
    "scte35": [("mpd", "profiles"), ("element", "InbandEventStream")],
    "continuous": [("element", "SupplementalProperty")],
    "peroff": [("element", "SegmentBase"), ("template", "presentationTimeOffset")],
    "etp": [("period", "duration")],
    "mpdcallback": [("element", "EventStream")],
    "init": [],
    "sidx": [],
    "snr": [("template", "startNumber")],
    "tsbd": [("mpd", "timeShiftBufferDepth")],
    "chunkdur": TMPL_LL + [("mpd", "profiles"), ("element", "ServiceDescription"), ("element", "ProducerReferenceTime"), ("element", "UTCTiming")],
    "segtimelineloss": [("mpd", "profiles")],
    "sts": [],
    "sid": [],
}
# Options that only concern the manifest
QUIET = ["utc", "spd", "mup", "continuous", "peroff", "etp", "etpDuration", "mpdcallback", "xlink", "insertad", "periods", "segtimeline",
         "segtimelinenr", "segtimelineloss", "sts", "sid", "init"]


@st.composite
def values(draw, D, n):
    "A value in the documented range for every option."
    pd = 3600 // n if n else 3600
    divs = [m for m in HOUR_DIV if n and n % m == 0] or [1]
    v = {"utc": "-".join(draw(st.lists(st.sampled_from(CLOCKS), min_size=1, max_size=3, unique=True))),
         "spd": draw(st.integers(0, 100)), "mup": draw(st.integers(0, 100)),
         "baseurl": draw(st.sampled_from(["u20_d10", "d10_u20", "u59_d1"])),
         "ato": draw(st.sampled_from(["1", "0.5", "inf", "0"])), "scte35": draw(st.integers(1, 3)),
         "continuous": 1, "peroff": 1, "etp": draw(st.sampled_from(divs)), "mpdcallback": draw(st.sampled_from(divs)),
         "etpDuration": draw(st.integers(1, pd)), "init": draw(st.integers(0, 100)), "sidx": 1,
         "snr": draw(st.sampled_from([-1, 0, 1, 7, 100])), "tsbd": draw(st.integers(0, 100)),
         "chunkdur": draw(st.sampled_from(["0.5", "1", "0.25"])), "segtimelineloss": 1, "sts": draw(st.integers(0, 2 ** 31)),
         "sid": draw(st.sampled_from(["abc", "1", "12345678-aa_b"])), "xlink": draw(st.sampled_from(divs)), "insertad": draw(st.integers(1, 5)),
         "segtimeline": 1, "segtimelinenr": 1, "periods": n}
    return v


@st.composite
def cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video", "audio"), ("video",), ("audio",), ("video", "audio", "subtitles")]))
    spec = draw(strat.specs(kind="plain", maxn=3, types=[t for t in types if t != "subtitles"]))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    if "subtitles" in types:
        spec["tracks"].append({"type": "subtitles", "ts": 1000, "fd": D * 1000, "fb": list(range(spec["n"] + 1)), "reps": [
            {"id": "S1", "tid": 1, "fmt": {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": 0}, "docs": ["<tt>x</tt>"]}]})
    so, ast = draw(strat.session_opts(D))
    if so and so[0][0] not in ("modulo", "start", "startrel") and draw(st.integers(0, 3)) == 0:     # a restarting session with a start
        so.append(["start", str(ast)])
    n = draw(st.sampled_from(HOUR_DIV))
    v = draw(values(D, n))
    names = [k for k in v if k not in ("periods", "etpDuration", "xlink", "insertad", "segtimeline", "segtimelinenr")]
    base = draw(st.lists(st.sampled_from(names), max_size=5, unique=True))
    if draw(st.booleans()):
        base.append("periods")
        if draw(st.integers(0, 3)) == 0:
            base.append("xlink")
            if draw(st.integers(0, 2)) == 0:
                base.append("insertad")
        if "etp" in base and draw(st.booleans()):
            base.append("etpDuration")
    tl = draw(st.sampled_from([None, None, "segtimeline", "segtimelinenr"]))
    if tl:
        base.append(tl)
    x = draw(st.sampled_from([k for k in names if k not in base] or names))
    base = [k for k in base if k != x]
    t = [draw(st.one_of(st.sampled_from([0, D, 2 * D]), st.integers(0, 300), st.integers(0, 9000))), draw(strat.frac())]
    bopts = so + [[k, str(v[k])] for k in base]
    bopts = list(draw(st.permutations(bopts)))
    full = list(bopts)
    full.insert(draw(st.integers(0, len(full))), [x, str(v[x])])
    return {"spec": spec, "base": bopts, "opts": full, "x": x, "now": (ast if so else draw(strat.epochs())) + t[0] + t[1],
            "perm": draw(st.permutations(range(len(full)))), "k": draw(st.integers(0, 3)), "pick": draw(st.integers(0, 5))}


def strip(m, region):
    root = copy.deepcopy(m.root)
    gone = {"BaseURL", "Location"} | {x for k, x in region if k == "element"}
    lvl = {"mpd": "MPD", "period": "Period", "template": "SegmentTemplate"}
    for e in list(root.iter()):
        if XL in e.attrib:      # repeats the options
            e.attrib[XL] = e.attrib[XL].split("/")[-1]
        for k, x in region:
            if k != "element" and ln(e) == lvl[k]:
                e.attrib.pop(x, None)
        for c in list(e):
            if ln(c) in gone and not (ln(c) == "UTCTiming" and e is not root):
                e.remove(c)
    return canon_elem(root)


def own(m, x):
    "The part of the manifest that option x adds."
    if x == "utc":
        return [canon_elem(e) for e in m.utc]
    if x == "spd":
        return m.a.get("suggestedPresentationDelay")
    if x == "chunkdur":
        return ([canon_elem(e) for e in m.root.iter() if ln(e) == "ServiceDescription"],
                {(e.get("availabilityTimeOffset"), e.get("availabilityTimeComplete")) for e in m.root.iter() if ln(e) == "SegmentTemplate"})
    return {(a.get("contentType"), canon_elem(e)) for a in m.root.iter() if ln(a) == "AdaptationSet" for e in a if ln(e) == "InbandEventStream"}


def reorder(opts, perm):
    "Another order; options given several times keep their order."
    out = [opts[i] for i in perm]
    for name in {k for k, _ in opts}:
        same = [o for o in opts if o[0] == name]
        if len(same) > 1:
            it = iter(same)
            out = [next(it) if o[0] == name else o for o in out]
    return out


def prop(case, stats):
    c = materialize(case["spec"])
    base, opts, x, now = case["base"], case["opts"], case["x"], case["now"]
    kinds = [k for k, _ in opts]
    tl = "segtimeline" in kinds or "segtimelinenr" in kinds
    s = Session(c, opts, now)
    if tl and now < s.ast:
        return
    what = "opts %s at %r" % (opts, now)
    r0, r1 = getmpd(c, base, now), getmpd(c, opts, now)
    m0, m1 = load_mpd(r0, "opts %s at %r" % (base, now)), load_mpd(r1, what)
    region = list(REGION[x])
    if "periods" in kinds and x == "tsbd":
        region = None               # decides which periods are listed
    elif x in ("tsbd", "etp", "snr") and tl:
        region = None               # part of the timeline
    elif x == "mup" and "dur" in kinds:
        region = None               # decides when the duration is extended
    elif x in ("baseurl", "segtimelineloss") and "baseurl" in kinds and "segtimelineloss" in kinds:
        region = None               # signals the losses
    elif "insertad" in kinds and x == "etp":
        region = None
    if region is not None:
        eq(strip(m1, region), strip(m0, region), "other-part-changed", "%s: adding %s" % (what, x))
        stats.label("added " + x)
        stats.nt(len(base) >= 2)
    if x in ("utc", "spd") or (x == "scte35" and "xlink" not in kinds and not ("baseurl" in kinds and "segtimelineloss" in kinds)) or (x == "chunkdur" and "ato" not in kinds and "xlink" not in kinds):     # its own part is as when it is used alone
        ma = load_mpd(getmpd(c, [o for o in opts if o[0] == x], now), "only %s at %r" % (x, now))
        eq(own(m1, x), own(ma, x), "own-part", "%s: %s" % (what, x))
        stats.label("compared alone")
    # the order of the options does not matter
    o2 = reorder(opts, case["perm"])
    m2 = load_mpd(getmpd(c, o2, now), "opts %s at %r" % (o2, now))
    eq(strip(m2, []), strip(m1, []), "order", "%s and %s" % (what, o2))
    # segments
    t, rep = pick_rep(c, case["pick"])
    lo, hi = s.window(now) if s.ato is not None else (s.first, s.first + 3)
    N = max(hi - case["k"], lo - 1)
    quiet = [o for o in opts if o[0] not in QUIET or (o[0] == "mup" and "dur" in kinds)]
    names = ["%s/%s.m4s" % (c.reldir(rep), N)]
    if case["pick"] == 0:
        names.append("%s/init.mp4" % c.reldir(rep))
    if case["pick"] == 1 and len(c.spec["tracks"]) > 1 and t["type"] != "subtitles":
        t2, r2 = [x for x in c.reps() if x[0]["type"] != "subtitles" and x[0] is not t][0]
        if not rep.get("dir") and not r2.get("dir"):
            names.append("%s__%s/%s.m4s" % (rep["id"], r2["id"], N))
            stats.label("muxed")
    for name in names:
        if name.endswith(".mp4"):       # the availability of init segments depends on one of them
            quiet = [o for o in opts if o[0] not in QUIET or o[0] == "init" or (o[0] == "mup" and "dur" in kinds)]

        def path(o):
            return "/" + "/".join(["livesim"] + ["%s_%s" % tuple(y) for y in o] + [c.name, name])
        a, b, d = [get(c, path(o), now) for o in (opts, quiet, o2)]
        w = "%s of %s and of %s" % (name, what, quiet)
        eq((a.code, a.body if a.code == 200 else None), (b.code, b.body if b.code == 200 else None), "segment-changed", w)
        eq((d.code, d.body if d.code == 200 else None), (a.code, a.body if a.code == 200 else None), "segment-order", w + " and %s" % o2)
        stats.label("segment %d" % a.code)


SUBS = [Sub("compose", cases(), prop, quick=2000, thorough=80000, rule="an option added to two or more others, compared")]
