"""Low-latency pacing and signalling."""
from vlib.seggen import *
from vlib.mpd import kid, kids, lex_datetime, ln

CDUR = ["0.25", "0.5", "0.125", "1", "0.75", "1.5", "2", "0.0625", "0.1", "0.3"]
MARGIN = F(1, 10)
EPS = F(1, 10 ** 5)


@st.composite
def pace_cases(draw):
    D = draw(st.integers(1, 8))
    n = draw(st.integers(1, 4))
    ts = draw(st.sampled_from([1000, 90000, 12800, 64]))
    per = draw(st.sampled_from([1, 2, 4, 8]))     # frames per second
    if ts % per:
        per = 1
    spec = {"D": D, "n": n, "first": 1, "tsbd": 30, "tracks": [
        {"type": "video", "ts": ts, "fd": ts // per, "fb": [D * per * i for i in range(n + 1)], "reps": [
            {"id": "V1", "tid": 1, "fmt": {"styp": ["msdh"], "tfhd": 0x20000, "trun": 0x301, "tfdt_v": 0}}]}]}
    o = {}
    mode = draw(st.sampled_from(["epoch", "epoch", "start", "startrel", "offset", "dur", "modulo", "tfdt"]))
    S = draw(strat.epochs())
    if mode in ("start", "offset", "dur"):
        o["start"] = S
    if mode == "offset":
        o["timeoffset"] = draw(st.sampled_from([0, S // D * D - 5 * D, S // D * D]))
    if mode == "dur":
        o["dur"] = 100 * D
    if mode == "startrel":
        o["startrel"] = -draw(st.integers(1, 400))
    if mode == "modulo":
        o["modulo"] = 60
    if mode == "tfdt":
        o["tfdt"] = 32
    if draw(st.integers(0, 2)) == 0:
        o["snr"] = draw(st.sampled_from([-1, 1, 7]))
    ato = draw(st.sampled_from([None, "full", "full", "half", "inf", "more"]))
    if ato == "full":
        o["ato"] = D
    elif ato == "half":
        o["ato"] = D * 0.5
    elif ato == "inf":
        o["ato"] = "inf"
    elif ato == "more":
        o["ato"] = D + 3
    return {"spec": spec, "opts": optlist(draw, o), "cd": draw(st.sampled_from(CDUR)), "S": S, "k": draw(st.integers(0, 40)),
            "rel": draw(st.one_of(st.sampled_from([0.0, 1 / 64, 0.5]), st.integers(0, 64 * D * 2).map(lambda x: x / 64), st.integers(0, 20).map(float))),
            "delays": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 96).map(lambda x: x / 64), min_size=1, max_size=4)))}


def pace(case, stats):
    c = materialize(case["spec"])
    t, r = c.reps()[0]
    D = c.D
    o = dict(case["opts"])
    now = float(case["S"] + case["k"] * D)
    s = Session(c, case["opts"], now)
    lo = s.first
    if s.ato is None:      # any number after the current one, also far ahead
        N = max(lo, lo + int((now - s.ast) // D) + case["k"] % 4)
        now = max(now, s.ast) + case["rel"]
    else:
        N = max(lo, lo + int((now - s.ast) // D) - 1)
        now = float(s.end_of(N) - s.ato) + case["rel"]
    if now < 0:
        return
    s = Session(c, case["opts"], now)
    if not s.available(N, now):
        stats.label("not available")
        return
    cd = F(case["cd"])
    opts = case["opts"] + [["chunkdur", case["cd"]]]
    what = "N=%d opts %s at %r delays %s" % (N, opts, now, case["delays"])
    resp = getseg(c, opts, r, N, now, delays=case["delays"])
    need200(resp, what)
    start = s.end_of(N) - D
    i = 0
    free = F(now)       # when the reader is ready for the next piece
    for j, (at, piece) in enumerate(x for x in resp.chunks):
        at = F(at)
        boxes = parse_boxes(piece, what)
        nch = len([b for b in boxes if b.type == b"moof"])
        first = i + 1
        i += nch
        if nch:
            nominal = start + min(i * cd, F(D))
            check(at >= nominal - MARGIN - EPS, "too-early", "%s: chunk %d sent at %s, its time is %s" % (what, i, float(at), float(nominal)))
            nominal1 = start + min(first * cd, F(D)) if nch == 1 else nominal
            check(at <= max(free, nominal1) + EPS, "too-late", "%s: chunk %d sent at %s, its time is %s, reader ready at %s" % (
                what, i, float(at), float(nominal1), float(free)))
            if nominal - MARGIN > now:
                stats.nt()
                stats.label("chunks of the future")
        free = at
        if case["delays"]:
            free += F(case["delays"][j % len(case["delays"])])
            stats.label("slow reader")
    dur_ticks = D * t["ts"]
    d = int(cd * t["ts"])
    want = -(-dur_ticks // max(d, t["fd"])) if d % t["fd"] == 0 or d < t["fd"] else None
    if want:
        eq(i, want, "chunk-count", what)
    if now >= s.end_of(N):
        stats.label("finished segment")
        check(case["delays"] or F(resp.chunks[-1][0]) == F(now), "finished-delayed", what)


@st.composite
def mpd_cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video",), ("audio",), ("video", "audio", "subtitles")]))
    spec = draw(strat.specs(kind="plain", maxn=3, types=[t for t in types if t != "subtitles"], Ds=[1, 2, 3, 4, 6, 10]))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    if "subtitles" in types:
        spec["tracks"].append({"type": "subtitles", "ts": 1000, "fd": D * 1000, "fb": list(range(spec["n"] + 1)), "reps": [
            {"id": "S1", "tid": 1, "fmt": {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": 0}, "docs": ["<tt>x</tt>"]}]})
    spec["mpd"]["profiles"] = draw(st.sampled_from(["urn:mpeg:dash:profile:isoff-live:2011", "urn:mpeg:dash:profile:isoff-live:2011,urn:x",
                                                     "urn:mpeg:dash:profile:isoff-live:2011,http://www.dashif.org/guidelines/low-latency-live-v5"]))
    S = draw(strat.epochs())
    o = {}
    mode = draw(st.sampled_from(["epoch", "start", "startrel", "offset", "periods", "cont", "tfdt", "modulo", "tl", "tlnr"]))
    if mode in ("start", "offset"):
        o["start"] = S
    if mode == "offset":
        o["timeoffset"] = draw(st.sampled_from([0, S // D * D - 5 * D, S // D * D]))
    if mode == "startrel":
        o["startrel"] = -draw(st.integers(0, 400))
    if mode == "periods":
        o["periods"] = draw(st.sampled_from([1, 2, 6, 12, 60]))
        if draw(st.booleans()):
            o["continuous"] = 1
    if mode == "modulo":
        o["modulo"] = 10
    if mode == "tfdt":
        o["tfdt"] = 32
    if mode == "cont":
        o["cont"] = 1
    if mode == "tl":
        o["segtimeline"] = 1
    if mode == "tlnr":
        o["segtimelinenr"] = 1
    if draw(st.booleans()):
        o["ato"] = draw(st.sampled_from(["1", "0.5", "7", "inf", "0", "-3", "1.875"]))
    if draw(st.integers(0, 2)) == 0:
        o["utc"] = draw(st.sampled_from(["direct", "head-ntp", "httpxsdate"]))
    if draw(st.integers(0, 3)) == 0:
        o["scte35"] = 1
    if draw(st.integers(0, 5)):
        o["chunkdur"] = draw(st.sampled_from(CDUR + ["0", "0"]))
    return {"spec": spec, "opts": optlist(draw, o), "now": float(S + draw(st.integers(0, 5000)) + draw(strat.frac()))}


def signal(case, stats):
    c = materialize(case["spec"])
    now, opts = case["now"], case["opts"]
    od = dict(opts)
    if od.get("periods") and (3600 // int(od["periods"])) % c.D:
        return
    what = "opts %s at %r" % (opts, now)
    s = Session(c, opts, now)
    if ("segtimeline" in od or "segtimelinenr" in od) and now < s.ast:
        return
    m = load_mpd(getmpd(c, opts, now), what)
    ll = F(od.get("chunkdur", "0")) > 0
    prof = [x.strip() for x in m.a.get("profiles", "").split(",")]
    sds = [x for x in kids(m.root, "ServiceDescription") if x.get("id") != "7"]   # 7: the content's own
    llprof = "http://www.dashif.org/guidelines/low-latency-live-v5"
    asets = [a for p in m.periods for a in kids(p, "AdaptationSet")]
    check(asets, "no-adaptation-set", what)
    if not ll:
        if "chunkdur" not in od:
            check(not sds and (llprof not in prof or llprof in case["spec"]["mpd"]["profiles"]), "ll-signalling-without-ll", what)
            for a in asets:
                check(not kids(a, "ProducerReferenceTime"), "prt-without-ll", what)
                check(kid(a, "SegmentTemplate").get("availabilityTimeOffset") is None, "ato-without-ll", what)
        stats.label("no low latency")
        return
    stats.nt()
    for x in case["spec"]["mpd"]["profiles"].split(","):
        check(x in prof or x.startswith("urn:mpeg") , "profile-lost", "%s: %s" % (what, prof))
    eq(prof.count(llprof), 1, "profile", "%s: %s" % (what, prof))
    eq(len(sds), 1, "service-description", what)
    lat = kid(sds[0], "Latency")
    check(lat is not None and int(lat.get("min")) <= int(lat.get("target")) <= int(lat.get("max")), "latency", what)
    if "utc" in od:
        eq(len(m.utc), len(od["utc"].split("-")), "utc-count", what)
    else:
        eq([u.get("schemeIdUri") for u in m.utc], ["urn:mpeg:dash:utc:http-iso:2014"], "utc-default", what)
    order = [ln(e) for e in m.root]
    rank = ["ProgramInformation", "BaseURL", "Location", "ServiceDescription", "Period", "UTCTiming"]
    idx = [rank.index(x) for x in order if x in rank]
    eq(idx, sorted(idx), "mpd-child-order", what + str(order))
    for b in m.baseurls:
        check(b.get("availabilityTimeOffset") is None and b.get("availabilityTimeComplete") is None, "ato-on-baseurl", what)
    for a in asets:
        prts = kids(a, "ProducerReferenceTime")
        eq(len(prts), 1, "prt-count", what)
        p = prts[0]
        eq(p.get("id"), lat.get("referenceId"), "prt-id", what)
        check(kid(p, "UTCTiming") is not None, "prt-utc", what)
        t = kid(a, "SegmentTemplate")
        ts = int(t.get("timescale", "1"))
        wc = p.get("wallClockTime")
        wall = lex_datetime(wc if wc.endswith("Z") else wc + "Z")
        # presentation time T of the media corresponds to AST + T - media time at AST
        eq(wall, s.ast + F(int(p.get("presentationTime")), ts) - s.mt0, "prt-wall-clock", what)
        eq(t.get("availabilityTimeComplete"), "false", "availabilityTimeComplete", what)
        ato = t.get("availabilityTimeOffset")
        if s.ato is None:
            eq(ato, "INF", "availabilityTimeOffset", what)
        else:
            eq(F(ato), s.ato, "availabilityTimeOffset", what)


SUBS = [Sub("pacing", pace_cases(), pace, quick=2400, thorough=80000, rule="a response with at least one chunk whose time lies after the request"),
        Sub("signalling", mpd_cases(), signal, quick=1200, thorough=30000, rule="an MPD of a low-latency session")]
