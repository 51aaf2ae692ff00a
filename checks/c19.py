"""On-the-fly multiplexing of two tracks."""
from checks.c04 import aux
from vlib.seggen import *


@st.composite
def cases(draw):
    case = draw(seg_cases(kind="full", nnum=2))
    spec = case["spec"]
    d = draw(st.sampled_from([None, None, "en", "a/b"]))
    if draw(st.integers(0, 3)) == 0:   # a third track that can be combined as well
        D, n = spec["D"], spec["n"]
        spec["tracks"].append({"type": "subtitles", "ts": 1000, "fd": D * 1000, "fb": list(range(n + 1)), "reps": [
            {"id": "S1", "tid": 3, "fmt": {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": 0},
             "docs": ['<tt>\u00e5 begin="00:00:01.000" x</tt>', "<tt>no times</tt>"]}]})
    for ti, t in enumerate(spec["tracks"]):
        for ri, r in enumerate(t["reps"]):
            r.pop("dir", None)
            if d:
                r["dir"] = d
            r["tid"] = 1 + ti * 2 + ri
            r["fmt"]["extra_moof"] = []
    if draw(st.integers(0, 3)) == 0:
        case["opts"].append(["scte35", str(draw(st.integers(1, 3)))])
    case["pick"] = [draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    case["delta"] = draw(st.sampled_from([-1.0, -1 / 64, 0.0]))
    case["late"] = draw(st.sampled_from([0.0, 1 / 64, 1.0]))
    return case


def muxpath(c, opts, a, b, name):
    d = a.get("dir")
    return "/" + "/".join(["livesim"] + ["%s_%s" % (k, v) for k, v in opts] + [c.name] + ([d] if d else []) +
                          ["%s__%s" % (a["id"], b["id"]), name])


def pair(c, case):
    reps = c.reps()
    i = case["pick"][0] % len(reps)
    j = case["pick"][1] % len(reps)
    if i == j:
        j = (i + 1) % len(reps)
    return reps[i], reps[j]


def media(case, stats):
    c = materialize(case["spec"])
    (ta, ra), (tb, rb) = pair(c, case)
    trexs = {r["tid"]: c.trex_tuple(t, r) for t, r in ((ta, ra), (tb, rb))}
    for k in case["ks"]:
        s, N, now, pa = served(case, k, ta, ra, c)
        _, _, _, pb = served(case, k, tb, rb, c)
        what = "k=%d N=%d %s__%s opts %s at %r" % (k, N, ra["id"], rb["id"], case["opts"], now)
        r = need200(get(c, muxpath(c, case["opts"], ra, rb, "%d.m4s" % N), now), what)
        boxes, fr = parse_seg(r.body, trexs, what)
        ba, fa = parse_seg(pa.body, trexs, what)
        bb, fb = parse_seg(pb.body, trexs, what)
        eq([x.type for x in boxes if x.type in (b"moof", b"mdat")], [b"moof", b"mdat"] * len(fr), "boxes", what)
        if len(fa) == len(fb) == 1:
            eq(len(fr), 1, "fragments", what)
        f = fr[0]
        eq([x.track_id for x in f.tracks], [ra["tid"], rb["tid"]], "track-order", what)
        for x in fr:
            eq(x.seqno, N % 2 ** 32, "seqno", what)
            check(set(t.track_id for t in x.tracks) <= {ra["tid"], rb["tid"]}, "tracks", what)
        for src, rep in ((fa, ra), (fb, rb)):
            got = [t for x in fr for t in x.tracks if t.track_id == rep["tid"]]
            eq(got[0].tfdt, src[0].tracks[0].tfdt, "decode-time", what + " " + rep["id"])
            eq([tuple(x) for t in got for x in t.samples], [tuple(x) for y in src for x in y.tracks[0].samples], "samples",
               what + " " + rep["id"])
        ga, wa = aux(r.body, boxes, what), [aux(x.body, y, what) for x, y in ((pa, ba), (pb, bb))]
        eq(sorted(ga), sorted(wa[0] + wa[1]), "auxiliary-information", what)
        if len(fa) == len(fb) == 1:
            eq(ga, wa[0] + wa[1], "auxiliary-information", what)
        if ga:
            stats.label("auxiliary information")
        ev = [[x.data for x in y if x.type == b"emsg"] for y in (boxes, ba, bb)]
        eq(set(ev[0]), set(ev[1] + ev[2]), "event-messages", what)
        if ev[0]:
            stats.label("event messages")
            for src in (ba, bb):      # Those before the first fragment still are
                head = [x.data for x in src[:[x.type for x in src].index(b"moof")] if x.type == b"emsg"]
                got = [x.data for x in boxes[:[x.type for x in boxes].index(b"moof")] if x.type == b"emsg"]
                check(set(head) <= set(got), "event-messages-late", what)
        tot = sum(len(x.data) for y in fr for t in y.tracks for x in t.samples)
        if all(not x["fmt"].get("mdat_pre") for x in (ra, rb)):
            eq(sum(x.mdat_end - x.mdat_off for x in fr), tot, "mdat-size", what)
        if len(fa) > 1 or len(fb) > 1:
            stats.label("several fragments" if len(fa) == len(fb) else "different numbers of fragments")
        # availability like the separate segments
        at = float(s.end_of(N)) + case["delta"]
        if at >= 0:
            m = get(c, muxpath(c, case["opts"], ra, rb, "%d.m4s" % N), at)
            p = getseg(c, case["opts"], ra, N, at)
            eq(m.code, p.code, "availability", "%s at %r" % (what, at))
        at = float(s.end_of(N) + s.D + s.tsbd) + case["late"]
        m = get(c, muxpath(c, case["opts"], ra, rb, "%d.m4s" % N), at)
        p = getseg(c, case["opts"], ra, N, at)
        eq(m.code, p.code, "availability-late", "%s at %r" % (what, at))
        if tot and all(t.samples for t in f.tracks):
            stats.nt()
        v = [t.tfdt_version for t in f.tracks]
        if 1 in v:
            stats.label("64-bit decode time in %d tracks" % v.count(1))
        if ta["type"] == tb["type"]:
            stats.label("two tracks of one type")


def init(case, stats):
    c = materialize(case["spec"])
    (ta, ra), (tb, rb) = pair(c, case)
    what = "%s__%s opts %s" % (ra["id"], rb["id"], case["opts"])
    s = Session(c, case["opts"], 0)
    now = float(max(0, s.ast) + 1)
    r = need200(get(c, muxpath(c, case["opts"], ra, rb, "init.mp4"), now), what)
    i = M.parse_init(r.body)
    srcs = []
    for t, rp in ((ta, ra), (tb, rb)):
        srcs.append(M.parse_init(c.init_bytes(t, rp)))
    eq([t["track_id"] for t in i["tracks"]], [ra["tid"], rb["tid"]], "init-tracks", what)
    eq([t["handler"] for t in i["tracks"]], [x["tracks"][0]["handler"] for x in srcs], "init-handlers", what)
    eq([t["mdhd"]["timescale"] for t in i["tracks"]], [ta["ts"], tb["ts"]], "init-timescales", what)
    eq([tuple(x) for x in i["trex"]], [tuple(c.trex_tuple(t, rp)) for t, rp in ((ta, ra), (tb, rb))], "init-trex", what)
    eq(i["order"][0], b"ftyp", "init-ftyp", what)
    eq(i["boxes"][0].data, srcs[0]["boxes"][0].data, "init-ftyp", what)
    for t, x in zip(i["tracks"], srcs):     # the sample description is that of the track
        a = M.find(t["box"].children, "mdia/minf")
        b = M.find(x["tracks"][0]["box"].children, "mdia/minf")
        eq(a.data, b.data, "init-minf", what)
        eq(M.find(t["box"].children, "edts") is None, M.find(x["tracks"][0]["box"].children, "edts") is None, "init-edts", what)
    ps = [[x.data for x in M.findall(y["moov"].children, "pssh")] for y in (i, srcs[0], srcs[1])]
    eq(set(ps[0]), set(ps[1] + ps[2]), "init-pssh", what)
    eq(len(M.findall(i["moov"].children, "mvhd")), 1, "init-mvhd", what)
    eq(i["mvhd"]["timescale"], srcs[0]["mvhd"]["timescale"], "init-mvhd", what)
    early = s.ast - s.init_off - 1
    if s.ast > 0:
        r = get(c, muxpath(c, case["opts"], ra, rb, "init.mp4"), float(early))
        eq(r.code, 404, "init-early", what)
        stats.label("early")
    stats.nt(ta["type"] != tb["type"])


SUBS = [Sub("media", cases(), media, quick=1200, thorough=40000, rule="a muxed segment in which both tracks have samples and media data"),
        Sub("init", cases(), init, quick=500, thorough=10000, rule="a video and audio (or subtitle) pair")]
