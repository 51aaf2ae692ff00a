"""Thumbnails: availability, mapping and content, also compared with the media segments of the same number."""
from vlib.common import *


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=5, multirep=False, types=("video",), mpdopts=False, nested=False))
    D, n = spec["D"], spec["n"]
    reps = []
    for i in range(draw(st.integers(1, 2))):
        r = {"id": ["thumbs", "I2"][i], "tid": 1, "fmt": {}}
        if draw(st.booleans()):
            r["dir"] = draw(st.sampled_from(["img", "a/b"]))
        reps.append(r)
    spec["tracks"].append({"type": "image", "ts": draw(st.sampled_from([1, 1000, 90000])), "fd": 0, "fb": list(range(n + 1)), "reps": reps})
    spec["tracks"][-1]["fd"] = D * spec["tracks"][-1]["ts"]
    o = []
    mode = draw(st.sampled_from(["epoch", "start", "start", "offset", "offset", "stop", "dur", "tfdt", "cont", "modulo"]))
    S = draw(strat.epochs())
    ast = S // D * D
    if mode in ("start", "offset", "stop", "dur"):
        o.append(["start", str(S)])
    if mode == "offset" or (mode in ("stop", "dur") and draw(st.booleans())):
        o.append(["timeoffset", str(draw(st.one_of(st.just(0), st.integers(0, 400).map(lambda j: ast - j * D))))])
    anchor = ast
    if mode == "stop":
        o.append(["stop", str(ast + draw(st.one_of(st.just(0 if S == ast else D), st.integers(1, 12 * D))))])
    if mode == "dur":
        for _ in range(draw(st.integers(1, 2))):
            o.append(["dur", str(draw(st.integers(1, 8)) * D)])
    if mode == "tfdt":
        o.append(["tfdt", "32"])
        anchor = S // 10800 * 10800
    if mode == "cont":
        o.append(["cont", "1"])
        anchor = S
    if mode == "modulo":
        xs = [x for x in (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60) if 12 * x % D == 0]
        if xs:
            x = draw(st.sampled_from(xs))
            o.append(["modulo", str(x)])
            anchor = S // (60 * x) * 60 * x
    if mode == "epoch":
        anchor = S
    if draw(st.booleans()):
        o.append(["snr", str(draw(st.sampled_from([-1, 0, 1, 2, 17, 1000000])))])
    if draw(st.booleans()):
        o.append(["tsbd", str(draw(st.sampled_from([0, 1, 5, 30, 60, 3600])))])
    if draw(st.booleans()):
        o.append(["ato", draw(st.sampled_from(["inf", "0", "1", "0.5", str(D), "2.25"]))])
    probes = draw(st.lists(st.tuples(st.one_of(st.integers(0, 15 * D), st.integers(0, 4000)), strat.frac(),
                                     st.sampled_from(["new", "new", "next", "old", "older", "first", "before", "mid", "end"]),
                                     st.integers(0, 3)), min_size=2, max_size=5))
    return {"spec": spec, "opts": list(draw(st.permutations(o))), "anchor": anchor, "probes": probes,
            "t": draw(st.integers(0, 5)) == 0}


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    yes = no = 0
    vt, vr = c.reps()[0]
    for dt, fr, what, ri in case["probes"]:
        now = case["anchor"] + dt + fr
        s = Session(c, opts, now)
        k = int((F(now) + (s.ato or 0) - s.ast) // c.D) - 1
        old = int((F(now) - s.ast - 2 * c.D - s.tsbd) // c.D)
        k = {"new": k, "next": k + 1, "old": max(old + 1, 0), "older": old, "first": 0, "before": -1, "mid": max(k - 1, 0),
             "end": (s.last if s.last is not None else (s.beyond or s.first + 1) - 1) - s.first + ri % 2}[what]
        N = s.first + k
        if N < 0:
            continue
        t, rep = pick_rep(c, ri, ("image",))
        path = seg_path(opts, c, rep, N, ext=".jpg")
        if case["t"] and k >= 0:
            path = seg_path(opts, c, rep, "t%d" % (s.media_time(N) * t["ts"]), ext=".jpg")
        r = get(c, path, now)
        want = s.available(N, now)
        w = "thumbnail %d (k=%d) %s at %r: %s" % (N, k, path, now, r.status)
        stats.label("%s/%s" % (what, 200 if want else 404))
        seg = getseg(c, opts, vr, N, now)
        eq(r.code, seg.code, "differs-from-segment", w)
        if want:
            check(r.code == 200, "available-refused", w)
            i, _ = s.source(N)
            check(r.body == c.seg_bytes(t, rep, i), "wrong-image", w)
            eq(r.h("Content-Type"), "image/jpeg", "mime", w)
            yes += 1
        else:
            check(r.code == 404, "unavailable-served", w)
            no += 1
    stats.nt(yes > 0)


SUBS = [Sub("thumbnails", cases(), prop, quick=2500, thorough=100000, rule="at least one probe must be served by the model")]
