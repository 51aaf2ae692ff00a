"""Init segments: byte-level reference transformation and availability."""
from vlib.seggen import *


def zero_durations(data):
    "Reference: the same bytes with the durations of mvhd, tkhd and mdhd set to zero."
    out = bytearray(data)

    def walk(boxes):
        for b in boxes:
            if b.type in (b"mvhd", b"mdhd"):
                p, n = (32, 8) if b.data[8] == 1 else (24, 4)
                out[b.off + p:b.off + p + n] = b"\0" * n
            elif b.type == b"tkhd":
                p, n = (36, 8) if b.data[8] == 1 else (28, 4)
                out[b.off + p:b.off + p + n] = b"\0" * n
            elif b.children is not None and b.type in (b"moov", b"trak", b"mdia"):
                walk(b.children)
    walk(M.parse_boxes(data))
    return bytes(out)


@st.composite
def cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video",), ("audio",)]))
    spec = draw(strat.specs(kind="simple", types=types, maxn=3, mpdopts=False))
    D = spec["D"]
    o = {}
    S = draw(strat.epochs())
    mode = draw(st.sampled_from(["epoch", "start", "start", "start", "startrel", "tfdt", "cont", "modulo", "stop", "dur", "offset"]))
    if mode in ("start", "stop", "dur", "offset"):
        o["start"] = S
    if mode == "offset":
        o["timeoffset"] = draw(st.sampled_from([0, S // D * D - 4 * D]))
    if mode == "stop":
        o["stop"] = S + draw(st.integers(1, 100))
    if mode == "dur":
        o["dur"] = draw(st.integers(D, 100))
    if mode == "startrel":
        o["startrel"] = draw(st.integers(-30, 60))
    if mode == "tfdt":
        o["tfdt"] = 32
    if mode == "cont":
        o["cont"] = 1
    if mode == "modulo":
        o["modulo"] = draw(st.sampled_from([1, 2, 10]))
    if draw(st.booleans()):
        o["init"] = draw(st.one_of(st.integers(0, 40), st.just(0), st.integers(100, 5000)))
    if draw(st.integers(0, 3)) == 0:
        o["snr"] = draw(st.sampled_from([-1, 0, 5]))
    if draw(st.integers(0, 3)) == 0:
        o["ato"] = draw(st.sampled_from(["inf", "3", "0.5"]))
    times = []
    for _ in range(draw(st.integers(1, 4))):
        e = draw(st.sampled_from(["edge", "edge", "edge", "any", "late"]))
        base = S // D * D
        if e == "edge":
            x = base - o.get("init", 0) + draw(st.sampled_from([-1.0, -1 / 64, 0.0, 1 / 64, 1.0, -float(D), float(D)]))
        elif e == "late":
            x = base + draw(st.integers(0, 10 ** 7)) + draw(strat.frac())
        else:
            x = base + draw(st.integers(-100, 100)) + draw(strat.frac())
        times.append(max(0.0, float(x)))
    return {"spec": spec, "opts": optlist(draw, o), "times": times}


def prop(case, stats):
    c = materialize(case["spec"])
    for now in case["times"]:
        s = Session(c, case["opts"], now)
        for t, r in c.reps():
            what = "rep %s opts %s at %r" % (r["id"], case["opts"], now)
            res = get(c, init_path(case["opts"], c, r), now)
            if not s.init_available(now):
                eq(res.code, 404, "too-early", what)
                stats.label("too early")
                stats.nt()
                continue
            need200(res, what)
            src = c.init_bytes(t, r)
            want = zero_durations(src)
            if res.body != want:
                d = [i for i in range(min(len(want), len(res.body))) if want[i] != res.body[i]]
                raise Violation("init-bytes", "%s: lengths %d and %d (expected), first differences at %s" % (
                    what, len(res.body), len(want), d[:8]))
            i = M.parse_init(res.body)
            eq((i["mvhd"]["duration"], i["tracks"][0]["tkhd_duration"], i["tracks"][0]["mdhd"]["duration"]), (0, 0, 0), "duration", what)
            if want != src:
                stats.nt()
                stats.label("changed")
            if 1 in r["fmt"].get("ivers", [0]):
                stats.label("version 1 headers")
            if abs(now - (s.ast - s.init_off)) <= 1:
                stats.label("at the edge")


SUBS = [Sub("init", cases(), prop, quick=1600, thorough=40000, rule="a request refused as too early, or an init segment with non-zero durations")]
