import os
import runpy
import shutil
import sys
import tempfile
import warnings

from vlib.seggen import *
from vlib.content import scratch
from vlib.server import quiet

CDUR = [str(x) for x in ("0.015625", "0.03125", "0.0625", "0.125", "0.1875", "0.25", "0.375", "0.5", "0.75", "1", "1.25", "2", "3.5", "10",
                         "0.1", "0.2", "0.3", "0.9", "1e-1")]


@st.composite
def cases(draw):
    case = draw(seg_cases(kind="full", nnum=2, tslist=[1000, 90000, 48000, 44100, 12800, 600, 10000000, 64, 30, 25]))
    for t in case["spec"]["tracks"]:
        for r in t["reps"]:
            r["fmt"]["enc"] = 0
    case["cd"] = draw(st.sampled_from(CDUR))
    if draw(st.integers(0, 3)) == 0:
        case["opts"] = case["opts"] + [["scte35", draw(st.sampled_from("123"))]]
    case["rel"] = draw(st.integers(0, 6))
    if case["rel"] > 3:    # chunk duration relative to the frames of the first track: an exact multiple or one tick off
        t = case["spec"]["tracks"][0]
        case["frames"] = [draw(st.integers(1, 4)), draw(st.sampled_from([-1, 0, 0, 0, 1]))]
    return case


def cdur(case):
    if "frames" in case:
        t = case["spec"]["tracks"][0]
        m, e = case["frames"]
        ticks = max(1, m * t["fd"] + e)
        x = F(ticks, t["ts"])
        s = "%.9f" % float(x)
        return s if F(s) > 0 else "1"
    return case["cd"]


def want_parts(samples, d):
    "Chunk i ends with the first sample at which the accumulated duration reaches i*d."
    out, acc, i, cur = [], 0, 1, []
    for s in samples:
        cur.append(s)
        acc += s.dur
        if acc >= i * d:
            out.append(cur)
            cur = []
            i += 1
    if cur:
        out.append(cur)
    return out


def prop(case, stats):
    c = materialize(case["spec"])
    cd = cdur(case)
    for k in case["ks"]:
        for t, r in c.reps():
            ts = t["ts"]
            d = int(F(cd) * ts)
            if d != int(float(cd) * ts) or d < 1:
                continue
            trex = c.trex_tuple(t, r)
            s, N, now, plain = served(case, k, t, r, c)
            what = "k=%d N=%d rep %s opts %s chunkdur %s" % (k, N, r["id"], case["opts"], cd)
            _, pf = parse_seg(plain.body, trex, what + " (plain)")
            s2, N2, now2, ll = served(case, k, t, r, c, extra_opts=[["chunkdur", cd]])
            boxes, cf = parse_seg(ll.body, trex, what)
            # what comes before the first fragment: the segment's own type and event messages
            pboxes = parse_boxes(plain.body, what)
            head = []
            started = False
            for b in pboxes:
                started = started or b.type == b"moof"
                if b.type == b"emsg" or (b.type == b"styp" and not started):
                    head.append(b.data)
                    if started:
                        stats.label("events between the fragments")
            eq([b.data for b in boxes[:len(head)]], head, "chunk-head", what)
            boxes = boxes[len(head):]
            eq([b.type for b in boxes], [b"moof", b"mdat"] * (len(boxes) // 2), "chunk-boxes", what)
            if any(h[4:8] == b"emsg" for h in head):
                stats.label("events")
            ps = [x for f in pf for x in f.tracks[0].samples]
            cs = []
            for i, f in enumerate(cf):
                eq(len(f.tracks), 1, "chunk-tracks", what)
                tr = f.tracks[0]
                eq(f.seqno, N % 2 ** 32, "chunk-seqno", what)
                eq(tr.track_id, r["tid"], "chunk-track-id", what)
                check(tr.tfdt is not None, "chunk-no-tfdt", what)
                size = sum(len(x.data) for x in tr.samples)
                eq(f.mdat_end - f.mdat_off, size, "chunk-mdat-size", what)
                if tr.samples:
                    check(tr.first_offset == f.mdat_off, "chunk-first-offset", what)
                cs += tr.samples
            eq(len(cs), len(ps), "sample-count", what)
            for name, fn in (("data", lambda x: x.data), ("duration", lambda x: x.dur), ("time", lambda x: x.time),
                             ("cto", lambda x: x.cto), ("sync", lambda x: not x.flags & 0x10000)):
                eq([fn(x) for x in cs], [fn(x) for x in ps], "sample-" + name, what)
            want = want_parts(ps, d)
            eq([len(f.tracks[0].samples) for f in cf], [len(p) for p in want], "partition", what)
            eq([f.tracks[0].tfdt for f in cf], [p[0].time for p in want], "chunk-tfdt", what)
            # every delivered piece is one whole chunk
            pieces = [b for _, b in ll.chunks if b]
            eq(len(pieces), len(want), "pieces", what)
            for i, p in enumerate(pieces):
                pb = [b.type for b in parse_boxes(p, what)]
                eq(pb[len(head) if i == 0 else 0:], [b"moof", b"mdat"], "piece-boxes", what)
            if len(want) > 1:
                stats.nt()
                stats.label("several chunks")
                if any(len(p) > 1 for p in want):
                    stats.label("chunks of several samples")
            if any(x.cto < 0 for x in ps):
                stats.label("negative composition offsets")
            if len(pf) > 1:
                stats.label("several source fragments")
            if ps and ps[0].time >= 2 ** 32:
                stats.label("64-bit times")


def tool(case, stats):
    "The command line tool: the same samples in chunks of the given number of ticks."
    c = materialize(case["spec"])
    t, r = c.reps()[case["ks"][0] % len(c.reps())]
    vi = case["ks"][-1] % case["spec"]["n"]
    m, e = case.get("frames", [case["rel"] + 1, 0])
    ticks = max(1, m * t["fd"] + e)
    media, init = c.seg_bytes(t, r, vi), c.init_bytes(t, r)
    base = tempfile.mkdtemp(dir=scratch())
    paths = [os.path.join(base, x) for x in ("init.mp4", "media.m4s", "out.m4s")]
    for p, b in zip(paths, (init, media)):
        with open(p, "wb") as f:
            f.write(b)
    argv = sys.argv
    sys.argv = ["chunker", str(ticks)] + paths
    what = "chunker tool, %d ticks (frame %d) rep %s" % (ticks, t["fd"], r["id"])
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with quiet():
                runpy.run_module("dashlivesim.dashlib.chunker", run_name="__main__", alter_sys=True)
    except SystemExit as exc:
        raise Violation("tool-exit", "%s: exit %r" % (what, exc.code))
    finally:
        sys.argv = argv
    with open(paths[2], "rb") as f:
        out = f.read()
    trex = c.trex_tuple(t, r)
    _, pf = parse_seg(media, trex, what + " (source)")
    boxes, cf = parse_seg(out, trex, what)
    boxes = [b.type for b in boxes if b.type not in (b"styp", b"emsg")]
    eq(boxes, [b"moof", b"mdat"] * (len(boxes) // 2), "tool-boxes", what)
    ps = [x for f in pf for x in f.tracks[0].samples]
    want = want_parts(ps, ticks)
    got = [f.tracks[0].samples for f in cf]
    for name, fn in (("data", lambda x: x.data), ("duration", lambda x: x.dur), ("time", lambda x: x.time),
                     ("cto", lambda x: x.cto), ("sync", lambda x: not x.flags & 0x10000)):
        eq([[fn(x) for x in p] for p in got], [[fn(x) for x in p] for p in want], "tool-" + name, what)
    stats.nt(len(want) > 1)
    shutil.rmtree(base)


SUBS = [Sub("chunks", cases(), prop, quick=1200, thorough=40000, rule="a segment that is split into at least two chunks"),
        Sub("tool", cases(), tool, quick=150, thorough=5000, rule="a segment that is split into at least two chunks")]
