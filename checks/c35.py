"""Generated TTML test segments: the command line tool and its library functions, parsed back and served."""
import datetime
import os
import re
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ET

from checks.c28 import run_analyzer
from vlib.common import *
from vlib import server
from vlib.content import Content, scratch

TT = "{http://www.w3.org/ns/ttml}"
XID = "{http://www.w3.org/XML/1998/namespace}id"


def run_tool(args):
    server.load()
    import dashlivesim.dashlib.stpp_generator.make_stpp_segments as tool
    argv = sys.argv
    sys.argv = ["make_stpp_segments"] + args
    try:
        with server.quiet():
            tool.main()
        return None
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except Exception as e:   # noqa: BLE001
        return e
    finally:
        sys.argv = argv


def langcode(mdhd):
    d = mdhd.data
    p = 40 if d[8] == 1 else 28
    eq(len(d), p + 4, "mdhd-size")
    v = M.g16(d, p)
    return "".join(chr(96 + (v >> s & 31)) for s in (10, 5, 0))


def check_init(data, tid, ts, lang, what, ctime=None, name=None):
    try:
        i = M.parse_init(data)
    except M.Mp4Error as e:
        raise Violation("bad-init", "%s: %s" % (what, e))
    eq(i["order"], [b"ftyp", b"moov"], "init-boxes", what)
    eq(len(i["tracks"]), 1, "init-tracks", what)
    t = i["tracks"][0]
    eq(t["track_id"], tid, "init-track-id", what)
    eq([x.track_id for x in i["trex"]], [tid], "trex-track-id", what)
    eq(t["mdhd"]["timescale"], ts, "init-timescale", what)
    eq(t["handler"], b"subt", "init-handler", what)
    eq((t["mdhd"]["duration"], t["tkhd_duration"], i["mvhd"]["duration"]), (0, 0, 0), "init-durations", what)
    md = M.find(t["box"].children, "mdia/mdhd")
    eq(langcode(md), lang, "init-language", what)
    mv = M.find(i["boxes"], "moov/mvhd")
    check(M.g32(mv.data, mv.size - 4) > tid, "next-track-id", what)
    stsd = M.find(t["box"].children, "mdia/minf/stbl/stsd")
    check(stsd is not None and b"stpp" in stsd.data and b"http://www.w3.org/ns/ttml\0"[:-1] in stsd.data, "init-sample-entry", what)
    for b in (md, mv, M.find(t["box"].children, "tkhd")):
        if ctime is not None:
            w = (M.g64(b.data, 12), M.g64(b.data, 20)) if b.data[8] else (M.g32(b.data, 12), M.g32(b.data, 16))
            eq(w, (ctime, ctime), "init-times", what)
    if name is not None:
        h = M.find(t["box"].children, "mdia/hdlr").data
        eq(h[32:], name.encode("utf-8") + b"\0", "handler-name", what)
    return i


def check_media(data, tid, nr, tfdt, dur, i, what):
    boxes, frags = parse_seg(data, None, what)
    eq([b.type for b in boxes], [b"styp", b"moof", b"mdat"], "segment-boxes", what)
    eq(len(frags), 1, "fragments", what)
    f = frags[0]
    eq(f.seqno, nr, "sequence-number", what)
    eq(len(f.tracks), 1, "tracks", what)
    t = f.tracks[0]
    eq((t.track_id, t.tfdt), (tid, tfdt), "track-id-and-time", what)
    eq(len(t.samples), 1, "samples", what)
    eq(t.samples[0].dur, dur, "duration", what)
    eq(t.first_offset, f.mdat_off, "data-offset", what)
    eq(f.mdat_off + len(t.samples[0].data), f.mdat_end, "sample-size", what)
    return t.samples[0].data


def ms(text, what):
    m = re.match(r"^(\d{2,}):([0-5]\d):([0-5]\d)\.(\d{3})$", text or "")
    check(m, "time-format", "%s %r" % (what, text))
    h, mi, s, x = (int(v) for v in m.groups())
    return ((h * 60 + mi) * 60 + s) * 1000 + x


def check_doc(doc, start, dur, res, lang, what):
    try:
        root = ET.fromstring(doc)
    except ET.ParseError as e:
        raise Violation("document-not-wellformed", "%s: %s" % (what, e))
    eq(root.tag, TT + "tt", "root", what)
    check(doc.startswith(b"<?xml"), "xml-declaration", what)
    ids = [e.get(XID) for e in root.iter() if e.get(XID)]
    eq(len(ids), len(set(ids)), "duplicate-ids", "%s %s" % (what, ids))
    ps = [p for p in root.iter(TT + "p")]
    got = [(ms(p.get("begin"), what), ms(p.get("end"), what)) for p in ps]
    want = [(start + x, start + min(x + res, dur)) for x in range(0, dur, res)]
    eq(got, want, "paragraph-times", what)
    for p, (b, _) in zip(ps, want):
        txt = "".join(p.itertext())
        check(lang in txt and p.get("begin") in txt, "paragraph-text", "%s %r" % (what, txt))
    for e in root.iter():
        for k in ("style", "region"):
            if e.get(k):
                check(e.get(k) in ids, "reference-to-missing-" + k, what)


LANG = st.one_of(st.sampled_from(["eng", "swe", "zzz", "aaa"]), st.text(alphabet="abcdefghijklmnopqrstuvwxyz", min_size=3, max_size=3))
TIDS = st.one_of(st.integers(1, 10), st.sampled_from([255, 256, 65536, 2 ** 31 - 1, 2 ** 32 - 2]))


@st.composite
def cases(draw):
    n = draw(st.integers(1, 6))
    if draw(st.booleans()):
        D = draw(st.integers(1, 20)) * 1000
    else:
        D = draw(st.integers(1, 20000))
    if draw(st.integers(0, 15)) == 0:   # times of many hours
        D = draw(st.sampled_from([3599000, 3600000, 40000000, 120000000, 10 ** 9]))
        res = D // draw(st.integers(1, 3))
    else:
        res = draw(st.one_of(st.just(1000), st.just(1000), st.integers(max(1, D // 30), 2 * D), st.just(D)))
        res = max(res, D // 40 + 1)
    return {"D": D, "n": n, "res": None if res == 1000 and draw(st.booleans()) else res,
            "lang": draw(st.one_of(st.none(), LANG)), "tid": draw(st.one_of(st.none(), TIDS)),
            "fmt": draw(st.sampled_from([None, "%d", "seg_%d", "%05d", "t%d"])), "exists": draw(st.booleans()),
            "long": draw(st.booleans()), "now": draw(strat.epochs()), "pick": draw(st.integers(0, 1000))}


def prop(case, stats):
    D, n = case["D"], case["n"]
    res, lang, tid = case["res"] or 1000, case["lang"] or "eng", case["tid"] or 3
    fmt = case["fmt"] or "%d"
    base = tempfile.mkdtemp(dir=scratch())
    try:
        serve = D % 1000 == 0 and "%d" == fmt and D <= 20000
        spec = {"D": D // 1000, "n": n, "first": 1, "mpd": {}, "tracks": [
            {"type": "subtitles", "ts": 1000, "fd": 1000, "fb": [i * (D // 1000) for i in range(n + 1)], "reps": [
                {"id": "T1", "tid": tid, "fmt": {}}]}]} if serve else None
        vdir = os.path.join(base, "content", "vod1")
        os.makedirs(vdir)
        out = os.path.join(vdir, "T1")
        if case["exists"]:
            os.makedirs(out)
        L = case["long"]
        args = ["--segment_duration" if L else "-d", str(D), "--number_of_segments" if L else "-n", str(n), "--output_path" if L else "-o", out]
        for k, s, ln in (("fmt", "-f", "--segment_name_format"), ("res", "-r", "--resolution"), ("lang", "-l", "--language"),
                         ("tid", "-t", "--trackid")):
            if case[k] is not None:
                args += [ln if L else s, str(case[k])]
        what = "make_stpp_segments %s" % " ".join(args[:4] + args[6:])
        exc = run_tool(args)
        if exc is not None:
            raise Violation("tool-raised", "%s: %s: %s" % (what, type(exc).__name__, exc))
        eq(sorted(os.listdir(out)), sorted(["init.mp4"] + [fmt % (i + 1) + ".m4s" for i in range(n)]), "files", what)
        with open(os.path.join(out, "init.mp4"), "rb") as f:
            init = f.read()
        i = check_init(init, tid, 1000, lang, what)
        docs = []
        for k in range(n):
            with open(os.path.join(out, fmt % (k + 1) + ".m4s"), "rb") as f:
                seg = f.read()
            w = "%s segment %d" % (what, k + 1)
            doc = check_media(seg, tid, k + 1, k * D, D, i, w)
            check_doc(doc, k * D, D, res, lang, w)
            docs.append(doc)
        stats.nt(n > 1)
        if D % res:
            stats.label("last paragraph cut")
        if n * D >= 3600000:
            stats.label("hours")
        if not serve:
            return
        c = Content(spec)
        c.root, c.conf = os.path.join(base, "content"), os.path.join(base, "conf")
        os.makedirs(c.conf)
        with open(os.path.join(vdir, c.mpd_name), "w", encoding="utf-8") as f:
            f.write(c.mpd_xml())
        exc = run_analyzer(os.path.join(vdir, c.mpd_name), c.conf)
        if exc is not None:
            raise Violation("analyzer-raised", "%s: %s: %s" % (what, type(exc).__name__, exc))
        now = float(case["now"])
        s = Session(c, [], now)
        lo, hi = s.window(now)
        N = lo + case["pick"] % (hi - lo + 1)
        t, r = c.reps()[0]
        g = need200(get(c, init_path([], c, r), now), what + " init")
        check_init(g.body, tid, 1000, lang, what + " served init")
        g = need200(getseg(c, [], r, N, now), "%s: live segment %d" % (what, N))
        doc = check_media(g.body, tid, N % 2 ** 32, s.tfdt(N, t), D, i, what + " served")
        st0 = s.tfdt(N, t)
        got = [(ms(p.get("begin"), what), ms(p.get("end"), what)) for p in ET.fromstring(doc).iter(TT + "p")]
        eq(got, [(st0 + x, st0 + min(x + res, D)) for x in range(0, D, res)], "served-times", what)
        stats.label("served")
    finally:
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def api_cases(draw):
    return {"lang": draw(LANG), "tid": draw(TIDS), "ts": draw(st.sampled_from([1, 1000, 90000, 10000000, 2 ** 32 - 1])),
            "ctime": draw(st.sampled_from([None, 1, 3 * 10 ** 9])),
            "name": draw(st.one_of(st.none(), st.text(alphabet="abc XYZ-\u00e5\u4e2d", min_size=1, max_size=20))),
            "nr": draw(st.one_of(st.integers(0, 100), st.sampled_from([2 ** 31, 2 ** 32 - 1]))),
            "dur": draw(st.one_of(st.integers(1, 10000), st.just(2 ** 32 - 1))),
            "time": draw(st.one_of(st.integers(0, 10 ** 5), st.integers(0, 2 ** 63), st.sampled_from([2 ** 32, 2 ** 32 - 1, 2 ** 64 - 1]))),
            "doc": draw(st.one_of(st.just(""), st.text(max_size=60), st.text(alphabet="<>tmoofmdat\0", max_size=30))),
            "rep": draw(st.sampled_from([1, 1, 1, 300, 4000]))}


def api(case, stats):
    server.load()
    import dashlivesim.dashlib.stpp_generator.stpp_creator as sc
    init = getattr(sc, "create_init_segment", None)
    media = getattr(sc, "create_media_segment", None)
    if init is None or media is None:
        stats.label("no such function")
        return
    what = "%s" % {k: v for k, v in case.items() if k != "doc"}
    with server.quiet():
        data = init(case["lang"], case["tid"], case["ts"], case["ctime"], case["name"])
        doc = (case["doc"] * case["rep"]).encode("utf-8", "surrogatepass")
        seg = media(case["tid"], case["nr"], case["dur"], case["time"], doc)
    i = check_init(data, case["tid"], case["ts"], case["lang"], what, case["ctime"], case["name"])
    got = check_media(seg, case["tid"], case["nr"], case["time"], case["dur"], i, what)
    check(got == doc, "sample-data", what)
    stats.nt(bool(doc))
    if case["time"] >= 2 ** 32:
        stats.label("64-bit time")
    if case["name"]:
        stats.label("handler name")


SUBS = [Sub("tool", cases(), prop, quick=1200, thorough=25000, rule="at least two segments"),
        Sub("functions", api_cases(), api, quick=2000, thorough=40000, rule="a document that is not empty")]
