"""Live TTML subtitles: structured documents rendered by a reference renderer."""
import datetime

from checks.c04 import flatten, masked
from vlib.seggen import *

EPOCH = datetime.datetime(1970, 1, 1)
TEXTS = ["", "\n", "<p>", "</p>", "plain text", "\u00e5\u00e4\u00f6", "\u65e5\u672c\u8a9e \U0001f600", "a:b", " 12:34:56 ", "12:34", "UTC = x", "Segment", "# 5",
         "segment #7", "\\1 %d %s", "<br/>", "&lt;&amp;", "begin", "end=\"5s\"", "dur=\"00:00:02.000\"", "begin=\"1:02:03\"",
         "\ufeff", "moof", "mdat\x00"]
LANGS = ["en", "swe", "zh_CN", "Eng1"]


@st.composite
def parts(draw):
    out = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.sampled_from(["text", "text", "time", "time", "clock", "seg"]))
        if k == "text":
            out.append(["text", draw(st.one_of(st.sampled_from(TEXTS), st.text(alphabet="abc <>/&\"\u00e9\u4e2d\n", max_size=12)))])
        elif k == "time":
            out.append(["time", draw(st.sampled_from(["begin", "end"])), draw(st.one_of(st.integers(0, 3700), st.integers(0, 359999), st.integers(359990, 10 ** 6))),
                        draw(st.sampled_from(["", ".000", ".999", ".5", ":12", ".123456"])),
                        draw(st.sampled_from(['="%"', '="%"', "='%'", ' = "%"', "=\n'%'", '  =\t "%"', "\n  = '%'"]))])
        elif k == "clock":
            out.append(["clock", draw(st.sampled_from(LANGS)), draw(st.one_of(st.integers(0, 3700), st.integers(0, 359999))),
                        draw(st.sampled_from(["", ".000", ".5", ".123456"]))])
        else:
            out.append(["seg", draw(st.one_of(st.integers(0, 30), st.integers(0, 10 ** 10)))])
    return out


def hms(s):
    return "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)


def render(ps, off=None, nr=None):
    "Document text; with off (seconds) and nr as it shall be served."
    out = []
    for p in ps:
        if p[0] == "text":
            out.append(p[1])
        elif p[0] == "time":
            out.append("<p %s%s/>" % (p[1], p[4].replace("%", hms(p[2] + (off or 0)) + p[3])))
        elif p[0] == "clock":
            if off is None:
                out.append("|%s : %s%s|" % (p[1], hms(p[2]), p[3]))
            else:
                t = EPOCH + datetime.timedelta(seconds=p[2] + off)
                out.append("|%s : UTC = %s|" % (p[1], t.strftime("%Y-%m-%dT%H:%M:%SZ")))
        else:
            out.append("(Segment # %d)" % (p[1] if nr is None else nr))
    return "".join(out)


@st.composite
def cases(draw):
    D = draw(st.integers(1, 8))
    n = draw(st.integers(1, 5))
    ts = draw(st.sampled_from([1000, 1, 90000, 10000000]))
    docs = draw(st.lists(parts(), min_size=1, max_size=3))
    tfhd = 0x18 | draw(st.sampled_from([0, 2])) | draw(st.sampled_from([0, 0x20])) | draw(st.sampled_from([0, 0x20000]))
    fmt = {"styp": draw(st.sampled_from([["msdh"], None, ["msdh", "msix"]])), "tfhd": tfhd, "trun": draw(st.sampled_from([1, 5, 0x401])),
           "tfdt_v": draw(st.integers(0, 1)), "sidx": draw(st.sampled_from([None, 0, 1])), "pre": draw(st.sampled_from([[], ["free"]])),
           "post": draw(st.integers(0, 1)), "extra_traf": draw(st.sampled_from([[], ["uuid"]]))}
    spec = {"D": D, "n": n, "first": draw(st.sampled_from([0, 1, 5])), "tsbd": 30, "tracks": [
        {"type": "subtitles", "ts": ts, "fd": D * ts, "fb": list(range(n + 1)), "reps": [
            {"id": "S1", "tid": 1, "fmt": fmt, "docs": [render(d) for d in docs]}]}]}
    if draw(st.integers(0, 3)) == 0:
        spec["cfgver"] = "1.0"      # Configuration of the first version, without timelines
    o = {}
    if draw(st.integers(0, 2)) == 0:
        o["start"] = draw(strat.epochs())
        if draw(st.integers(0, 1)):
            ast = o["start"] // D * D
            o["timeoffset"] = draw(st.one_of(st.just(0), st.integers(0, 100).map(lambda j: ast - j * D)))
    if draw(st.integers(0, 2)) == 0:
        o["snr"] = draw(st.sampled_from([-1, 0, 1, 7, 4000000]))
    if draw(st.integers(0, 3)) == 0:
        o["sidx"] = 1
    ks = draw(st.lists(st.one_of(st.integers(0, 2 * n + 1), st.integers(0, 4 * 10 ** 8 // D), st.integers(90, 110).map(lambda h: h * 3600 // D)),
                       min_size=1, max_size=3))
    return {"spec": spec, "opts": optlist(draw, o), "ks": ks, "docs": docs, "dt": draw(strat.frac())}


def prop(case, stats):
    c = materialize(case["spec"])
    t = c.tracks[0]
    r = t["reps"][0]
    for k in case["ks"]:
        s, N, now, got = served(case, k, t, r, c)
        i, loops = s.source(N)
        off = loops * c.n * c.D
        doc = case["docs"][i % len(case["docs"])]
        what = "N=%d loop offset %d opts %s" % (N, off, case["opts"])
        want = render(doc, off, N).encode("utf-8")
        gb, gf = parse_seg(got.body, c.trex_tuple(t, r), what)
        eq(len(gf), 1, "fragments", what)
        tr = gf[0].tracks[0]
        eq(tr.tfdt, s.tfdt(N, t), "decode-time", what)
        eq(gf[0].seqno, N % 2 ** 32, "seqno", what)
        eq(len(tr.samples), 1, "samples", what)
        sm = tr.samples[0]
        if sm.data != want:
            raise Violation("document", "%s:\n got  %r\n want %r\n vod  %r" % (what, sm.data, want, render(doc).encode("utf-8")))
        eq(gf[0].mdat_end - gf[0].mdat_off, len(want), "mdat-size", what)
        sb, sf = c.parsed(r["id"], i)
        eq(sm.dur, sf[0].tracks[0].samples[0].dur, "duration", what)
        w = [x for x in flatten(sb) if x[0] != "/sidx"]
        g = [x for x in flatten(gb) if x[0] != "/sidx"]
        eq([p for p, _ in g], [p for p, _ in w], "box-structure", what)
        for (p, a), (_, b) in zip(g, w):
            if p in ("/mdat", "/styp"):
                continue
            x, y = masked(p, a), masked(p, b)
            if p.endswith("/tfhd"):   # all but the default sample size
                q = 20 + 4 * bool(r["fmt"]["tfhd"] & 2)
                x, y = x[:q] + x[q + 4:], y[:q] + y[q + 4:]
            eq(x, y, "box-changed", what + " " + p)
        if "sidx" in dict(case["opts"]):
            sx = M.findall(gb, "sidx")
            eq(len(sx), 1, "sidx", what)
            moof = [b for b in gb if b.type == b"moof"][0]
            mdat = [b for b in gb if b.type == b"mdat"][0]
            eq(M.parse_sidx(sx[0])["refs"][0]["size"], moof.size + mdat.size, "sidx-size", what)
        vod = render(doc).encode("utf-8")
        if want != vod:
            stats.nt()
            stats.label("changed")
        if len(want) < len(vod):
            stats.label("shorter")
        if b"\xc3" in want or b"\xe6" in want:
            stats.label("non-ASCII")


SUBS = [Sub("ttml", cases(), prop, quick=2400, thorough=60000, rule="a document that must change")]
