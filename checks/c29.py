"""The caption inserter: generated video segments and SCC files go through the command line entry point; the written segments
are parsed, the caption units are decoded and everything else is compared with the source."""
import os
import shutil
import struct
import sys
import tempfile
from fractions import Fraction

from vlib.common import *
from vlib import server
from vlib.content import Content, scratch, _h


class NalContent(Content):
    "Video samples are sequences of NAL units with four-byte lengths."

    def raw_samples(self, track, rep, i):
        out = []
        lay = self.spec["layouts"]
        if track["type"] != "video":
            return Content.raw_samples(self, track, rep, i)
        for j, (dur, flags, cto, _) in enumerate(Content.raw_samples(self, track, rep, i)):
            data = b""
            for x, (typ, size) in enumerate(lay[(3 * i + j) % len(lay)]):
                body = (_h(i, j, x) * (size // 64 + 1))[:size]
                data += M.u32(1 + size) + bytes([typ | (_h("r", i, j)[0] & 0x60)]) + body
            out.append((dur, flags, cto, data))
        return out


NALS = st.lists(st.tuples(st.sampled_from([6, 7, 8, 9, 12, 15]), st.integers(0, 80)).map(list), max_size=3)
VCL = st.lists(st.tuples(st.sampled_from([1, 5, 1, 2, 3, 4, 6, 12]), st.integers(0, 300)).map(list), max_size=3)


@st.composite
def layout(draw):
    return draw(NALS) + [[draw(st.sampled_from([1, 5, 1, 5, 2])), draw(st.integers(0, 300))]] + draw(VCL)


@st.composite
def cases(draw):
    D = draw(st.integers(1, 6))
    n = draw(st.integers(1, 4))
    ts, fd, fb = draw(strat.layouts(n, D, maxf=12))
    fmt = draw(strat.fmts(kind="full", typ="video"))
    fmt["enc"] = 0
    fmt["sidx"] = None
    fmt["zerosize"] = 0
    fmt["trun"] |= 0x201
    fmt["vardur"] = draw(st.integers(0, 1))
    for k in ("nfrag", "ntrun"):
        fmt[k] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    spec = {"D": D, "n": n, "first": draw(st.sampled_from([1, 0, 7])), "mpd": {}, "tracks": [
        {"type": "video", "ts": ts, "fd": fd, "fb": fb, "reps": [{"id": "V1", "tid": draw(st.sampled_from([1, 9])), "fmt": fmt}]}],
        "layouts": draw(st.lists(layout(), min_size=1, max_size=5))}
    if draw(st.booleans()):
        ats, afd, afb = draw(strat.layouts(n, D))
        spec["tracks"].append({"type": "audio", "ts": ats, "fd": afd, "fb": afb, "reps": [
            {"id": "A1", "tid": 2, "fmt": draw(strat.fmts(kind="full", typ="audio"))}]})
    spec["mpd"]["minify"] = draw(st.booleans())
    spec["mpd"]["nosnr"] = spec["first"] == 1 and draw(st.booleans())
    base = draw(st.sampled_from([0, 0, 0, 1, 59, 3599, 3600, 7322]))
    if base:   # content that starts later
        spec["tracks"][0]["reps"][0]["fmt"]["tfdt_extra"] = base * ts
        if (base + n * D) * ts >= 2 ** 32:
            fmt["tfdt_v"] = 1
    lines = []
    for _ in range(draw(st.integers(0, 6))):
        mode = draw(st.sampled_from(["any", "any", "any", "edge", "same", "far"]))
        if mode == "far":
            sec, fr = draw(st.integers(0, 4000)), draw(st.integers(0, 29))
        elif mode == "edge":
            i = draw(st.integers(0, n))
            sec, fr = base + i * D, draw(st.sampled_from([0, 0, 0, 1, 29]))
        elif mode == "same" and lines:
            sec, fr = lines[-1]["sec"], lines[-1]["fr"]
        else:
            sec, fr = base + draw(st.integers(0, n * D - 1)), draw(st.integers(0, 29))
        k = draw(st.sampled_from([0, 1, 2, 5, 14, 30, 31, 32, 62, 63, 80]))
        lines.append({"sec": sec, "fr": fr, "n": k, "salt": draw(st.integers(0, 5))})
    return {"spec": spec, "lines": lines, "base": base, "field": draw(st.sampled_from([None, 1, 2])),
            "sep": draw(st.sampled_from([" ", "\t"])), "max": draw(st.sampled_from([None, None, None, 1, 2])),
            "blank": draw(st.booleans()), "trail": draw(st.booleans()),
            "extra": draw(st.lists(st.sampled_from(["%d.m4s.bak", "%d.m4s~", "x%d.m4s", "%dxm4s", "%d.mp4", "readme.txt"]), max_size=2)),
            "gap": n > 2 and draw(st.integers(0, 9)) == 0}


def pairs(line):
    h = _h("cc", line["salt"], line["sec"], line["fr"]) * 8
    return [h[2 * i:2 * i + 2] for i in range(line["n"])]


def tc(line):
    s = line["sec"]
    return "%02d:%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60, line["fr"])


def when(line):
    "Caption time in seconds (whole milliseconds)."
    return Fraction(line["sec"]) + Fraction(min(line["fr"] * 100000 // 2997, 999), 1000)


def nalus(data, what):
    out = []
    pos = 0
    while pos < len(data):
        check(pos + 4 <= len(data), "nal-length", what)
        size = struct.unpack_from(">I", data, pos)[0]
        check(size > 0 and pos + 4 + size <= len(data), "nal-length", what)
        out.append(data[pos + 4:pos + 4 + size])
        pos += 4 + size
    return out


def decode_cc(nal, field, what):
    "CEA-608 pairs of a caption SEI unit (ANSI/SCTE 128), or None for other units."
    if nal[0] & 0x9f != 6 or len(nal) < 12 or nal[1] != 4 or nal[3:10] != b"\xb5\x00\x31GA94" or nal[10] != 3:
        return None
    size = nal[2]
    eq(len(nal), 3 + size + 1, "sei-size", what)
    eq(nal[-1], 0x80, "sei-trailing-bits", what)
    check(size < 255, "sei-size", what)
    cnt = nal[11] & 0x1f
    check(nal[11] & 0x40, "cc-data-not-flagged", what)
    eq(size, 8 + 2 + 3 * cnt + 1, "cc-count", what)
    eq(nal[-2], 0xff, "cc-marker", what)
    out = []
    for i in range(cnt):
        m, a, b = nal[13 + 3 * i:16 + 3 * i]
        eq(m, 0xfc | (field - 1), "cc-field", what)
        out.append(bytes([a, b]))
    check(b"\0\0\0" not in nal and b"\0\0\1" not in nal and b"\0\0\2" not in nal, "emulation", what)
    return out


def run_tool(args):
    server.load()
    import dashlivesim.cc_inserter.cc_inserter as tool
    argv = sys.argv
    sys.argv = ["cc_inserter"] + args
    try:
        with server.quiet():
            tool.main()
        return None
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except Exception as e:   # noqa: BLE001
        return e
    finally:
        sys.argv = argv


def prop(case, stats):
    spec = case["spec"]
    base = tempfile.mkdtemp(dir=scratch())
    try:
        c = NalContent(spec).write(base)
        t, r = c.tracks[0], c.tracks[0]["reps"][0]
        out = os.path.join(base, "out")
        os.makedirs(out)
        scc = os.path.join(base, "cc.scc")
        with open(scc, "w") as f:
            f.write("Scenarist_SCC V1.0\n\n")
            for ln in case["lines"]:
                f.write(case["sep"].join([tc(ln), " ".join(p.hex() for p in pairs(ln))]) + (" " if case["trail"] else "") + "\n")
                if case["blank"]:
                    f.write("\n")
        args = []
        field = case["field"] or 1
        if case["field"]:
            args += ["-f", str(case["field"])]
        if case["trail"]:
            args += ["-v"]
        if case["max"]:
            args += ["-m", str(case["max"])]
        what = "D=%d n=%d first=%d timescale %d, captions at %s, args %s" % (
            c.D, c.n, c.first, t["ts"], [(tc(x), x["n"]) for x in case["lines"]], args)
        vdir = os.path.join(c.root, c.name, c.reldir(r))
        for j, e in enumerate(case.get("extra") or ()):      # Files that are no segments
            with open(os.path.join(vdir, e % (c.first + c.n + j) if "%" in e else e), "wb") as f:
                f.write(b"no segment")
        if case.get("gap"):
            os.remove(os.path.join(vdir, "%d.m4s" % (c.first + 1)))
            exc = run_tool(args + [os.path.join(c.root, c.name, c.mpd_name), scc, out])
            check(exc is not None and str(c.first) in str(exc), "gap-not-reported", "%s: %r" % (what, exc))
            stats.label("missing segment")
            return
        exc = run_tool(args + [os.path.join(c.root, c.name, c.mpd_name), scc, out])
        if exc is not None:
            raise Violation("tool-raised", "%s: %s: %s" % (what, type(exc).__name__, exc))
        written = set(os.listdir(out))
        nseg = min(c.n, case["max"] or c.n)
        check(written <= {"%d.m4s" % (c.first + i) for i in range(nseg)}, "other-files", "%s %s" % (what, sorted(written)))
        done = 0
        for i in range(nseg):
            name = "%d.m4s" % (c.first + i)
            src = c.seg_bytes(t, r, i)
            if name in written:
                with open(os.path.join(out, name), "rb") as f:
                    got = f.read()
            else:
                got = src
            w = what + " segment %s" % name
            sb, sf = parse_seg(src, c.trex_tuple(t, r), w)
            gb, gf = parse_seg(got, c.trex_tuple(t, r), w)
            eq([b.type for b in gb], [b.type for b in sb], "boxes", w)
            for x, y in zip(sb, gb):
                if x.type not in (b"moof", b"mdat"):
                    check(x.data == y.data, "box-changed", w)
            eq(len(gf), len(sf), "fragments", w)
            eq([f.seqno for f in gf], [f.seqno for f in sf], "sequence-numbers", w)
            for f, g in zip(sf, gf):
                ft, gt = f.tracks[0], g.tracks[0]
                eq((gt.track_id, gt.tfdt), (ft.track_id, ft.tfdt), "fragment-header", w)
                eq(g.moof.size, f.moof.size, "moof-size", w)
                eq(len(gt.samples), len(ft.samples), "sample-count", w)
                time = ft.tfdt
                for a, b in zip(ft.samples, gt.samples):
                    eq((b.dur, b.flags, b.cto), (a.dur, a.flags, a.cto), "sample-fields", w)
                    lo, hi = Fraction(time, t["ts"]), Fraction(time + a.dur, t["ts"])
                    time += a.dur
                    want = []
                    for ln in case["lines"]:
                        if lo <= when(ln) < hi:
                            want += pairs(ln)
                    if not want:
                        check(a.data == b.data, "sample-changed", "%s sample at %s" % (w, lo))
                        continue
                    done += 1
                    have = []
                    rest = []
                    seen_vcl = False
                    for nal in nalus(b.data, w):
                        p = decode_cc(nal, field, w)
                        if p is None:
                            rest.append(nal)
                            seen_vcl = seen_vcl or nal[0] & 0x1f in (1, 2, 3, 4, 5)
                        else:
                            check(not seen_vcl, "after-picture", w)
                            have += p
                    eq(have, want, "caption-data", "%s sample at %s" % (w, lo))
                    eq(rest, nalus(a.data, w), "other-units", w)
                    if len(want) > 31:
                        stats.label("more than one unit")
            if len(sf) > 1 and done:
                stats.label("several fragments")
            if len([b for b in sf[0].tracks[0].boxes if b.type == b"trun"]) > 1 and done:
                stats.label("several truns")
        if case["max"] and case["max"] < c.n:
            stats.label("limited")
        if done:
            stats.nt()
            stats.label("field %d" % field)
        else:
            stats.label("no captions")
    finally:
        shutil.rmtree(base, ignore_errors=True)


SUBS = [Sub("insert", cases(), prop, quick=1500, thorough=30000, rule="a sample with captions")]
