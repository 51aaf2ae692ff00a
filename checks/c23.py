"""Inserted segment index boxes (sidx_1), compared with the segment without the option."""
from vlib.seggen import *


@st.composite
def cases(draw):
    case = draw(seg_cases(kind="full", single=True, nnum=3))
    if draw(st.booleans()):   # several track runs in the fragment
        for t in case["spec"]["tracks"]:
            for r in t["reps"]:
                r["fmt"]["ntrun"] = draw(st.integers(1, 3))
                r["fmt"]["nfrag"] = draw(st.sampled_from([1, 1, 2, 3]))
                if not r["fmt"]["trun"] & 0x100:
                    r["fmt"]["alt2"] = draw(st.integers(0, 2))
                r["fmt"]["trun2_no_off"] = draw(st.integers(0, 1))
                r["fmt"]["mid"] = draw(st.lists(st.sampled_from(["prft", "emsg", "free", "styp"]), max_size=2))
                r["fmt"]["post"] = draw(st.integers(0, 1))
    if draw(st.integers(0, 3)) == 0:
        case["opts"].append(["scte35", str(draw(st.integers(1, 3)))])
    case["val"] = draw(st.sampled_from(["1", "1", "1", "0"]))
    return case


def prop(case, stats):
    c = materialize(case["spec"])
    for k in case["ks"]:
        for t, r in c.reps():
            s, N, now, plain = served(case, k, t, r, c)
            _, _, _, got = served(case, k, t, r, c, extra_opts=[["sidx", case["val"]]])
            what = "k=%d N=%d rep %s opts %s sidx_%s" % (k, N, r["id"], case["opts"], case["val"])
            pb, pf = parse_seg(plain.body, c.trex_tuple(t, r), what)
            check(not M.findall(pb, "sidx"), "sidx-without-option", what)
            if case["val"] == "0":
                check(got.body == plain.body, "sidx-0-changes", what)
                stats.label("sidx_0")
                continue
            gb, gf = parse_seg(got.body, c.trex_tuple(t, r), what)
            sx = M.findall(gb, "sidx")
            eq(len(sx), 1, "sidx-count", what)
            pos = gb.index(sx[0])
            eq(gb[pos + 1].type, b"moof", "sidx-position", what)
            check(b"".join(b.data for b in gb if b.type != b"sidx") == plain.body, "rest-changed", what)
            x = M.parse_sidx(sx[0])
            eq(x["timescale"], t["ts"], "timescale", what)
            eq(x["ept"], pf[0].tracks[0].tfdt, "earliest-presentation-time", what)
            eq(x["first_offset"], 0, "first-offset", what)
            eq(len(x["refs"]), 1, "reference-count", what)
            ref = x["refs"][0]
            eq(ref["type"], 0, "reference-type", what)
            first = sum(b.size for b in gb[:pos + 1])       # All bytes of the fragments, with those between them
            check(ref["size"] in (gf[-1].mdat_end - first, len(got.body) - first), "reference-size", "%s: %d of %d, last media data ends at %d" % (
                what, ref["size"], len(got.body) - first, gf[-1].mdat_end - first))
            eq(ref["dur"], sum(f.tracks[0].dur for f in pf), "duration", what)
            eq([b.type for b in gb[:pos] if b.type in (b"moof", b"mdat")], [], "sidx-not-first", what)
            stats.nt()
            if len(pf) > 1:
                stats.label("several fragments")
            if pf[0].tracks[0].tfdt >= 2 ** 32:
                stats.label("64-bit time")
            fm = r["fmt"]
            stats.label("duration in " + ("trun" if fm["trun"] & 0x100 else "tfhd" if fm["tfhd"] & 8 else "init"))
            if len([b for b in pf[0].tracks[0].boxes if b.type == b"trun"]) > 1:
                stats.label("several truns")
            if fm.get("sidx") is not None:
                stats.label("VoD segment has a sidx")


SUBS = [Sub("sidx", cases(), prop, quick=1600, thorough=50000, rule="a segment with an inserted index")]
