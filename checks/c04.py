from vlib.seggen import *


def flatten(boxes, path=""):
    out = []
    for b in boxes:
        p = path + "/" + b.type.decode("latin1")
        if b.children is None:
            out.append((p, b))
        else:
            out.append((p + "(", b))
            out += flatten(b.children, p)
            out.append((p + ")", b))
    return out


def masked(p, b):
    "Box bytes without the parts that may change."
    d = b.data
    if p.endswith(("(", ")")):
        return b""
    typ = b.type
    if typ == b"mfhd":
        return d[:12] + d[16:]
    if typ == b"tfdt":
        return d[4:8] + d[9:12]
    if typ == b"trun":
        fl = M.g32(d, 8)
        return d[:16] + d[20:] if fl & 1 else d
    if typ == b"saio":
        v = d[8]
        p0 = 16 + (8 if M.g32(d, 8) & 1 else 0)
        n = M.g32(d, p0 - 4)
        if len(d) != p0 + n * (8 if v else 4):
            raise Violation("saio-size", repr(d))
        return d[:p0]
    return d


def aux(data, boxes, what):
    "Auxiliary bytes pointed to by saiz/saio, per fragment."
    out = []
    for b in boxes:
        if b.type != b"moof":
            continue
        for traf in M.findall(b.children, "traf") if False else M.findall(b.children, b"traf".decode()):
            saio = M.find(traf.children, "saio")
            saiz = M.find(traf.children, "saiz")
            if saio is None:
                continue
            d = saio.data
            p0 = 16 + (8 if M.g32(d, 8) & 1 else 0)
            ne, w = M.g32(d, p0 - 4), 8 if d[8] else 4
            offs = [M.g64(d, p0 + 8 * i) if d[8] else M.g32(d, p0 + 4 * i) for i in range(ne)]
            check(len(d) == p0 + ne * w, "saio-size", what)
            size, cnt = saiz.data[12], M.g32(saiz.data, 13)
            runs = [cnt] if ne == 1 else [M.g32(x.data, 12) for x in M.findall(traf.children, "trun")]
            eq(len(runs), ne, "saio-entries", what)
            for off, n in zip(offs, runs):
                n *= size
                a = b.off + off
                check(b.off < a and a + n <= b.off + b.size, "aux-outside", "%s: aux info at %d+%d, moof %d+%d" % (
                    what, a, n, b.off, b.size))
                out.append(data[a:a + n])
    return out


def prop(case, stats):
    c = materialize(case["spec"])
    for k in case["ks"]:
        for t, r in c.reps():
            s, N, now, resp = served(case, k, t, r, c)
            what = "k=%d N=%d rep %s opts %s" % (k, N, r["id"], case["opts"])
            i, loops = s.source(N)
            src = c.seg_bytes(t, r, i)
            sb, sf = c.parsed(r["id"], i)
            gb, gf = parse_seg(resp.body, c.trex_tuple(t, r), what)
            want = [x for x in flatten(sb) if x[0] != "/sidx"]
            got = flatten(gb)
            eq([p for p, _ in got], [p for p, _ in want], "box-structure", what)
            for (p, g), (_, w) in zip(got, want):
                if p == "/styp":
                    brands = w.data[16:]
                    bl = [brands[j:j + 4] for j in range(0, len(brands), 4)]
                    eq(g.data[8:], w.data[8:16] + b"".join(x for x in bl if x != b"lmsg"), "styp", what)
                else:
                    eq(masked(p, g), masked(p, w), "box-changed", what + " " + p)
            for g, w in zip(gf, sf):
                eq([x.data for x in g.tracks[0].samples], [x.data for x in w.tracks[0].samples], "sample-data", what)
                eq(g.tracks[0].first_offset - g.mdat_off, w.tracks[0].first_offset - w.mdat_off, "data-offset", what)
            ga, wa = aux(resp.body, gb, what), aux(src, sb, what)
            eq(ga, wa, "aux-data", what)
            if any(f.tracks[0].tfdt_version == 1 for f in gf) and r["fmt"]["tfdt_v"] == 0:
                stats.label("upgraded to 64 bits")
                if ga:
                    stats.label("upgraded, encrypted")
                stats.nt()
            if ga:
                stats.nt()


SUBS = [Sub("structure", seg_cases(nnum=3), prop, quick=1600, thorough=60000,
            rule="a segment with auxiliary information or one whose decode time was upgraded to 64 bits")]
