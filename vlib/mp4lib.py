"""Independent MP4 (ISO BMFF) builder and strict parser used as test oracle.

Shares no code with the repository under test.
"""
import struct
from collections import namedtuple


class Mp4Error(Exception):
    "The byte string is not what the format requires."


def u8(x):
    return struct.pack(">B", x)


def u16(x):
    return struct.pack(">H", x)


def u32(x):
    return struct.pack(">I", x)


def s32(x):
    return struct.pack(">i", x)


def u64(x):
    return struct.pack(">Q", x)


def g16(d, p):
    return struct.unpack_from(">H", d, p)[0]


def g32(d, p):
    if p + 4 > len(d):
        raise Mp4Error("read past end")
    return struct.unpack_from(">I", d, p)[0]


def gs32(d, p):
    if p + 4 > len(d):
        raise Mp4Error("read past end")
    return struct.unpack_from(">i", d, p)[0]


def g64(d, p):
    if p + 8 > len(d):
        raise Mp4Error("read past end")
    return struct.unpack_from(">Q", d, p)[0]


def box(typ, payload=b""):
    if isinstance(typ, str):
        typ = typ.encode()
    assert len(typ) == 4
    return u32(len(payload) + 8) + typ + payload


def fullbox(typ, version, flags, payload=b""):
    return box(typ, u32((version << 24) | flags) + payload)


CONTAINERS = {b"moov", b"trak", b"mdia", b"minf", b"dinf", b"stbl", b"mvex", b"edts", b"udta", b"moof", b"traf", b"sinf",
              b"schi", b"mfra"}

Box = namedtuple("Box", "type off size data children")


def parse_boxes(data, base=0, containers=CONTAINERS, path=""):
    "Strictly parse data into a list of boxes; sizes must add up exactly."
    out = []
    pos = 0
    n = len(data)
    while pos < n:
        if n - pos < 8:
            raise Mp4Error("trailing %d bytes in %s" % (n - pos, path or "top level"))
        size = g32(data, pos)
        typ = data[pos + 4:pos + 8]
        if typ == b"mdat" and not path and size < 2:        # Of 64-bit size, or to the end
            size = g64(data, pos + 8) if size else n - pos
        if size < 8:
            raise Mp4Error("box %r in %s has size %d" % (typ, path or "top level", size))
        if pos + size > n:
            raise Mp4Error("box %r in %s of size %d extends %d bytes beyond its container" % (
                typ, path or "top level", size, pos + size - n))
        bd = data[pos:pos + size]
        ch = None
        if typ in containers:
            ch = parse_boxes(bd[8:], base + pos + 8, containers, path + "/" + typ.decode("latin1"))
        out.append(Box(typ, base + pos, size, bd, ch))
        pos += size
    return out


def find(boxes, path):
    "First box at path 'moof/traf/tfdt' or None."
    for typ in path.split("/"):
        if boxes is None:
            return None
        nxt = [b for b in boxes if b.type == typ.encode()]
        if not nxt:
            return None
        res = nxt[0]
        boxes = res.children
    return res


def findall(boxes, typ):
    return [b for b in boxes if b.type == typ.encode()]


Trex = namedtuple("Trex", "track_id sdi dur size flags")
Sample = namedtuple("Sample", "data dur flags cto time")
Track = namedtuple("Track", "track_id sdi tfdt tfdt_version samples boxes tfhd_flags dur first_offset")
Fragment = namedtuple("Fragment", "seqno tracks moof mdat_off mdat_end")


def parse_trex(b):
    d = b.data
    if b.size != 32:
        raise Mp4Error("trex size %d" % b.size)
    return Trex(g32(d, 12), g32(d, 16), g32(d, 20), g32(d, 24), g32(d, 28))


def parse_init(data):
    "Parse an init segment into a dict."
    boxes = parse_boxes(data)
    moov = find(boxes, "moov")
    if moov is None:
        raise Mp4Error("no moov")
    res = {"boxes": boxes, "order": [b.type for b in boxes], "moov": moov, "tracks": [], "trex": []}
    mv = find(boxes, "moov/mvhd")
    res["mvhd"] = parse_hdr(mv, 12, 20)
    for tr in findall(moov.children, "trak"):
        tk = find(tr.children, "tkhd")
        md = find(tr.children, "mdia/mdhd")
        hd = find(tr.children, "mdia/hdlr")
        t = {"box": tr}
        v = tk.data[8]
        t["track_id"] = g32(tk.data, 28 if v else 20)
        t["tkhd_duration"] = g64(tk.data, 36) if v else g32(tk.data, 28)
        t["mdhd"] = parse_hdr(md, 12, 20)
        t["handler"] = hd.data[16:20] if hd else None
        res["tracks"].append(t)
    mvex = find(boxes, "moov/mvex")
    if mvex is not None:
        res["trex"] = [parse_trex(b) for b in findall(mvex.children, "trex")]
    return res


def parse_hdr(b, _a, _b):
    "mvhd / mdhd: version, timescale, duration."
    d = b.data
    if d[8] == 1:
        return {"version": 1, "timescale": g32(d, 28), "duration": g64(d, 32)}
    return {"version": 0, "timescale": g32(d, 20), "duration": g32(d, 24)}


def parse_traf(data, moof, traf, trex, mdats):
    "Resolve one traf of a fragment to samples (data located through the offsets)."
    tf = find(traf.children, "tfhd")
    if tf is None:
        raise Mp4Error("no tfhd")
    d = tf.data
    fl = g32(d, 8) & 0xffffff
    tid = g32(d, 12)
    p = 16
    base = moof.off
    ddur = trex.dur if trex else None
    dsize = trex.size if trex else None
    dflags = trex.flags if trex else None
    sdi = None
    if fl & 1:
        base = g64(d, p)
        p += 8
    if fl & 2:
        sdi = g32(d, p)
        p += 4
    if fl & 8:
        ddur = g32(d, p)
        p += 4
    if fl & 0x10:
        dsize = g32(d, p)
        p += 4
    if fl & 0x20:
        dflags = g32(d, p)
        p += 4
    if p != tf.size:
        raise Mp4Error("tfhd size %d, fields end at %d" % (tf.size, p))
    td = find(traf.children, "tfdt")
    tfdt = None
    tv = None
    if td is not None:
        tv = td.data[8]
        if tv == 1:
            if td.size != 20:
                raise Mp4Error("tfdt v1 size %d" % td.size)
            tfdt = g64(td.data, 12)
        elif tv == 0:
            if td.size != 16:
                raise Mp4Error("tfdt v0 size %d" % td.size)
            tfdt = g32(td.data, 12)
        else:
            raise Mp4Error("tfdt version %d" % tv)
    samples = []
    t = tfdt or 0
    nextpos = None
    first_offset = None
    for tr in findall(traf.children, "trun"):
        d = tr.data
        ver = d[8]
        fl2 = g32(d, 8) & 0xffffff
        n = g32(d, 12)
        p = 16
        if fl2 & 1:
            pos = base + gs32(d, p)
            p += 4
        else:
            pos = nextpos if nextpos is not None else base
        if first_offset is None:
            first_offset = pos
        first_flags = None
        if fl2 & 4:
            first_flags = g32(d, p)
            p += 4
        for i in range(n):
            dur, size, flags, cto = ddur, dsize, dflags, 0
            if fl2 & 0x100:
                dur = g32(d, p)
                p += 4
            if fl2 & 0x200:
                size = g32(d, p)
                p += 4
            if fl2 & 0x400:
                flags = g32(d, p)
                p += 4
            elif i == 0 and first_flags is not None:
                flags = first_flags
            if fl2 & 0x800:
                cto = gs32(d, p) if ver else g32(d, p)
                p += 4
            if dur is None or size is None:
                raise Mp4Error("sample without duration or size")
            if size and not any(a <= pos and pos + size <= b for a, b in mdats):
                raise Mp4Error("sample %d at %d+%d is outside the media data %s" % (i, pos, size, mdats))
            samples.append(Sample(data[pos:pos + size], dur, flags, cto, t))
            pos += size
            t += dur
        nextpos = pos
        if p != tr.size:
            raise Mp4Error("trun size %d, entries end at %d" % (tr.size, p))
    return Track(tid, sdi, tfdt, tv, samples, traf.children, fl, sum(s.dur for s in samples), first_offset)


def parse_segment(data, trexs=None):
    """Parse a media segment -> (top level boxes, [Fragment]).

    trexs: {track_id: Trex} or a single Trex used for every track."""
    boxes = parse_boxes(data)
    hdr = {b.off: 16 if g32(b.data, 0) == 1 else 8 for b in boxes if b.type == b"mdat"}
    mdats = [(b.off + hdr[b.off], b.off + b.size) for b in boxes if b.type == b"mdat"]
    frags = []
    for i, b in enumerate(boxes):
        if b.type != b"moof":
            continue
        mf = find(b.children, "mfhd")
        if mf is None or mf.size != 16:
            raise Mp4Error("bad mfhd")
        nm = [x for x in boxes[i:] if x.type == b"mdat"]
        if not nm:
            raise Mp4Error("moof without following mdat")
        tracks = []
        for tr in findall(b.children, "traf"):
            tid = g32(find(tr.children, "tfhd").data, 12)
            trex = trexs.get(tid) if isinstance(trexs, dict) else trexs
            tracks.append(parse_traf(data, b, tr, trex, mdats))
        frags.append(Fragment(g32(mf.data, 12), tracks, b, nm[0].off + hdr[nm[0].off], nm[0].off + nm[0].size))
    return boxes, frags


def parse_styp(b):
    d = b.data
    return d[8:12], g32(d, 12), [d[i:i + 4] for i in range(16, len(d), 4)]


def parse_emsg(b):
    "Version 0 emsg box."
    d = b.data
    if d[8] != 0:
        raise Mp4Error("emsg version %d" % d[8])
    p = 12
    e = d.index(b"\0", p)
    scheme = d[p:e].decode("utf-8")
    p = e + 1
    e = d.index(b"\0", p)
    value = d[p:e].decode("utf-8")
    p = e + 1
    ts, delta, dur, eid = struct.unpack_from(">IIII", d, p)
    return {"scheme": scheme, "value": value, "timescale": ts, "delta": delta, "duration": dur, "id": eid,
            "message": d[p + 16:]}


def parse_sidx(b):
    d = b.data
    ver = d[8]
    res = {"version": ver, "ref_id": g32(d, 12), "timescale": g32(d, 16)}
    if ver == 0:
        res["ept"] = g32(d, 20)
        res["first_offset"] = g32(d, 24)
        p = 28
    else:
        res["ept"] = g64(d, 20)
        res["first_offset"] = g64(d, 28)
        p = 36
    n = g16(d, p + 2)
    p += 4
    refs = []
    for _ in range(n):
        a = g32(d, p)
        refs.append({"type": a >> 31, "size": a & 0x7fffffff, "dur": g32(d, p + 4), "sap": g32(d, p + 8)})
        p += 12
    if p != b.size:
        raise Mp4Error("sidx size %d vs %d" % (b.size, p))
    res["refs"] = refs
    return res


# ---------------------------------------------------------------- builders

def make_styp(brands, major="msdh", minor=0):
    return box("styp", major.encode() + u32(minor) + b"".join(b.encode() for b in brands))


def make_sidx(version, timescale, ept, size, dur):
    p = u32(1) + u32(timescale)
    p += (u64(ept) + u64(0)) if version else (u32(ept) + u32(0))
    p += u16(0) + u16(1) + u32(size) + u32(dur) + u32(0x90000000)
    return fullbox("sidx", version, 0, p)


def make_init(ts, tid, handler=b"vide", vers=(0, 0, 0), durations=(1234, 1234, 9876), trex=(1, 0, 0, 0), extra=(),
              mvex_first=False, major="iso6", mvts=1000):
    "A minimal single-track init segment. vers = versions of mvhd, tkhd, mdhd."
    mvv, tkv, mdv = vers

    def hdr(v, timescale, dur, tail):
        if v:
            return u64(3000000000) + u64(3000000001) + u32(timescale) + u64(dur) + tail
        return u32(3000000000) + u32(3000000001) + u32(timescale) + u32(dur) + tail
    matrix = u32(0x10000) + u32(0) * 3 + u32(0x10000) + u32(0) * 3 + u32(0x40000000)
    mvhd = fullbox("mvhd", mvv, 0, hdr(mvv, mvts, durations[0], u32(0x10000) + u16(0x100) + b"\0" * 10 + matrix +
                                       b"\0" * 24 + u32(2)))
    if tkv:
        tk = u64(3000000000) + u64(3000000001) + u32(tid) + u32(0) + u64(durations[1])
    else:
        tk = u32(3000000000) + u32(3000000001) + u32(tid) + u32(0) + u32(durations[1])
    tkhd = fullbox("tkhd", tkv, 7, tk + b"\0" * 8 + u16(0) * 4 + matrix + u32(640 << 16) + u32(360 << 16))
    mdhd = fullbox("mdhd", mdv, 0, hdr(mdv, ts, durations[2], u16(0x55c4) + u16(0)))
    hdlr = fullbox("hdlr", 0, 0, u32(0) + handler + b"\0" * 12 + b"name\0")
    dref = fullbox("dref", 0, 0, u32(1) + fullbox("url ", 0, 1))
    stsd = fullbox("stsd", 0, 0, u32(1) + box("xxxx", b"\0" * 6 + u16(1) + b"cfg" + u32(tid)))
    stbl = box("stbl", stsd + fullbox("stts", 0, 0, u32(0)) + fullbox("stsc", 0, 0, u32(0)) +
               fullbox("stsz", 0, 0, u32(0) * 2) + fullbox("stco", 0, 0, u32(0)))
    minf = box("minf", fullbox("vmhd", 0, 1, b"\0" * 8) + box("dinf", dref) + stbl)
    edts = box("edts", fullbox("elst", 0, 0, u32(1) + u32(0) + s32(0) + u32(0x10000))) if "edts" in extra else b""
    trak = box("trak", tkhd + edts + box("mdia", mdhd + hdlr + minf))
    big = durations[0] >= 2 ** 32
    mehd = fullbox("mehd", int(big), 0, u64(durations[0]) if big else u32(durations[0])) if "mehd" in extra else b""
    mvex = box("mvex", mehd + fullbox("trex", 0, 0, u32(tid) + b"".join(u32(x) for x in trex)))
    pssh = fullbox("pssh", 0, 0, bytes(range(16)) + u32(4) + b"mdhd") if "pssh" in extra else b""
    udta = box("udta", box("name", b"moov trak tkhd")) if "udta" in extra else box("udta") if "udta0" in extra else b""
    moov = box("moov", mvhd + (mvex + trak if mvex_first else trak + mvex) + pssh + udta)
    ftyp = box("ftyp", major.encode() + u32(1) + b"isomdash")
    free = box("free", b"moov") if "free" in extra else b""
    sidx = make_sidx(0, ts, 0, 100, 100) if "sidx" in extra else b""
    return ftyp + free + moov + sidx


def make_fragment(seqno, tid, tfdt, samples, fmt, seed=0):
    """One moof+mdat. samples: list of (dur, flags, cto, data).  fmt: dict of layout options.

    Keys: tfdt_v, tfhd (flag bits), trun (flag bits), trun_v, ntrun, enc, enc_pos, saio_v, extra_traf, extra_moof,
    defdur, defsize, defflags (written in tfhd when the bits are set), mdat_pre, sdi"""
    tfl = fmt.get("tfhd", 0x20000)
    rfl = fmt.get("trun", 0x301) | 1
    tfhd = u32(tid)
    base_at = None
    if tfl & 1:
        base_at = 16
        tfhd += u64(0)
    if tfl & 2:
        tfhd += u32(1)
    if tfl & 8:
        tfhd += u32(samples[0][0] if samples else 0)
    if tfl & 0x10:
        tfhd += u32(len(samples[0][3]) if samples else 0)
    if tfl & 0x20:
        tfhd += u32(fmt.get("defflags", 0x1010000))
    assert base_at is None, "base-data-offset not generated"
    tfhd = fullbox("tfhd", 0, tfl, tfhd)
    tv = fmt.get("tfdt_v", 0)
    tfdtb = fullbox("tfdt", tv, 0, u64(tfdt) if tv else u32(tfdt))
    nr = max(1, min(fmt.get("ntrun", 1), len(samples) or 1))
    parts = [samples[i * len(samples) // nr:(i + 1) * len(samples) // nr] for i in range(nr)]
    truns = []
    for pi, part in enumerate(parts):
        fl = rfl
        if pi > 0 and fmt.get("trun2_no_off"):
            fl &= ~1
        d = u32(len(part))
        if fl & 1:
            d += s32(0)
        if fl & 4:
            d += u32(part[0][1] if part else 0)
        for (dur, flags, cto, sd) in part:
            if fl & 0x100:
                d += u32(dur)
            if fl & 0x200:
                d += u32(len(sd))
            if fl & 0x400:
                d += u32(flags)
            if fl & 0x800:
                d += s32(cto) if fmt.get("trun_v", 0) else u32(cto)
        truns.append(fullbox("trun", fmt.get("trun_v", 0), fl, d))
    # children of traf, in order: list of [kind, bytes]
    ch = [["tfhd", tfhd], ["tfdt", tfdtb]]
    auxdata = b"".join(bytes([(seed + 7 * i) & 0xff] * 8) for i in range(len(samples)))
    enc = []
    if fmt.get("enc"):
        saiz = fullbox("saiz", 0, 0, u8(8) + u32(len(samples)))
        sv = fmt.get("saio_v", 0)
        nsaio = nr if fmt.get("saio_m") else 1      # one offset per track run
        sfl = 1 if fmt.get("saio_f") else 0
        saio = fullbox("saio", sv, sfl, (b"cenc" + u32(0) if sfl else b"") + u32(nsaio) + (u64(0) if sv else u32(0)) * nsaio)
        senc = fullbox("senc", 0, 0, u32(len(samples)) + auxdata)
        if fmt.get("enc") == "uuid":  # auxiliary data in a uuid box
            senc = box("uuid", bytes(range(16)) + u32(0) + u32(len(samples)) + auxdata)
        enc = [["saiz", saiz], ["saio", saio], ["senc", senc]]
        if fmt.get("enc_order"):
            enc = [enc[2], enc[0], enc[1]]
    tr = [["trun", t] for t in truns]
    ch += (enc + tr) if fmt.get("enc_pos") else (tr + enc)
    for x in fmt.get("extra_traf", ()):
        if x == "uuid":
            ch.append(["x", box("uuid", bytes(range(16)) + b"moofmdat")])
        elif x == "sbgp":
            ch.append(["x", fullbox("sbgp", 0, 0, b"roll" + u32(1) + u32(len(samples)) + u32(1))])
        elif x == "free":
            ch.append(["x", box("free", b"\0" * 5)])
        elif x == "udta":
            ch.append(["x", box("udta")])
    pre = b""
    post = b""
    for x in fmt.get("extra_moof", ()):
        if x == "pssh":
            post += fullbox("pssh", 0, 0, bytes(range(16)) + u32(4) + b"tfdt")
        elif x == "free":
            pre += box("free", b"abc")
    mfhd = fullbox("mfhd", 0, 0, u32(seqno))
    traf_size = 8 + sum(len(b) for _, b in ch)
    moof_size = 8 + len(mfhd) + len(pre) + traf_size + len(post)
    mpre = fmt.get("mdat_pre", 0)
    mhdr = 16 if fmt.get("mdat_hdr") == "large" else 8
    off = moof_size + mhdr + mpre
    out = []
    pos_in_moof = 8 + len(mfhd) + len(pre) + 8
    senc_off = None
    p = pos_in_moof
    for kind, b in ch:
        if kind == "senc":
            senc_off = p + len(b) - len(auxdata)
        p += len(b)
    ti = 0
    for kind, b in ch:
        if kind == "trun":
            fl = g32(b, 8) & 0xffffff
            if fl & 1:
                b = b[:16] + s32(off) + b[20:]
            off += sum(len(s[3]) for s in parts[ti])
            ti += 1
        elif kind == "saio":
            offs, o = [], senc_off
            for part in parts[:nsaio]:
                offs.append(o)
                o += 8 * len(part)
            w = u64 if fmt.get("saio_v", 0) else u32
            tail = b"".join(w(x) for x in offs)
            b = b[:-len(tail)] + tail
        out.append(b)
    moof = box("moof", mfhd + pre + box("traf", b"".join(out)) + post)
    assert len(moof) == moof_size
    mdat = box("mdat", bytes([0xEE] * mpre) + b"".join(s[3] for s in samples))
    if mhdr == 16:
        mdat = u32(1) + b"mdat" + u64(len(mdat) + 8) + mdat[8:]
    elif fmt.get("mdat_hdr") == "zero":
        mdat = u32(0) + mdat[4:]
    return moof + mdat
