"""Bit and box utilities: what the writers write is parsed back by an independent parser (vlib.mp4lib) and by the box reader of
the code base; bits and exp-Golomb codes are read back."""
import struct

from vlib.common import *
from vlib import server


class Missing(Exception):
    "A helper does not exist under this name (nothing to check)."


def lib(mod, name):
    server.load()
    import importlib
    try:
        m = importlib.import_module("dashlivesim.dashlib." + mod)
    except ModuleNotFoundError as e:
        if mod in str(e):
            raise Missing(mod)
        raise
    f = getattr(m, name, None)
    if f is None:
        raise Missing("%s.%s" % (mod, name))
    return f


def guarded(f):
    def run(case, stats):
        try:
            f(case, stats)
        except Missing as e:
            stats.label("missing %s" % e)
    return run


# ---- bits
bits = st.integers(1, 33).flatmap(lambda n: st.tuples(st.just("bits"), st.just(n), st.one_of(
    st.integers(0, 2 ** n - 1), st.sampled_from([0, 1, 2 ** n - 1, 2 ** (n - 1)]))))
codes = st.tuples(st.just("ue"), st.just(0), st.one_of(st.integers(0, 20), st.integers(0, 2 ** 16 - 2)))
align = st.tuples(st.just("align"), st.just(0), st.binary(max_size=5).map(lambda b: b.hex()))


@guarded
def bitio(case, stats):
    items = [tuple(x) for x in case["items"]]
    w = lib("bitwriter", "Bitwriter")()
    reader, ue = lib("bitreader", "bitreader"), lib("bitreader", "ue")
    ref = ""   # reference bit string
    plan = []
    for kind, n, v in items:
        if kind == "bits":
            w.add_bits(v, n)
            ref += format(v, "0%db" % n)
            plan.append((kind, n, v))
        elif kind == "ue":
            b = format(v + 1, "b")
            for part, k in ((0, len(b) - 1), (v + 1, len(b))):
                if k:
                    w.add_bits(part, k)
            ref += "0" * (len(b) - 1) + b
            plan.append((kind, n, v))
        else:
            pad = -len(ref) % 8
            if pad:
                w.add_bits(0, pad)
                ref += "0" * pad
                plan.append(("bits", pad, 0))
            data = bytes.fromhex(v)
            w.add_bytes(data)
            for c in data:
                ref += format(c, "08b")
            if data:
                plan.append(("bytes", len(data), data))
        eq(len(w), len(ref) // 8, "writer-length", "%s" % items)
    pad = -len(ref) % 8
    if pad:
        w.add_bits(0, pad)
        ref += "0" * pad
    got = bytes(w.get_bytes())
    want = int(ref, 2).to_bytes(len(ref) // 8, "big") if ref else b""
    check(got == want, "written-bits", "%s: %s, expected %s" % (items, got.hex(), want.hex()))
    if not want:
        return
    r = reader(want)
    pos = 0
    for kind, n, v in plan:
        what = "%s at bit %d of %s" % ((kind, n, v), pos, want.hex())
        if kind == "bits":
            eq(r.get_bits(n), v, "read-bits", what)
            pos += n
        elif kind == "ue":
            eq(ue(r), v, "read-code", what)
            pos += 2 * (v + 1).bit_length() - 1
            stats.label("exp-golomb")
        else:
            eq(bytes(r.step_bytes(n)), v, "read-bytes", what)
            pos += 8 * n
        eq(r.tell_bits(), pos, "bit-position", what)
        eq(r.remaining_bits(), 8 * len(want) - pos, "remaining-bits", what)
    stats.nt(len(plan) > 1)


@st.composite
def bit_cases(draw):
    return {"items": draw(st.lists(st.one_of(bits, bits, codes, align), min_size=1, max_size=12))}


# ---- fragments
U32 = st.one_of(st.integers(0, 2 ** 32 - 1), st.sampled_from([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]))
U64 = st.one_of(st.integers(0, 2 ** 64 - 1), st.sampled_from([0, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]))
S32 = st.one_of(st.just(0), st.integers(-2 ** 31, 2 ** 31 - 1), st.sampled_from([-1, 1, -2 ** 31, 2 ** 31 - 1]))


@st.composite
def frag_cases(draw):
    neg = draw(st.booleans())
    cto = S32 if neg else st.one_of(st.just(0), st.integers(0, 2 ** 31 - 1))
    zero = draw(st.integers(0, 2)) == 0
    return {"seq": draw(U32), "tid": draw(st.integers(1, 2 ** 32 - 1)), "time": draw(U64),
            "samples": [{"size": draw(st.one_of(st.integers(0, 30), st.just(300))), "dur": draw(U32), "sync": draw(st.booleans()),
                         "cto": 0 if zero else draw(cto)} for _ in range(draw(st.integers(1, 6)))]}


def sample_data(i, n):
    return bytes((7 * i + j) % 256 for j in range(n))


@guarded
def fragment(case, stats):
    Sample, moof_f, mdat_f = lib("boxes", "Sample"), lib("boxes", "create_moof"), lib("boxes", "create_mdat")
    t = case["time"]
    sm = []
    for i, s in enumerate(case["samples"]):
        sm.append(Sample(sample_data(i, s["size"]), t, s["dur"], s["sync"], s["cto"]))
        t += s["dur"]
    moof, mdat = moof_f(case["seq"], case["tid"], sm).serialize(), mdat_f(sm).serialize()
    data = moof + mdat
    what = "fragment %s" % case
    boxes, frags = parse_seg(data, None, what)
    eq([b.type for b in boxes], [b"moof", b"mdat"], "boxes", what)
    eq((boxes[0].size, boxes[1].size), (len(moof), len(mdat)), "sizes", what)
    eq(len(frags), 1, "fragments", what)
    f = frags[0]
    eq(f.seqno, case["seq"], "sequence-number", what)
    tr = f.tracks[0]
    eq((tr.track_id, tr.tfdt), (case["tid"], case["time"]), "fragment-header", what)
    want = [(sample_data(i, s["size"]), s["dur"], s["cto"], s["sync"]) for i, s in enumerate(case["samples"])]
    eq([(bytes(x.data), x.dur, x.cto, not x.flags & 0x10000) for x in tr.samples], want, "samples", what)
    for x, s in zip(tr.samples, case["samples"]):
        eq(x.flags, 0x02000000 if s["sync"] else 0x01010000, "sample-flags", what)
    # the reader of the code base
    m = lib("mp4", "mp4")(data)
    eq(m.find(b"moof.mfhd").seqno, case["seq"], "reader-sequence-number", what)
    eq(m.find(b"moof.traf.tfhd").track_id, case["tid"], "reader-track-id", what)
    eq(m.find(b"moof.traf.tfdt").decode_time, case["time"], "reader-decode-time", what)
    trun = m.find(b"moof.traf.trun")
    eq(trun.sample_count, len(want), "reader-sample-count", what)
    eq(trun.data_offset, len(moof) + 8, "reader-data-offset", what)
    eq(trun.total_duration, sum(s["dur"] for s in case["samples"]), "reader-total-duration", what)
    for i, s in enumerate(case["samples"]):
        row = trun.sample_entry(i)
        eq((row["duration"], row["size"], row.get("time_offset", 0)), (s["dur"], s["size"], s["cto"]), "reader-sample", what)
    b = m.find(b"mdat")
    check(bytes(b.raw_data) == mdat, "reader-mdat", what)
    if any(s["cto"] < 0 for s in case["samples"]):
        stats.label("negative offsets")
    stats.nt(len(want) > 1)


# ---- event messages
TEXT = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=12)


@st.composite
def emsg_cases(draw):
    return {"scheme": draw(TEXT), "value": draw(TEXT), "timescale": draw(U32), "delta": draw(U32), "dur": draw(U32), "id": draw(U32),
            "msg": draw(st.text(st.characters(blacklist_categories=("Cs",)), max_size=20)), "after": draw(st.integers(0, 20))}


@guarded
def emsg(case, stats):
    data = lib("emsg", "create_emsg")(scheme_id_uri=case["scheme"], value=case["value"], timescale=case["timescale"],
                                      presentation_time_delta=case["delta"], event_duration=case["dur"], emsg_id=case["id"],
                                      message_data=case["msg"])
    what = "emsg %r" % case
    tail = M.box("free", b"x" * case["after"])
    boxes = parse_boxes(data + tail, what)
    eq([b.type for b in boxes], [b"emsg", b"free"], "boxes", what)
    e = M.parse_emsg(boxes[0])
    eq((e["scheme"], e["value"], e["timescale"], e["delta"], e["duration"], e["id"], bytes(e["message"])),
       (case["scheme"], case["value"], case["timescale"], case["delta"], case["dur"], case["id"], case["msg"].encode()), "fields", what)
    m = lib("mp4", "mp4")(data + tail).find(b"emsg")
    eq((m.timescale, m.presentation_time_delta, m.event_duration, m.id), (case["timescale"], case["delta"], case["dur"], case["id"]),
       "reader-fields", what)
    eq(m.message, case["msg"].encode().hex(), "reader-message", what)
    for got, want in ((m.scheme_id_uri, case["scheme"]), (m.value, case["value"])):
        check(got == want or got.encode("latin-1") == want.encode("utf-8"), "reader-strings", what)
    if any(ord(x) > 127 for x in case["scheme"] + case["value"] + case["msg"]):
        stats.label("not ASCII")
    stats.nt()


# ---- styp / sidx
@st.composite
def index_cases(draw):
    v = draw(st.integers(0, 1))
    return {"v": v, "id": draw(U32), "ts": draw(U32), "ept": draw(U64 if v else U32),
            "refs": [[draw(st.integers(0, 2 ** 31 - 1)), draw(U32), draw(st.integers(0, 1)), draw(st.integers(0, 1)),
                      draw(st.integers(0, 6)), draw(st.integers(0, 2 ** 28 - 1))] for _ in range(draw(st.integers(0, 5)))],
            "major": draw(st.sampled_from(["cmfs", "msdh", "lmsg"])), "minor": draw(U32),
            "brands": draw(st.lists(st.sampled_from(["iso9", "dash", "msix"]), max_size=4)), "styp": draw(st.booleans())}


@guarded
def index(case, stats):
    what = "sidx %s" % case
    s = lib("boxes", "SIDXBox")(case["id"], case["ts"], case["ept"], case["v"])
    for r in case["refs"]:
        s.add_reference(*r)
    data = s.serialize()
    eq(struct.unpack(">I", data[:4])[0], len(data), "sidx-size", what)
    x = M.parse_sidx(parse_boxes(data, what)[0])
    eq(data[8:12], bytes([case["v"], 0, 0, 0]), "sidx-version", what)
    eq((x["ref_id"], [r["sap"] for r in x["refs"]]), (case["id"], [r[3] << 31 | r[4] << 28 | r[5] for r in case["refs"]]), "sidx-words", what)
    eq(data[28 + 8 * case["v"]:32 + 8 * case["v"]], struct.pack(">HH", 0, len(case["refs"])), "sidx-count", what)
    eq((x["timescale"], x["ept"], x["first_offset"]), (case["ts"], case["ept"], 0), "sidx-fields", what)
    eq([(r["type"], r["size"], r["dur"]) for r in x["refs"]], [(r[2], r[0], r[1]) for r in case["refs"]], "sidx-references", what)
    m = lib("mp4", "mp4")(data).find(b"sidx")
    eq((m.reference_track_id, m.timescale, m.first_pres_time, m.first_offset, m.reference_count),
       (case["id"], case["ts"], case["ept"], 0, len(case["refs"])), "reader-sidx", what)
    eq([(r["referenced-type"], r["referenced-size"], r["subsegment-duration"], r["starts-with-sap"], r["sap-type"],
         r["sap-delta-time"]) for r in m.references],
       [(b"sidx" if r[2] else b"moof", r[0], r[1], r[3], r[4], r[5]) for r in case["refs"]], "reader-sidx-references", what)
    data = lib("boxes", "FTYPBox")(case["major"].encode(), case["minor"], [b.encode() for b in case["brands"]], case["styp"]).serialize()
    b = parse_boxes(data, what)
    eq([x.type for x in b], [b"styp" if case["styp"] else b"ftyp"], "type-box", what)
    m = lib("mp4", "mp4")(data).children[0]
    eq((m.major_brand, m.minor_version, m.brands), (case["major"].encode(), case["minor"], [x.encode() for x in case["brands"]]),
       "reader-brands", what)
    stats.nt(len(case["refs"]) > 0)


# ---- init headers
LANG = st.one_of(st.sampled_from(["und", "eng", "swe"]), st.text("abcdefghijklmnopqrstuvwxyz", min_size=3, max_size=3),
                 st.sampled_from(["", "en", "english", "EN1", "sv-"]))


@st.composite
def init_cases(draw):
    c = {"kind": draw(st.sampled_from(["h264", "hevc", "mp4a", "ac3", "mp4s"])), "tid": draw(st.integers(1, 2 ** 31)),
         "ts": draw(st.sampled_from([1, 1000, 90000, 48000, 10000000])), "dur": draw(st.integers(0, 10000)), "lang": draw(LANG)}
    if c["kind"] in ("h264", "hevc"):
        c["w"], c["h"] = draw(st.integers(1, 8192)), draw(st.integers(1, 8192))
        for k in ("vps", "sps", "pps"):
            c[k] = draw(st.binary(min_size=1, max_size=300)).hex()
        c["prof"] = [draw(st.integers(0, 255)) for _ in range(3)]
        c["hvcc"] = {"general_profile_space": draw(st.integers(0, 3)), "general_tier_flag": draw(st.integers(0, 1)),
                     "general_profile_idc": draw(st.integers(0, 31)),
                     "general_profile_compatibility_flags": draw(st.integers(0, 2 ** 32 - 1)),
                     "general_constraint_indicator_flags": draw(st.integers(0, 2 ** 48 - 1)),
                     "general_level_idc": draw(st.integers(0, 255)), "min_spatial_segmentation_idc": draw(st.integers(0, 4095)),
                     "parallelism_type": draw(st.integers(0, 3)), "chroma_format_idc": draw(st.integers(0, 3)),
                     "bit_depth_luma_minus8": draw(st.integers(0, 7)), "bit_depth_chroma_minus8": draw(st.integers(0, 7))}
    else:
        c["ch"] = draw(st.integers(1, 16))
        c["bits"] = draw(st.sampled_from([8, 16, 24]))
        c["rate"] = draw(st.sampled_from([8000, 44100, 48000, 65535]))
        c["cfg"] = draw(st.binary(min_size=1, max_size=100)).hex()
        c["codec"] = draw(st.sampled_from(["ac-3", "ec-3", "ec+3"]))
        c["sub"] = [[draw(st.integers(0, 2 ** k - 1)) for k in (2, 5, 1, 3, 3, 1)] + [draw(st.integers(0, 15)), draw(st.integers(0, 511))]
                    for _ in range(draw(st.integers(1, 3)))]
        c["brate"] = draw(st.integers(0, 31))
    return c


def bitstring(fields):
    s = "".join(format(v, "0%db" % n) for v, n in fields)
    s += "0" * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, "big")


@guarded
def init(case, stats):
    k = case["kind"]
    what = "%s init %s" % (k, case)
    media = (case["tid"], case["ts"], case["dur"])
    lang = "und"
    if k == "h264":
        info = lib("boxes", "H264Info")(*media, case["w"], case["h"], *case["prof"], bytes.fromhex(case["sps"]), bytes.fromhex(case["pps"]))
    elif k == "hevc":
        hv = lib("boxes", "HVCCData")()
        for a, v in case["hvcc"].items():
            setattr(hv, a, v)
        info = lib("boxes", "HEVCInfo")(*media, case["w"], case["h"], bytes.fromhex(case["vps"]), bytes.fromhex(case["sps"]),
                                        bytes.fromhex(case["pps"]), hv)
    elif k == "mp4a":
        esds = lib("boxes", "ESDSBox")(bytes.fromhex(case["cfg"])).serialize()
        info = lib("boxes", "MP4AInfo")(*media, case["ch"], case["bits"], case["rate"], esds, bytes.fromhex(case["cfg"]), case["lang"])
        lang = case["lang"]
    elif k == "ac3":
        s = case["sub"][0]
        if case["codec"] == "ac-3":
            spec = M.box("dac3", bitstring([(s[0], 2), (s[1], 5), (s[3], 3), (s[4], 3), (s[5], 1), (case["brate"], 5), (0, 5)]))
        else:
            fields = [(case["brate"], 13), (len(case["sub"]) - 1, 3)]
            for s in case["sub"]:
                fields += [(s[0], 2), (s[1], 5), (0, 1), (s[2], 1), (s[3], 3), (s[4], 3), (s[5], 1), (0, 3), (s[6], 4)]
                fields += [(s[7], 9)] if s[6] else [(0, 1)]
            spec = M.box("dec3", bitstring(fields))
        info = lib("boxes", "AC3Info")(case["codec"], *media, case["ch"], case["bits"], case["rate"], spec, case["lang"])
        lang = case["lang"]
    else:
        info = lib("boxes", "MP4SInfo")(*media, case["lang"])
        lang = case["lang"]
    data = lib("boxes", "create_ftyp")().serialize() + lib("boxes", "create_moov_" + k)(info).serialize()
    want_lang = lang if len(lang) == 3 and all("a" <= x <= "z" for x in lang) else "und"
    top = parse_boxes(data, what)
    eq([b.type for b in top], [b"ftyp", b"moov"], "boxes", what)
    check_tree(data[top[1].off:top[1].off + top[1].size], b"moov", what)
    fixed_fields(data[top[1].off:top[1].off + top[1].size], k, case, what)
    ini = M.parse_init(data)
    m = lib("mp4", "mp4")(data)
    mvhd, tkhd, mdhd, hdlr, trex = (m.find(x) for x in (b"moov.mvhd", b"moov.trak.tkhd", b"moov.trak.mdia.mdhd",
                                                        b"moov.trak.mdia.hdlr", b"moov.mvex.trex"))
    check(all((mvhd, tkhd, mdhd, hdlr, trex)), "headers-missing", what)
    mdur = case["dur"] * 90000 // case["ts"]
    eq((mvhd.timescale, tkhd.track_id, mdhd.timescale, mdhd.duration, trex.track_id),
       (90000, case["tid"], case["ts"], case["dur"], case["tid"]), "headers", what)
    check(abs(mvhd.duration - mdur) <= 1 and abs(tkhd.duration - mdur) <= 1, "movie-duration", "%s: %d" % (what, mvhd.duration))
    eq(mdhd.language, want_lang, "language", what)
    eq(hdlr.handler_type, {"h264": "vide", "hevc": "vide", "mp4a": "soun", "ac3": "soun", "mp4s": "text"}[k], "handler", what)
    eq((ini["tracks"][0]["track_id"], ini["tracks"][0]["mdhd"]["timescale"], ini["trex"][0].track_id),
       (case["tid"], case["ts"], case["tid"]), "parsed-headers", what)
    stsd = m.find(b"moov.trak.mdia.minf.stbl.stsd")
    eq(stsd.entry_count, 1, "sample-entries", what)
    entry = stsd.children[0]
    if k in ("h264", "hevc"):
        eq((tkhd.width, tkhd.height, entry.width, entry.height), (case["w"], case["h"]) * 2, "dimensions", what)
        eq(entry.type, b"avc1" if k == "h264" else b"hev1", "sample-entry", what)
    if k == "h264":
        c = entry.find(b"avcC")
        eq((c.profile_ind, c.profile_compat, c.level), tuple(case["prof"]), "avc-profile", what)
        eq((c.sps, c.pps), (case["sps"], case["pps"]), "avc-parameter-sets", what)
    elif k == "hevc":
        c = entry.find(b"hvcC").c
        h = case["hvcc"]
        eq((c["general_profile_space"], c["general_tier_flag"], c["general_profile_idc"],
            int(c["general_profile_compatibility_flags"], 16), int(c["general_constraint_indicator_flags"], 16), c["general_level_idc"],
            c["min_spatial_segmentation_idc"], c["parallelismType"], c["chromaFormat"], c["bitDepthLumaMinus8"],
            c["bitDepthChromaMinus8"]), tuple(h.values()), "hevc-configuration", what)
        eq([(a["NAL_unit_type"], [x["NAL_unit"] for x in a["NAL_units"]]) for a in c["array"]],
           [(32, [case["vps"]]), (33, [case["sps"]]), (34, [case["pps"]])], "hevc-parameter-sets", what)
    elif k in ("mp4a", "ac3"):
        eq((entry.channels, entry.sample_size, entry.sample_rate), (case["ch"], case["bits"], case["rate"]), "audio-entry", what)
        if k == "mp4a":
            eq(entry.find(b"esds").cfg, "0x" + case["cfg"], "decoder-config", what)
        elif case["codec"] == "ac-3":
            d = entry.find(b"dac3")
            s = case["sub"][0]
            eq((d.fscod, d.bsid, d.bsmod, d.acmod, d.lfeon, d.bit_rate_code), (s[0], s[1], s[3], s[4], s[5], case["brate"]), "dac3", what)
        else:
            d = entry.find(b"dec3")
            eq((d.data_rate, [tuple(x) for x in d.ind_sub_streams]),
               (case["brate"], [tuple(s[:7]) + (s[7] if s[6] else 0,) for s in case["sub"]]), "dec3", what)
    else:
        eq(entry.type, b"wvtt", "sample-entry", what)
    stats.label(k)
    stats.nt()


PRE = {b"stsd": 8, b"dref": 8, b"avc1": 78, b"hev1": 78, b"mp4a": 28, b"ac-3": 28, b"ec-3": 28, b"wvtt": 8}
TREE = (b"moov", b"trak", b"mdia", b"minf", b"dinf", b"stbl", b"mvex") + tuple(PRE)


def check_tree(data, typ, what):
    "Declared sizes tile every container exactly."
    pos = 8 + PRE.get(typ, 0)
    while pos < len(data):
        check(pos + 8 <= len(data), "box-sizes", "%s: rest of %s" % (what, typ))
        size, t = struct.unpack_from(">I4s", data, pos)
        check(8 <= size <= len(data) - pos, "box-sizes", "%s: %s in %s" % (what, t, typ))
        if t in TREE:
            check_tree(data[pos:pos + size], t, what)
        pos += size
    eq(pos, len(data), "box-sizes", what)



UNITY = struct.pack(">9I", 0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000)
SCHEMES = {"h264": (b"vide", b"vmhd", 0), "hevc": (b"vide", b"vmhd", 0), "mp4a": (b"soun", b"smhd", 0x100), "ac3": (b"soun", b"smhd", 0x100),
           "mp4s": (b"text", b"nmhd", 0)}


def leaves(data, typ, path=b""):
    "(path, payload) of every box; the payload of a container is what precedes its boxes."
    path = path + b"." + typ if path else typ
    pos = 8 + PRE.get(typ, 0) if typ in TREE else len(data)
    yield path, data[8:pos]
    while pos < len(data):
        size, t = struct.unpack_from(">I4s", data, pos)
        yield from leaves(data[pos:pos + size], t, path)
        pos += size


def fixed_fields(moov, k, case, what):
    "What the standard fixes, and what says that there are no samples, in the headers."
    got = dict(leaves(moov, b"moov"))
    handler, media_header, volume = SCHEMES[k]
    mvhd = got[b"moov.mvhd"]
    eq((len(mvhd), mvhd[:4], mvhd[20:96]), (100, bytes(4), struct.pack(">IH10x", 0x10000, 0x100) + UNITY + bytes(24)), "movie-header", what)
    check(struct.unpack(">I", mvhd[96:])[0] > 0, "next-track-id", what)
    tkhd = got[b"moov.trak.tkhd"]
    size = (case["w"] << 16, case["h"] << 16) if "w" in case else (0, 0)
    eq((len(tkhd), tkhd[:4], tkhd[16:20], tkhd[24:]),
       (84, struct.pack(">I", 7), bytes(4), struct.pack(">12xHH", volume, 0) + UNITY + struct.pack(">II", *size)), "track-header", what)
    mdhd = got[b"moov.trak.mdia.mdhd"]
    eq((len(mdhd), mdhd[:4], mdhd[22:]), (24, bytes(4), bytes(2)), "media-header", what)
    hdlr = got[b"moov.trak.mdia.hdlr"]
    eq((hdlr[:24], hdlr[24:].count(0), hdlr[-1]), (bytes(8) + handler + bytes(12), 1, 0), "handler-box", what)
    minf = b"moov.trak.mdia.minf."
    eq(got.get(minf + media_header), bytes({b"vmhd": 12, b"smhd": 8, b"nmhd": 4}[media_header]), "media-header-box", what)
    eq((got.get(minf + b"dinf.dref"), got.get(minf + b"dinf.dref.url ")), (struct.pack(">II", 0, 1), struct.pack(">I", 1)),
       "data-reference", what)
    for t, n in ((b"stts", 8), (b"stsc", 8), (b"stsz", 12), (b"stco", 8)):
        eq(got.get(minf + b"stbl." + t), bytes(n), "empty-sample-table", what)
    eq(got[minf + b"stbl.stsd"], struct.pack(">II", 0, 1), "sample-descriptions", what)
    eq(got[b"moov.mvex.trex"], struct.pack(">IIIIII", 0, case["tid"], 1, 0, 0, 0), "fragment-defaults", what)
    entry = next(p for p in got if p.startswith(minf + b"stbl.stsd.") and p.count(b".") == 6)
    pre = got[entry]
    eq(pre[:8], struct.pack(">6xH", 1), "data-reference-index", what)
    if "w" in case:
        eq(pre[8:], struct.pack(">16xHHIIIH32xHh", case["w"], case["h"], 0x480000, 0x480000, 0, 1, 0x18, -1), "visual-entry", what)
    elif k in ("mp4a", "ac3"):
        eq(pre[8:], struct.pack(">8xHHIHH", case["ch"], case["bits"], 0, case["rate"], 0), "audio-entry", what)
    if k == "h264":
        sps, pps = bytes.fromhex(case["sps"]), bytes.fromhex(case["pps"])
        eq(got[entry + b".avcC"], struct.pack(">BBBBBBH", 1, *case["prof"], 0xff, 0xe1, len(sps)) + sps +
           struct.pack(">BH", 1, len(pps)) + pps, "avc-configuration", what)
    elif k == "hevc":
        h = list(case["hvcc"].values())
        sets = [bytes.fromhex(case[x]) for x in ("vps", "sps", "pps")]
        head = bitstring([(1, 8), (h[0], 2), (h[1], 1), (h[2], 5), (h[3], 32), (h[4], 48), (h[5], 8), (15, 4), (h[6], 12), (63, 6), (h[7], 2),
                          (63, 6), (h[8], 2), (31, 5), (h[9], 3), (31, 5), (h[10], 3), (0, 16), (0, 2), (1, 3), (1, 1), (3, 2), (3, 8)])
        eq(got[entry + b".hvcC"], head + b"".join(struct.pack(">BHH", n, 1, len(x)) + x for n, x in zip((32, 33, 34), sets)),
           "hevc-configuration", what)
    elif k == "mp4a":
        cfg = bytes.fromhex(case["cfg"])
        n = len(cfg)
        eq(got[entry + b".esds"], struct.pack(">IBBHBBBBB3xIIBB", 0, 3, 23 + n, 1, 0, 4, 15 + n, 0x40, 0x15, 0, 0, 5, n) + cfg + b"\x06\x01\x02",
           "elementary-stream-descriptor", what)
    elif k == "mp4s":
        eq(got[entry + b".vttC"], b"WEBVTT", "text-configuration", what)

# ---- boxes for encryption, cues, placeholders
U8, U16 = st.integers(0, 255), st.integers(0, 65535)
B16 = st.binary(min_size=16, max_size=16).map(lambda b: b.hex())


@st.composite
def aux_cases(draw):
    few = lambda s, n=4: draw(st.lists(s, max_size=n))
    sub = st.tuples(U16, U32).map(list)
    return {"default": draw(U8), "sizes": few(U8), "offset": draw(U32), "groups": few(st.tuples(U32, U32).map(list)),
            "gtype": draw(st.sampled_from(["seig", "roll", "rap "])),
            "descr": few(st.tuples(st.booleans(), st.integers(0, 16), B16).map(list)),
            "senc": few(st.tuples(U64, st.one_of(st.just([]), st.lists(sub, max_size=3))).map(list)),
            "cues": few(TEXT, 3), "refs": draw(st.integers(0, 20)), "seq": draw(U32), "tid": draw(st.integers(1, 2 ** 31)),
            "samples": draw(st.lists(st.integers(0, 40), min_size=1, max_size=4)), "plain": draw(st.booleans())}


def written(b, typ, what):
    "One box, whose size is its length."
    data = b.serialize()
    eq(b.size(), len(data), "size-of-" + typ, what)
    boxes = parse_boxes(data, what)
    eq([x.type for x in boxes], [typ.encode()], "boxes", what)
    return data, lib("mp4", "mp4")(data).children[0]


@guarded
def aux(case, stats):
    what = "boxes %s" % case
    b = lib("boxes", "SAIZBox")(case["default"])
    for n in case["sizes"]:
        b.add_sample(n)
    data, r = written(b, "saiz", what)
    eq((r.default_sample_info_size, r.sample_count), (0 if case["sizes"] else case["default"], len(case["sizes"])), "saiz", what)
    eq([r.sample_info_size(i) for i in range(len(case["sizes"]))], case["sizes"], "saiz-sizes", what)
    eq(data[12:], bytes([0 if case["sizes"] else case["default"]]) + M.u32(len(case["sizes"])) + bytes(case["sizes"]), "saiz-bytes", what)
    data, r = written(lib("boxes", "SAIOBox")(case["offset"]), "saio", what)
    eq((r.entry_count, r.entry_offset(0), data[12:]), (1, case["offset"], M.u32(1) + M.u32(case["offset"])), "saio", what)
    b = lib("boxes", "SBGPBox")(struct.unpack(">I", case["gtype"].encode())[0])
    for g in case["groups"]:
        b.add_group(*g)
    data, r = written(b, "sbgp", what)
    eq((bytes(r.grouping_type), r.entries), (case["gtype"].encode(), len(case["groups"])), "sbgp", what)
    eq([r.group_entry(i) for i in range(len(case["groups"]))], [tuple(g) for g in case["groups"]], "sbgp-groups", what)
    b = lib("boxes", "SGPDBox")(struct.unpack(">I", case["gtype"].encode())[0])
    for enc, n, kid in case["descr"]:
        b.add_group(enc, n, bytes.fromhex(kid))
    data, r = written(b, "sgpd", what)
    eq((bytes(r.grouping_type), r.entries), (case["gtype"].encode(), len(case["descr"])), "sgpd", what)
    eq([tuple(r.entry(i)) for i in range(len(case["descr"]))], [(int(e), n, bytes.fromhex(k)) for e, n, k in case["descr"]],
       "sgpd-entries", what)
    # sample encryption
    Sub_ = lib("boxes", "SENCSubsample")
    b = lib("boxes", "SENCBox")(8)
    sub = not case["plain"] and any(s for _, s in case["senc"])
    ref = M.u32(2 if sub else 0) + M.u32(len(case["senc"]))
    for iv, subs in case["senc"]:
        b.add_sample(iv, [Sub_(*x) for x in subs] if sub else [])
        ref += M.u64(iv)
        if sub:
            ref += M.u16(len(subs)) + b"".join(M.u16(x) + M.u32(y) for x, y in subs)
    data, r = written(b, "senc", what)
    eq(data[8:].hex(), ref.hex(), "senc-bytes", what)
    eq(r.sample_count, len(case["senc"]), "senc-count", what)
    if not sub:
        eq([int(x, 16) for x in r.samples], [iv for iv, _ in case["senc"]], "senc-vectors", what)
    # cues and other small boxes
    payl, vttc = lib("boxes", "PAYLBox"), lib("boxes", "VTTCBox")
    data = b""
    for t in case["cues"]:
        cue = vttc([])
        cue.add_box(payl(t))
        eq(cue.size(), len(cue.serialize()), "cue-size", what)
        data += cue.serialize()
    eq(lib("boxes", "VTTEBox")().serialize(), M.box("vtte"), "empty-cue", what)
    if data:
        data += M.box("vtte")
        m = lib("mp4", "mp4")(data)
        eq([bytes(x.cue_text) for x in m.find_all(b"vttc.payl")], [t.encode() for t in case["cues"]], "cues", what)
        eq([x.type for x in m.children], [b"vttc"] * len(case["cues"]) + [b"vtte"], "cue-boxes", what)
        cont = lib("boxes", "BoxSequence")(*[vttc([payl(t)]) for t in case["cues"]])
        eq(cont.size(), len(cont.serialize()), "sequence-size", what)
    data, r = written(lib("boxes", "create_empty_sidx")(case["tid"], 1000, case["refs"]), "sidx", what)
    eq((r.reference_track_id, r.timescale, r.reference_count, len(data)), (case["tid"], 1000, case["refs"], 40 + 12 * case["refs"]),
       "placeholder", what)
    written(lib("boxes", "create_styp")(), "styp", what)
    eq(lib("boxes", "PASPBox")().serialize(), M.box("pasp", M.u32(1) + M.u32(1)), "pixel-aspect", what)
    mdat = lib("boxes", "MDATBox")()
    Place = lib("boxes", "DataPlaceholder")
    for n in case["samples"]:
        mdat.add_data(Place(n))
    eq(mdat.size(), 8 + sum(case["samples"]), "placeholder-size", what)
    # a fragment with encryption
    Sample = lib("boxes", "Sample")
    aux_info = [type("Aux", (), {"iv": 1000 + i, "subsamples": None if case["plain"] else [Sub_(n // 2, n - n // 2)]})
                for i, n in enumerate(case["samples"])]
    encryptor = type("Encryptor", (), {"encrypt": lambda self, samples: aux_info})()
    samples = [Sample(sample_data(i, n), 77, 5) for i, n in enumerate(case["samples"])]
    moof = lib("boxes", "create_moof")(case["seq"], case["tid"], samples, encryptor)
    data = moof.serialize()
    eq(moof.size(), len(data), "fragment-size", what)
    data += lib("boxes", "create_mdat")(samples).serialize()
    boxes, frags = parse_seg(data, None, what)
    eq([bytes(x.data) for x in frags[0].tracks[0].samples], [sample_data(i, n) for i, n in enumerate(case["samples"])], "samples", what)
    m = lib("mp4", "mp4")(data)
    senc, saio = m.find(b"moof.traf.senc"), m.find(b"moof.traf.saio")
    eq((saio.entry_count, saio.entry_offset(0)), (1, senc.offset + 16), "auxiliary-offset", what)
    eq(senc.sample_count, len(samples), "auxiliary-count", what)
    stats.nt(bool(case["sizes"] or case["groups"] or case["descr"] or case["senc"]))


# ---- readers: what the standard lays down is what is read
def full(t, v, flags, payload):
    return M.fullbox(t, v, flags, payload)


def one(data):
    "The reader's first box; what follows must not be looked at."
    return lib("mp4", "mp4")(data + M.box("free", b"\xa5" * 40)).children[0]


@st.composite
def reader_cases(draw):
    few = lambda s, lo=0, n=4: draw(st.lists(s, min_size=lo, max_size=n))
    v = draw(st.integers(0, 1))
    T = U64 if v else U32
    return {"v": v, "flag": draw(st.integers(0, 1)), "u8": draw(U8), "a": draw(U32), "b": draw(U32), "c": draw(U32), "t": [draw(T) for _ in range(3)],
            "off": draw(U64), "list": few(U8), "offs": few(T, 1), "pairs": few(st.tuples(U32, U32).map(list)), "kid": draw(B16),
            "kids": few(B16, 0, 3), "descr": few(st.tuples(st.booleans(), st.integers(0, 16), B16).map(list)),
            "tfhd": draw(st.integers(0, 31)), "trun": draw(st.integers(0, 31)), "cto": few(st.tuples(st.integers(0, 100), st.integers(0, 1000),
                                                                              st.integers(-2000 if v else 0, 2000)).map(list), 1, 6),
            "default": draw(st.integers(0, 1000)), "runs": few(st.tuples(st.integers(1, 5), st.integers(0, 2000)).map(list), 1),
            "coff": few(st.tuples(st.integers(1, 5), S32 if v else st.integers(0, 2 ** 31 - 1)).map(list), 1), "chunks": few(st.integers(1, 4), 1, 6),
            "same": draw(st.sampled_from([0, 0, 7])), "text": draw(TEXT), "text2": draw(TEXT), "cfg": draw(st.integers(0, 400)),
            "lens": [draw(st.integers(0, 3)) for _ in range(3)], "ra": few(st.tuples(st.integers(0, 2), st.integers(1, 500)).map(list), 1, 6)}


def numbers(n, size):
    return n.to_bytes(size, "big")


@guarded
def readers(case, stats):
    c, v, what = case, case["v"], "reader %s" % case
    aux_type = M.u32(c["a"]) + M.u32(c["b"]) if c["flag"] else b""
    T = M.u64 if v else M.u32
    r = one(full("saiz", 0, c["flag"], aux_type + bytes([0 if c["list"] else c["u8"]]) + M.u32(len(c["list"])) + bytes(c["list"])))
    eq((r.default_sample_info_size, r.sample_count, [r.sample_info_size(i) for i in range(len(c["list"]))]),
       (0 if c["list"] else c["u8"], len(c["list"]), c["list"]), "saiz", what)
    r = one(full("saio", v, c["flag"], aux_type + M.u32(len(c["offs"])) + b"".join(T(x) for x in c["offs"])))
    eq((r.entry_count, [r.entry_offset(i) for i in range(len(c["offs"]))]), (len(c["offs"]), c["offs"]), "saio", what)
    r = one(full("sbgp", v, 0, b"seig" + (M.u32(c["a"]) if v else b"") + M.u32(len(c["pairs"])) +
                 b"".join(M.u32(x) + M.u32(y) for x, y in c["pairs"])))
    eq((bytes(r.grouping_type), r.entries, [list(r.group_entry(i)) for i in range(len(c["pairs"]))]),
       (b"seig", len(c["pairs"]), c["pairs"]), "sbgp", what)
    r = one(full("sgpd", v, 0, b"seig" + (M.u32(20) if v else b"") + M.u32(len(c["descr"])) +
                 b"".join(bytes([0, 0, e, n]) + bytes.fromhex(k) for e, n, k in c["descr"])))
    eq((bytes(r.grouping_type), r.entries, [tuple(r.entry(i)) for i in range(len(c["descr"]))]),
       (b"seig", len(c["descr"]), [(int(e), n, bytes.fromhex(k)) for e, n, k in c["descr"]]), "sgpd", what)
    r = one(full("tenc", 0, 0, bytes([0, 0, c["flag"], c["u8"] % 17]) + bytes.fromhex(c["kid"])))
    eq((r.is_encrypted, r.iv_size, bytes(r.key_id)), (c["flag"], c["u8"] % 17, bytes.fromhex(c["kid"])), "tenc", what)
    r = one(full("pssh", v, 0, bytes.fromhex(c["kid"]) + (M.u32(len(c["kids"])) + b"".join(map(bytes.fromhex, c["kids"])) if v else b"") +
                 M.u32(len(c["list"])) + bytes(c["list"])))
    eq((r.system_id, r.kids, r.data_size), (c["kid"], c["kids"] if v else [], len(c["list"])), "pssh", what)
    # headers
    t = c["t"]
    r = one(full("mvhd", v, 0, T(t[0]) + T(t[1]) + M.u32(c["a"]) + T(t[2]) + bytes(80)))
    eq((r.creation_time, r.modification_time, r.timescale, r.duration), (t[0], t[1], c["a"], t[2]), "mvhd", what)
    r = one(full("tkhd", v, 7, T(t[0]) + T(t[1]) + M.u32(c["a"]) + M.u32(0) + T(t[2]) + bytes(52) + M.u32(c["b"]) + M.u32(c["c"])))
    eq((r.creation_time, r.modification_time, r.track_id, r.duration, r.width, r.height),
       (t[0], t[1], c["a"], t[2], c["b"] >> 16, c["c"] >> 16), "tkhd", what)
    r = one(full("mdhd", v, 0, T(t[0]) + T(t[1]) + M.u32(c["a"]) + T(t[2]) + M.u16(("swe".encode()[0] - 96) << 10 | 23 << 5 | 5) + M.u16(0)))
    eq((r.creation_time, r.modification_time, r.timescale, r.duration, r.language), (t[0], t[1], c["a"], t[2], "swe"), "mdhd", what)
    eq(one(full("tfdt", v, 0, T(t[0]))).decode_time, t[0], "tfdt", what)
    r = one(full("trex", 0, 0, b"".join(M.u32(x) for x in (c["a"], c["b"], c["c"], c["a"] ^ 5, c["b"] ^ 3))))
    eq((r.track_id, r.default_sample_description_index, r.default_sample_duration, r.default_sample_size, r.default_sample_flags),
       (c["a"], c["b"], c["c"], c["a"] ^ 5, c["b"] ^ 3), "trex", what)
    eq(one(full("mfro", 0, 0, M.u32(c["a"]))).mfra_size, c["a"], "mfro", what)
    # fragment header with every choice of fields
    flags = [f for k, f in enumerate((1, 2, 8, 16, 32)) if c["tfhd"] >> k & 1]
    vals = {1: c["off"], 2: c["a"], 8: c["b"], 16: c["c"], 32: c["a"] ^ c["b"]}
    r = one(full("tfhd", 0, sum(flags), M.u32(9) + b"".join(M.u64(vals[f]) if f == 1 else M.u32(vals[f]) for f in flags)))
    eq((r.track_id, r.base_data_offset, r.sample_description_index, r.default_sample_duration, r.default_sample_size,
        r.default_sample_flags), (9,) + tuple(vals[f] if f in flags else 0 for f in (1, 2, 8, 16, 32)), "tfhd", what)
    # track run with every choice of fields
    cols = [f for k, f in enumerate((0x100, 0x200, 0x400, 0x800)) if c["trun"] >> k & 1]
    first = 0x400 not in cols and c["flag"]
    rows = [{0x100: d, 0x200: s, 0x400: 0x10000 * (s % 2), 0x800: o} for s, d, o in c["cto"]]
    run = full("trun", v, sum(cols) | (1 if c["trun"] & 16 else 0) | (4 if first else 0),
               M.u32(len(rows)) + (M.s32(-5) if c["trun"] & 16 else b"") + (M.u32(0x02000000) if first else b"") +
               b"".join(b"".join(M.s32(x[f]) for f in cols) for x in rows))
    moof = M.box("moof", full("mfhd", 0, 0, M.u32(c["c"])) + M.box("traf", full("tfhd", 0, 8, M.u32(9) + M.u32(c["default"])) + run))
    m = lib("mp4", "mp4")(moof + M.box("mdat"))
    r = m.find(b"moof.traf.trun")
    durs = [x[0x100] if 0x100 in cols else c["default"] for x in rows]
    eq((r.sample_count, r.data_offset, r.first_sample_flags, r.total_duration),
       (len(rows), -5 if c["trun"] & 16 else 0, 0x02000000 if first else 0, sum(durs)), "trun", what)
    for i, x in enumerate(rows):
        e = r.sample_entry(i)
        eq({k: int(e[k], 16) if k == "flags" else e[k] for k in e},
           {{0x100: "duration", 0x200: "size", 0x400: "flags", 0x800: "time_offset"}[f]: x[f] for f in cols}, "trun-sample", what)
    at, spans = 0, []
    for x, d in zip(rows, durs):
        o = x[0x800] if 0x800 in cols else 0
        spans.append((at + o, at + o + d))
        at += d
    eq(tuple(r.get_durations(c["default"])), (at, min(x for x, _ in spans), max(y for _, y in spans)), "presentation-range", what)
    eq(m.find(b"moof").get_mdat().offset, len(moof), "media-data-of-the-fragment", what)
    h = m.find(b"moof.mfhd")
    eq((h.seqno, h.get_track_sample_count(9), h.get_track_sample_count(8)), (c["c"], len(rows), 0), "sample-count-of-a-track", what)
    check(abs(h.get_track_duration(9, 90000) - at / 90000) < 1e-9, "duration-of-a-track", what)
    # codec configuration: every bit its own meaning
    bits = [(c["a"] >> 3 & 3, 2), (c["flag"], 1), (c["u8"] & 31, 5), (c["a"], 32), (c["off"] & 2 ** 48 - 1, 48), (c["u8"], 8), (15, 4), (c["b"] & 4095, 12),
            (63, 6), (c["b"] >> 12 & 3, 2), (63, 6), (c["b"] >> 14 & 3, 2), (31, 5), (c["b"] >> 16 & 7, 3), (31, 5), (c["b"] >> 19 & 7, 3),
            (c["c"] & 65535, 16), (c["c"] >> 16 & 3, 2), (c["c"] >> 18 & 7, 3), (c["c"] >> 21 & 1, 1), (c["c"] >> 22 & 3, 2)]
    sets = [[(n, 32 + n % 8, [bytes.fromhex(k)] * (n % 3)) for _e, n, k in c["descr"]], [e for e, _n, _k in c["descr"]]]
    r = one(M.box("hvcC", b"\x01" + bitstring(bits) + bytes([len(sets[0])]) + b"".join(
        bytes([e << 7 | t]) + M.u16(len(u)) + b"".join(M.u16(len(x)) + x for x in u) for (_n, t, u), e in zip(*sets)))).c
    eq((r["general_profile_space"], r["general_tier_flag"], r["general_profile_idc"], int(r["general_profile_compatibility_flags"], 16),
        int(r["general_constraint_indicator_flags"], 16), r["general_level_idc"], r["min_spatial_segmentation_idc"], r["parallelismType"],
        r["chromaFormat"], r["bitDepthLumaMinus8"], r["bitDepthChromaMinus8"], r["avgFrameRate"], r["constantFrameRate"],
        r["numTemporalLayers"], r["temporalIdNested"], r["lengthSizeMinusOne"], r["configuration_version"], r["num_arrays"]),
       tuple(x for i, (x, _n) in enumerate(bits) if i not in (6, 8, 10, 12, 14)) + (1, len(sets[0])), "hvcC", what)
    eq([(a["array_completeness"], a["NAL_unit_type"], [x["NAL_unit"] for x in a["NAL_units"]]) for a in r["array"]],
       [(int(e), t, [x.hex() for x in u]) for (_n, t, u), e in zip(*sets)], "hvcC-arrays", what)
    r = one(full("schm", 0, 0, M.u32(0x63656e63) + M.u32(c["a"])))
    eq((bytes(r.type), r.major_version, r.minor_version), (b"cenc", c["a"] >> 16, c["a"] & 65535), "schm", what)
    # sample tables
    r = one(full("stts", 0, 0, M.u32(len(c["runs"])) + b"".join(M.u32(n) + M.u32(d) for n, d in c["runs"])))
    at, n = 0, 1
    for count, d in c["runs"]:
        for _ in range(count):
            eq(tuple(r.sample_time_and_duration(n)), (at, d), "time-of-sample", what)
            at, n = at + d, n + 1
    r = one(full("ctts", v, 0, M.u32(len(c["coff"])) + b"".join(M.u32(n) + M.s32(d) for n, d in c["coff"])))
    n = 1
    for count, d in c["coff"]:
        for _ in range(count):
            eq(r.sample_offset(n), d, "composition-offset", what)
            n += 1
    sync = sorted(set(c["list"]))
    r = one(full("stss", 0, 0, M.u32(len(sync)) + b"".join(M.u32(x) for x in sync)))
    eq([i for i in range(256) if r.has_index(i)], sync, "sync-samples", what)
    # chunks[i]: samples of chunk i; sizes from the durations; chunks lie apart
    chunks = c["chunks"]
    sizes = [c["same"] or 3 * i + 1 for i in range(sum(chunks))]
    stsc = [(i + 1, n, 1) for i, n in enumerate(chunks) if not i or n != chunks[i - 1]]
    offs, want, pos, n = [], [], 1000, 0
    for k, count in enumerate(chunks):
        offs.append(pos)
        for j in range(count):
            want.append((k + 1, j, sizes[n], pos))
            pos, n = pos + sizes[n], n + 1
        pos += 50
    table = full("stsz", 0, 0, M.u32(c["same"]) + M.u32(len(sizes)) + (b"" if c["same"] else b"".join(M.u32(x) for x in sizes)))
    ro = one(full("co64" if v else "stco", 0, 0, M.u32(len(offs)) + b"".join(T(x) for x in offs)))
    rc = one(full("stsc", 0, 0, M.u32(len(stsc)) + b"".join(M.u32(x) for e in stsc for x in e)))
    rz = one(table)
    got = []
    for n in range(1, len(sizes) + 1):
        chunk, index = rc.chunk_and_index(n)
        got.append((chunk, index) + tuple(rz.sample_size_and_offset(n, index, ro.chunk_offset(chunk))))
    eq(got, want, "places-of-samples", what)
    # random access
    lens = c["lens"]
    ra, at, mo = [], 0, 0
    for same, d in c["ra"]:
        at, mo = at + d, mo if same and ra else mo + 100 + d
        ra.append((at, mo))
    data = M.u32(c["a"]) + M.u32(lens[0] << 4 | lens[1] << 2 | lens[2]) + M.u32(len(ra))
    data += b"".join(T(x) + T(y) + b"".join(numbers(1 + (i + k) % 200, lens[k] + 1) for k in range(3)) for i, (x, y) in enumerate(ra))
    r = one(full("tfra", v, 0, data))
    eq((r.track_id, r.number_of_entry, [tuple(r.entry(i)) for i in range(len(ra))]),
       (c["a"], len(ra), [(x, y) + tuple(1 + (i + k) % 200 for k in range(3)) for i, (x, y) in enumerate(ra)]), "random-access", what)
    frags = [x for i, x in enumerate(ra) if not i or x[1] != ra[i - 1][1]]
    eq(r.fragment_count, len(frags), "fragment-count", what)
    for i, (x, y) in enumerate(frags):
        size = frags[i + 1][1] - y if i + 1 < len(frags) else 0
        eq((r.time_for_fragment(i + 1), tuple(r.moof_offset_for_fragment(i + 1)), r.time_for_moof_offset(y)), (x, (y, size), x), "fragment", what)
    # event message of version 1, decoder configuration with long descriptors
    s1, s2 = c["text"], c["text2"]
    r = one(full("emsg", 1, 0, M.u32(c["a"]) + M.u64(c["off"]) + M.u32(c["b"]) + M.u32(c["c"]) + s1.encode() + b"\0" + s2.encode() + b"\0" +
                 bytes(c["list"])))
    eq((r.timescale, r.presentation_time, r.event_duration, r.id, r.message), (c["a"], c["off"], c["b"], c["c"], bytes(c["list"]).hex()),
       "event-message", what)
    check(all(g == w or g.encode("latin-1") == w.encode() for g, w in ((r.scheme_id_uri, s1), (r.value, s2))), "event-strings", what)
    cfg = bytes(i % 251 for i in range(c["cfg"]))

    def descr(tag, body):
        n, size = len(body), b""
        while True:
            size = bytes([n & 127 | (128 if size else 0)]) + size
            n >>= 7
            if not n:
                break
        return bytes([tag]) + b"\x80" * (c["flag"] * (4 - len(size))) + size + body

    r = one(full("esds", 0, 0, descr(3, M.u16(c["a"] & 0xffff) + b"\0" + descr(4, bytes([0x40, 0x15]) + bytes(11) + descr(5, cfg)) +
                                     descr(6, b"\2"))))
    eq((r.es_id, r.obj_type, r.stream_type, r.cfg), (c["a"] & 0xffff, 0x40, 0x15, "0x" + cfg.hex()), "decoder-configuration", what)
    stats.nt(len(rows) > 1)


# ---- finding boxes
NAMES = ["moov", "trak", "mdia", "udta", "moof", "traf"]
LEAVES = ["free", "mdat", "abcd"]
tree = st.recursive(st.tuples(st.sampled_from(LEAVES), st.integers(0, 20)).map(list),
                    lambda kids: st.tuples(st.sampled_from(NAMES), st.lists(kids, max_size=4)).map(list), max_leaves=12)


@st.composite
def find_cases(draw):
    c = {"tree": draw(st.lists(tree, min_size=1, max_size=4)), "recurse": draw(st.booleans()), "big": draw(st.booleans()),
         "ids": draw(st.lists(st.integers(1, 4), max_size=3))}
    c["path"] = draw(st.lists(st.sampled_from(NAMES + LEAVES), min_size=1, max_size=3))
    return c


def build(node, big):
    name, x = node
    if isinstance(x, int):
        if big and name == "mdat":
            return M.u32(1) + name.encode() + M.u64(16 + x) + b"\x77" * x
        return M.box(name, b"\x77" * x)
    return M.box(name, b"".join(build(n, big) for n in x))


@guarded
def finding(case, stats):
    what = "boxes %s" % case
    nodes = case["tree"]
    data = b"".join(build(n, case["big"]) for n in nodes)
    m = lib("mp4", "mp4")(data, recurse=case["recurse"])
    flat = []   # (path, offset, size)

    def walk(items, at, path):
        for n in items:
            size = len(build(n, case["big"]))
            flat.append((path + [n[0]], at, size))
            if not isinstance(n[1], int):
                walk(n[1], at + 8, path + [n[0]])
            at += size
    walk(nodes, 0, [])
    path = b".".join(p.encode() for p in case["path"])
    want = [(at, size) for p, at, size in flat if p == case["path"]]
    got = m.find_all(path)
    eq([(b.offset, b.size) for b in got], want, "found-boxes", what)
    first = m.find(path)
    eq((first.offset, first.size) if first else None, want[0] if want else None, "first-box", what)
    for b, (at, size) in zip(got, want):
        eq(bytes(b.raw_data), data[at:at + size], "box-bytes", what)
        eq(b.path, path, "path", what)
        check(b.root is m, "root", what)
        eq(b.endpos, at + size, "end", what)
    # the box of a track
    if case["ids"]:
        traks = b"".join(M.box("trak", full("tkhd", 0, 7, M.u32(0) * 2 + M.u32(t) + bytes(68)) + M.box("free", bytes([i])))
                         for i, t in enumerate(case["ids"]))
        m = lib("mp4", "mp4")(M.box("moov", traks), recurse=case["recurse"])
        for t in set(case["ids"]):
            got = m.find_all(b"moov.trak.tkhd[track_id=%d]..free" % t)
            eq([b.raw_data[-1] for b in got], [i for i, x in enumerate(case["ids"]) if x == t], "boxes-of-a-track", what)
    stats.nt(bool(want))


SUBS = [Sub("bits", bit_cases(), bitio, quick=3000, thorough=100000, rule="more than one item"),
        Sub("fragment", frag_cases(), fragment, quick=2500, thorough=80000, rule="a fragment of more than one sample"),
        Sub("emsg", emsg_cases(), emsg, quick=1500, thorough=50000, rule="an event message"),
        Sub("index", index_cases(), index, quick=1500, thorough=50000, rule="an index with references"),
        Sub("init", init_cases(), init, quick=2000, thorough=60000, rule="an init header"),
        Sub("aux", aux_cases(), aux, quick=700, thorough=20000, rule="boxes with entries"),
        Sub("readers", reader_cases(), readers, quick=700, thorough=20000, rule="a run of more than one sample"),
        Sub("find", find_cases(), finding, quick=1500, thorough=40000, rule="boxes are found under the path")]
