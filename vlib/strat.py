"""Hypothesis strategies producing JSON-serialisable cases."""
from hypothesis import strategies as st

BRANDS = ["msdh", "msix", "lmsg", "iso6", "dash"]
TS = [1000, 90000, 48000, 44100, 12800, 600, 1, 30, 10000000, 25, 65536, 16384]


@st.composite
def fmts(draw, kind="full", typ="video", single=False):
    """Box-layout options.

    kind: 'plain' (one fixed simple layout), 'simple' (varied clear layouts), 'full' (everything)."""
    if kind == "plain":
        return {"styp": ["msdh", "msix"], "tfhd": 0x20000, "trun": 0x301, "tfdt_v": draw(st.sampled_from([0, 0, 1])),
                "trex_dur": 0}
    f = {}
    f["styp"] = draw(st.one_of(st.just(["msdh", "msix"]), st.none(), st.lists(st.sampled_from(BRANDS), max_size=4)))
    if single == "mux":   # multiplexing takes the styp of the first
        f["styp"] = f["styp"] if f["styp"] is not None else ["msdh"]
    f["pre"] = draw(st.lists(st.sampled_from(["free", "prft", "emsg"]), max_size=2)) if single != "mux" else []
    f["sidx"] = draw(st.sampled_from([None, 0, 1]))
    f["tfdt_v"] = draw(st.sampled_from([0, 0, 1]))
    tfhd = 0
    trun = 1
    # where do duration / size / flags live?
    where = draw(st.sampled_from(["trun", "tfhd", "trex"]))
    if where == "trun":
        trun |= 0x100
        f["vardur"] = draw(st.booleans())
        if draw(st.booleans()):
            tfhd |= 8
    elif where == "tfhd":
        tfhd |= 8
    f["trex_dur"] = 1 if where == "trex" else draw(st.integers(0, 1))
    where = draw(st.sampled_from(["trun", "trun", "tfhd", "trex"]))
    if where == "trun":
        trun |= 0x200
        f["zerosize"] = draw(st.integers(0, 1))
        if draw(st.integers(0, 9)) == 5:
            f["big"] = draw(st.integers(65500, 70000))
    else:
        f["csize"] = draw(st.integers(1, 20))
        if where == "tfhd":
            tfhd |= 0x10
        else:
            f["trex_size"] = 1
    where = draw(st.sampled_from(["trun", "tfhd", "trex"]))
    if where == "trun":
        trun |= 0x400
    else:
        if where == "tfhd":
            tfhd |= 0x20
            f["defflags"] = draw(st.sampled_from([0x01010000, 0x02000000, 0, 0x00010000, 0x01000000]))
        if draw(st.booleans()):
            trun |= 4
    f["trexflags"] = draw(st.sampled_from([0, 0x01010000, 0x02000000, 0x00010000, 0x02010000]))
    if draw(st.booleans()):
        trun |= 0x800
        f["trun_v"] = draw(st.integers(0, 1))
    if draw(st.booleans()):
        tfhd |= 2
    if draw(st.booleans()):
        tfhd |= 0x20000
    f["tfhd"] = tfhd
    f["trun"] = trun
    f["ivers"] = draw(st.sampled_from([[0, 0, 0], [1, 1, 1], [0, 1, 0], [1, 0, 1], [0, 0, 1]]))
    f["idurs"] = draw(st.sampled_from([[100, 200, 300], [0, 0, 0], [2**32 - 1] * 3, [7, 0, 12345678]]))
    if draw(st.booleans()):     # durations that need the 64-bit fields
        f["idurs"] = [d + (draw(st.sampled_from([0, 2 ** 32, 2 ** 40, 2 ** 63])) if v else 0) for d, v in zip(f["idurs"], f["ivers"])]
    f["iextra"] = draw(st.lists(st.sampled_from(["edts", "mehd", "pssh", "udta", "udta0", "free", "sidx"]), unique=True, max_size=3)) \
        if single != "mux" else draw(st.lists(st.sampled_from(["edts", "free"]), unique=True, max_size=2))
    f["mvex_first"] = draw(st.booleans())
    if kind == "full":
        f["enc"] = draw(st.sampled_from([0, 0, 1, "uuid"]))
        if f["enc"]:
            f["saio_v"] = draw(st.integers(0, 1))
            f["saio_f"] = draw(st.integers(0, 1))
            f["saio_m"] = draw(st.integers(0, 1))
            f["enc_pos"] = draw(st.integers(0, 1))
            f["enc_order"] = draw(st.integers(0, 1))
        f["extra_traf"] = draw(st.lists(st.sampled_from(["uuid", "sbgp", "free", "udta"]), max_size=2))
        f["extra_moof"] = draw(st.lists(st.sampled_from(["pssh", "free"]), max_size=2)) if single != "mux" else []
        f["mdat_pre"] = draw(st.sampled_from([0, 0, 0, 4]))
        f["mdat_hdr"] = draw(st.sampled_from([None, None, None, "large", "zero"]))
        if not single:
            f["nfrag"] = draw(st.sampled_from([1, 1, 2, 3]))
            if not trun & 0x100:
                f["alt2"] = draw(st.sampled_from([0, 0, 1, 2]))
            f["ntrun"] = draw(st.sampled_from([1, 1, 2]))
            f["trun2_no_off"] = draw(st.integers(0, 1))
            if f["nfrag"] > 1 or f.get("alt2"):
                f["tfdt_mix"] = draw(st.integers(0, 1))
                f["mid"] = draw(st.lists(st.sampled_from(["prft", "emsg", "free", "styp"]), max_size=2))
            f["post"] = draw(st.integers(0, 2))
    return f


@st.composite
def layouts(draw, n, D, ts=None, jitter=True, maxf=8):
    "Frame duration and boundaries of a track whose loop is exactly n*D seconds."
    if ts is None:
        ts = draw(st.sampled_from(TS))
    T = n * D * ts
    if maxf == 8 and draw(st.integers(0, 3)) == 0:
        maxf = 30
    fs = [F for F in range(n, maxf * n + 1) if T % F == 0]
    odd = []
    if draw(st.booleans()):     # frames that cannot be cut evenly
        odd = [F for F in fs if F % n and all(abs(int(i * F / n + 0.5) * n * D / F - i * D) < 0.39 for i in range(1, n))]
    fs = odd or fs
    F = draw(st.sampled_from(fs))
    fd = T // F
    fb = [0]
    maxdev = 0.4 * ts
    js = draw(st.lists(st.integers(-2, 2), min_size=n - 1, max_size=n - 1)) if jitter and n > 1 else [0] * (n - 1)
    for i in range(1, n):
        ideal = i * F / n
        b = int(ideal + 0.5)
        if abs(b * fd - i * D * ts) > maxdev:   # cannot be near the nominal boundary with such long frames
            return ts, D * ts, list(range(n + 1))
        c = b + js[i - 1]
        if not (abs(c * fd - i * D * ts) <= maxdev and c > fb[-1] and c < F):
            c = b
        if c <= fb[-1]:
            return ts, D * ts, list(range(n + 1))
        fb.append(c)
    fb.append(F)
    if fb[-1] <= fb[-2]:
        return ts, D * ts, list(range(n + 1))
    return ts, fd, fb


# Representation ids; in some schemes the ids of one media type are parts of those of the other, or differ only in case.
IDS = [{}, {}, {}, {"video": "A%d_v", "audio": "A%d"}, {"audio": "xV%d", "video": "V%d"}, {"video": "%d", "audio": "1%d"}, {"audio": "%d", "video": "1%d"},
       {"video": "%dx", "audio": "%dX"}, {"audio": "%da", "video": "%dA"}]


@st.composite
def specs(draw, kind="full", types=("video", "audio"), maxn=6, maxD=10, jitter=True, nested=True, single=False,
          Ds=None, multirep=True, mpdopts=True, ns=None, tslist=None, audio_optional=False, tsbds=None):
    D = draw(st.sampled_from(Ds)) if Ds else draw(st.integers(1, maxD))
    if not Ds and maxD == 10 and draw(st.integers(0, 11)) == 0:
        D = draw(st.sampled_from([11, 12, 15, 16, 20, 30, 60]))
    n = draw(st.sampled_from(ns)) if ns else draw(st.integers(1, maxn))
    spec = {"D": D, "n": n, "first": draw(st.sampled_from([1, 0, 1, 5, 100])),
            "tsbd": draw(st.sampled_from(tsbds) if tsbds else st.sampled_from([30, 300, 10, 0, 60, 7]))}
    ids = draw(st.sampled_from(IDS))
    tracks = []
    tid = 1
    for typ in types:
        ts, fd, fb = draw(layouts(n, D, jitter=jitter, ts=draw(st.sampled_from(tslist)) if tslist else None))
        nrep = draw(st.integers(1, 2)) if multirep else 1
        reps = []
        for i in range(nrep):
            r = {"id": ids[typ] % (i + 1) if typ in ids else "%s%d" % (typ[0].upper(), i + 1), "tid": draw(st.sampled_from([tid, tid, 77])),
                 "fmt": draw(fmts(kind=kind, typ=typ, single=single))}
            if nested and typ == "audio" and draw(st.booleans()):
                r["dir"] = draw(st.sampled_from(["en", "sv", "a/b"]))
            elif i and draw(st.integers(0, 2)) == 0:    # in an adaptation set of its own
                r["set"] = 1
            reps.append(r)
        tracks.append({"type": typ, "ts": ts, "fd": fd, "fb": fb, "reps": reps})
        tid += 1
    spec["tracks"] = tracks
    if draw(st.integers(0, 5)) == 0:
        spec["cfgstyle"] = draw(st.integers(1, 2))
    if mpdopts:
        spec["mpd"] = draw(st.fixed_dictionaries({}, optional={
            "proginfo": st.booleans(), "maxseg": st.booleans(), "role": st.booleans(), "nosnr": st.booleans(),
            "pid": st.sampled_from(["p0", "1", "x"]), "pstart": st.booleans(), "pdur": st.booleans(),
            "tscale": st.sampled_from([0, 1, 1000, 90000]), "xsi": st.booleans(), "cp": st.booleans(), "sub": st.booleans(),
            "metrics": st.booleans(), "supp": st.booleans(), "sdesc": st.booleans(), "aselems": st.booleans(), "baseurl": st.integers(0, 2), "asetid": st.booleans(), "prefix": st.booleans(), "minify": st.booleans(),
            "nbase": st.sampled_from([None, "rep", "aset", "period"])}))
        if draw(st.integers(0, 5)) == 0:    # names that begin like options
            spec["name"] = draw(st.sampled_from(["baseline", "startpic", "dur2s", "sts-1", "livesim", "base", "x.mpd", "utc2", "1"]))
        if draw(st.integers(0, 5)) == 0:
            spec["mpdname"] = draw(st.sampled_from(["a.b.mpd", "1.mpd", "t1.mpd", "mpd.mpd", "init.mpd", "Manifest.mp4.mpd", "start_1.mpd", "x-y_z.v1.2.mpd"]))
    return spec


@st.composite
def with_images(draw, spec):
    "Add a track of thumbnails to the spec, now and then."
    if draw(st.integers(0, 2)) == 0:
        r = {"id": draw(st.sampled_from(["thumbs", "I1", "tn"])), "tid": 1, "fmt": {}}
        if draw(st.booleans()):
            r["dir"] = draw(st.sampled_from(["img", "a/b"]))
        ts = draw(st.sampled_from([1, 1000, 90000]))
        spec["tracks"].append({"type": "image", "ts": ts, "fd": spec["D"] * ts, "fb": list(range(spec["n"] + 1)), "reps": [r]})
    return spec


@st.composite
def with_subs(draw, spec):
    "Add a track of subtitles to the spec, now and then."
    if draw(st.integers(0, 2)) == 0:
        ts, fd, fb = draw(layouts(spec["n"], spec["D"]))
        docs = draw(st.lists(st.sampled_from(["<tt>x</tt>", '<tt xmlns="http://www.w3.org/ns/ttml"><body begin="00:00:01.5" end="00:00:02.5"/></tt>']), min_size=1, max_size=2))
        spec["tracks"].append({"type": "subtitles", "ts": ts, "fd": fd, "fb": fb, "reps": [
            {"id": draw(st.sampled_from(["S1", "sub"])), "tid": draw(st.sampled_from([1, 3])), "docs": docs,
             "fmt": {"styp": draw(st.sampled_from([["msdh"], None])), "tfhd": 0x20018, "trun": draw(st.sampled_from([1, 0x301, 0x201])), "tfdt_v": draw(st.integers(0, 1))}}]})
    return spec


def plain_spec(D=2, n=4, first=1, tsbd=30, ts=90000, ats=48000):
    "A fixed simple content."
    def tr(typ, ts, ids):
        return {"type": typ, "ts": ts, "fd": D * ts // 2 if (D * ts) % 2 == 0 else D * ts,
                "fb": [2 * i if (D * ts) % 2 == 0 else i for i in range(n + 1)],
                "reps": [{"id": i, "tid": 1, "fmt": {"styp": ["msdh", "msix"], "tfhd": 0x20000, "trun": 0x301, "tfdt_v": 0}}
                         for i in ids]}
    return {"D": D, "n": n, "first": first, "tsbd": tsbd, "tracks": [tr("video", ts, ["V1"]), tr("audio", ats, ["A1"])]}


# Times: seconds, multiples of 1/64 so that all arithmetic on them is exact in floating point.
def epochs(big=True):
    return st.one_of(st.integers(1_400_000_000, 1_800_000_000),
                     st.sampled_from([1_600_000_000, 1_599_998_400, 1_500_000_000 // 3600 * 3600]),
                     st.integers(100_000, 5_000_000))


def frac():
    return st.one_of(st.just(0), st.sampled_from([1, 63, 32]), st.integers(0, 63)).map(lambda x: x / 64.0)


@st.composite
def session_opts(draw, D, modes=("plain", "plain", "start", "start", "stop", "dur", "rel", "tfdt", "cont", "modulo")):
    """Options of a session and (about) its availability start: ([[name, value]..], ast). Never ends before it starts."""
    mode = draw(st.sampled_from(modes))
    S = draw(epochs())
    if draw(st.booleans()):
        S = S // D * D
    ast = S // D * D
    o = []
    if mode in ("start", "stop", "dur"):
        if mode == "dur":
            S = ast
        o.append(["start", str(S)])
        if draw(st.booleans()):
            o.append(["timeoffset", str(draw(st.one_of(st.just(0), st.just(ast), st.integers(0, 400).map(lambda j: max(0, ast - j * D)))))])
        if mode == "stop":
            o.append(["stop", str(ast + draw(st.one_of(st.just(0 if S == ast else D), st.integers(1, 60 * D), st.integers(1, 20000),
                                                              st.tuples(st.integers(1, 60), st.sampled_from([-1, 1])).map(lambda x: x[0] * D + x[1]))))])
        if mode == "dur":
            for _ in range(draw(st.integers(1, 2))):
                o.append(["dur", str(D * draw(st.one_of(st.integers(1, 200), st.integers(1, 20000 // D))))])
    elif mode == "rel":
        o.append(["startrel", str(-draw(st.one_of(st.integers(0, 400), st.integers(0, 9000))))])
        if draw(st.booleans()):
            o.append(["stoprel", str(draw(st.one_of(st.integers(max(-20, int(o[0][1])), 400), st.integers(0, 9000))))])
    elif mode == "tfdt":
        o.append(["tfdt", "32"])
        ast = S // 10800 * 10800
    elif mode == "cont":
        o.append(["cont", "1"])
    elif mode == "modulo":
        xs = [x for x in (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60) if 12 * x % D == 0]
        if xs:
            x = draw(st.sampled_from(xs + [60] if 720 % D == 0 else xs))
            o.append(["modulo", str(x)])
            ast = S // (60 * x) * 60 * x + draw(st.sampled_from([0, 6, 12, 18, 30, 53])) * x
    return o, ast
