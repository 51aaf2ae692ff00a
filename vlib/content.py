"""Synthetic VoD content: JSON spec -> files, and Hypothesis strategies for specs."""
import hashlib
import json
import os
import re
import shutil
import struct
import tempfile
from collections import OrderedDict

from . import mp4lib as M

_SCRATCH = None


def scratch():
    "Per-process scratch directory (removed at exit)."
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="vf_", dir=base)
        _SCRATCH = (os.getpid(), d)
        import atexit
        atexit.register(cleanup)
    return _SCRATCH[1]


def cleanup():
    global _SCRATCH
    if _SCRATCH is not None and _SCRATCH[0] == os.getpid():
        shutil.rmtree(_SCRATCH[1], ignore_errors=True)
        _SCRATCH = None
        _CACHE.clear()


def _h(*a):
    return hashlib.blake2b(repr(a).encode(), digest_size=64).digest()


FLAGSET = (0x02000000, 0x01010000, 0x00010000, 0x02400004, 0x00a10000, 0, 0x01000000, 0x02010000)
HANDLERS = {"video": b"vide", "audio": b"soun", "subtitles": b"subt", "image": b"pict"}


class Content:
    "A materialisable VoD content built from a JSON-serialisable spec."

    def __init__(self, spec):
        self.spec = spec
        self.D = spec["D"]
        self.n = spec["n"]
        self.first = spec["first"]
        self.tsbd = spec.get("tsbd", 30)
        self.name = spec.get("name", "vod1")
        self.tracks = spec["tracks"]
        self.mpd_name = spec.get("mpdname", "Manifest.mpd")
        self.root = None
        self.conf = None
        self._seg = {}

    # -- structure
    def track(self, typ):
        for t in self.tracks:
            if t["type"] == typ:
                return t
        return None

    def reps(self):
        "All (track, rep) pairs."
        return [(t, r) for t in self.tracks for r in t["reps"]]

    def rep(self, rid):
        for t, r in self.reps():
            if r["id"] == rid:
                return t, r
        raise KeyError(rid)

    def reldir(self, rep):
        return (rep.get("dir") + "/" if rep.get("dir") else "") + rep["id"]

    def bounds(self, track):
        "Segment boundaries in ticks (n+1 values)."
        return [f * track["fd"] for f in track["fb"]]

    def loop_ticks(self, track):
        return self.n * self.D * track["ts"]

    # -- init / media
    def trex(self, track, rep):
        f = rep["fmt"]
        d = track["fd"] if f.get("trex_dur") else 0
        if f.get("alt2"):     # default durations differ between the fragments
            d = track["fd"] * (2 if f["alt2"] == 1 else 1)
        return (1, d, f.get("csize", 0) if f.get("trex_size") else 0,
                f.get("trexflags", 0))

    def init_bytes(self, track, rep):
        f = rep["fmt"]
        return M.make_init(track["ts"], rep["tid"], HANDLERS[track["type"]], tuple(f.get("ivers", (0, 0, 0))),
                           tuple(f.get("idurs", (100, 200, 300))), self.trex(track, rep), tuple(f.get("iextra", ())),
                           f.get("mvex_first", False))

    def raw_samples(self, track, rep, i):
        f = rep["fmt"]
        k = track["fb"][i + 1] - track["fb"][i]
        fd = track["fd"]
        if track["type"] == "subtitles":
            doc = self.ttml_doc(rep, i)
            return [(k * fd, 0x02000000, 0, doc)]
        durs = [fd] * k
        if f.get("vardur") and f["trun"] & 0x100:
            for j in range(0, k - 1, 2):
                e = _h("d", rep["id"], i, j)[0] % (max(1, fd // 3) + 1)
                durs[j] += e
                durs[j + 1] -= e
        if f.get("alt2"):
            m = k // 3
            durs = [fd] * (k - 2 * m) + [2 * fd] * m
        out = []
        for j in range(len(durs)):
            h = _h("s", rep["id"], i, j, f.get("salt", 0))
            size = 1 + h[0] % 24 if f["trun"] & 0x200 else f.get("csize", 5)
            if f.get("zerosize") and f["trun"] & 0x200 and h[5] % 5 == 0:
                size = 0
            if f.get("big") and j == f["big"] % len(durs) and f["trun"] & 0x200:      # a segment with more than 64 kB of data
                size += f["big"]
            flags = FLAGSET[h[1] % len(FLAGSET)]
            if j == 0:
                flags = FLAGSET[h[1] % 2 * 3]
            cto = 0
            if f["trun"] & 0x800:
                cto = (h[2] % 4) * fd
                if f.get("trun_v"):
                    cto -= fd
            out.append((durs[j], flags, cto, (h * (size // len(h) + 2))[1:1 + size]))
        return out

    def ttml_doc(self, rep, i):
        docs = rep["docs"]
        d = docs[i % len(docs)]
        return d.encode("utf-8")

    def seg_bytes(self, track, rep, i):
        "VoD segment with index i (0-based in the loop)."
        key = (rep["id"], i)
        if key in self._seg:
            return self._seg[key]
        if track["type"] == "image":
            res = b"\xff\xd8\xff" + _h("img", rep["id"], i)[:10 + i % 20]
            self._seg[key] = res
            return res
        f = rep["fmt"]
        sm = self.raw_samples(track, rep, i)
        out = b""
        self._nev = 0
        if f.get("styp") is not None:
            out += M.make_styp(f["styp"])
        for x in f.get("pre", ()):
            out += self.small_box(x, rep)
        base = track["fb"][i] * track["fd"] + f.get("tfdt_extra", 0)
        if f.get("sidx") is not None:
            out += M.make_sidx(f["sidx"], track["ts"], base, 100, 100)
        nf = max(1, min(f.get("nfrag", 1), len(sm) or 1))
        t = base
        parts = [sm[fi * len(sm) // nf:(fi + 1) * len(sm) // nf] for fi in range(nf)]
        fs = [f] * nf
        if f.get("alt2"):     # one fragment with its own default duration and one with that of the init segment
            a = [x[0] for x in sm].count(track["fd"])
            parts = [x for x in (sm[:a], sm[a:]) if x]
            own, dfl = dict(f, tfhd=f["tfhd"] | 8), dict(f, tfhd=f["tfhd"] & ~8)
            fs = [own, dfl] if f["alt2"] == 1 else [dfl, own]
        for part, ff in zip(parts, fs):
            if f.get("mdat_hdr") == "zero" and (part is not parts[-1] or f.get("post")):     # Only the last box can extend to the end
                ff = dict(ff, mdat_hdr=None)
            if t != base:       # Between the fragments
                out += b"".join(self.small_box(x, rep) for x in f.get("mid", ()))
            if f.get("tfdt_mix") and t != base:     # Both versions in one segment
                ff = dict(ff, tfdt_v=1 - f["tfdt_v"] if t < 2 ** 32 else 1)
            out += M.make_fragment(1000 + i, rep["tid"], t, part, ff, seed=i)
            t += sum(s[0] for s in part)
        if f.get("post") == 2:      # Events at the end of the segment
            out += self.small_box("emsg", rep) + self.small_box("emsg", rep)
        if f.get("post"):
            out += M.box("free", b"tail")
        self._seg[key] = out
        return out

    def small_box(self, x, rep):
        "Top-level box that may stand before or between fragments."
        self._nev += x == "emsg"    # Events are different ones
        return {"free": lambda: M.box("free", b"moof"),
                "emsg": lambda: M.fullbox("emsg", 0, 0, b"urn:x\0" + b"v\0" + M.u32(1) * 3 + M.u32(self._nev) + b"mdat"),
                "prft": lambda: M.fullbox("prft", 0, 0, M.u32(rep["tid"]) + M.u64(5) + M.u32(0)),
                "styp": lambda: M.make_styp(["msdh"])}[x]()

    def parsed(self, rid, i):
        "Parsed VoD segment -> (boxes, fragments)."
        t, r = self.rep(rid)
        return M.parse_segment(self.seg_bytes(t, r, i), self.trex_tuple(t, r))

    def trex_tuple(self, t, r):
        x = self.trex(t, r)
        return M.Trex(r["tid"], *x)

    # -- files
    def mpd_xml(self):
        s = self.spec
        m = s.get("mpd", {})
        total = self.n * self.D
        prof = m.get("profiles", "urn:mpeg:dash:profile:isoff-live:2011")
        x = ['<?xml version="1.0" encoding="utf-8"?>',
             '<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" %s%smediaPresentationDuration="PT%dS" minBufferTime="PT4S" '
             'profiles="%s" type="static">' % (XSI if m.get("xsi") else "", 'maxSegmentDuration="PT99S" ' if m.get("maxseg") else "", total, prof)]
        if m.get("proginfo", True):
            x.append('<ProgramInformation><Title>%s</Title></ProgramInformation>' % m.get("title", "Media p0 p1"))
        if m.get("baseurl"):
            x.append('<BaseURL>http://old.example/x/</BaseURL>')
            if m["baseurl"] > 1:
                x.append('<BaseURL serviceLocation="b">http://old2.example/y/</BaseURL>')
        if m.get("sdesc"):
            x.append('<ServiceDescription id="7"><PlaybackRate min="0.5" max="2.0"/></ServiceDescription>')
        nb = m.get("nbase")      # Where a part of the paths of the media is: in an own BaseURL of that level
        x.append('<Period%s%s%s>' % (' id="%s"' % m["pid"] if m.get("pid") else "", ' start="PT0S"' if m.get("pstart") else "",
                                     ' duration="PT%dS"' % total if m.get("pdur") else ""))
        if nb == "period":
            x.append('<BaseURL>./</BaseURL>')
        for t in self.tracks:
            groups = OrderedDict()
            for r in t["reps"]:
                groups.setdefault((r.get("dir") or "", r.get("set", 0)), []).append(r)
            for (d, _), reps in groups.items():
                pre = d + "/" if d else ""
                image = t["type"] == "image"
                attr = 'contentType="%s" mimeType="%s"' % (t["type"], {"subtitles": "application/mp4", "image": "image/jpeg"}.get(
                    t["type"], t["type"] + "/mp4"))
                if d:
                    attr += ' lang="%s"' % d.split("/")[-1]
                x.append('<AdaptationSet %s segmentAlignment="true" startWithSAP="1">' % attr)
                if m.get("asetid"):
                    x[-1] = x[-1].replace("<AdaptationSet ", '<AdaptationSet id="%d" group="1" ' % (len(x) - 1))
                if m.get("cp"):
                    x.append(CP)
                if m.get("aselems"):
                    x.append('<SupplementalProperty schemeIdUri="urn:x:s" value="1"/><InbandEventStream schemeIdUri="urn:x:e" value="9"/>'
                             '<Label>Main</Label><Accessibility schemeIdUri="urn:x:a"/>')
                if m.get("role"):
                    x.append('<Role schemeIdUri="urn:mpeg:dash:role:2011" value="main"/>')
                if nb == "aset" and pre:
                    x.append('<BaseURL>%s</BaseURL>' % pre)
                    pre = ""
                rdir = "" if nb == "rep" else pre + "$RepresentationID$/"
                sn = '' if m.get("nosnr") else ' startNumber="%d"' % self.first
                ts = m.get("tscale")
                if ts is not None:      # The duration is in this timescale, 0 means that of the track
                    ts = ts or t["ts"]
                    sn += ' timescale="%d"' % ts
                init = '' if image else 'initialization="%sinit.mp4" ' % rdir
                x.append('<SegmentTemplate duration="%d" %smedia="%s$Number$.%s"%s/>' % (
                    self.D * (ts or 1), init, rdir, "jpg" if image else "m4s", sn))
                for r in reps:
                    bu = "<BaseURL>%s%s/</BaseURL>" % (pre, r["id"]) if nb == "rep" else ""
                    end = ">" + bu + "</Representation>" if bu else "/>"
                    if image:
                        end = ' width="3200" height="180">' + TILE + bu + "</Representation>"
                    elif m.get("sub"):
                        end = ' width="320">' + SUBELEM[0] + bu + SUBELEM[1] + "</Representation>"
                    x.append('<Representation id="%s" bandwidth="%d" codecs="xxxx"%s' % (r["id"], 1000 + len(r["id"]), end))
                x.append('</AdaptationSet>')
        x.append('</Period>')
        if m.get("metrics"):
            x.append('<Metrics metrics="DVBErrors"><Reporting schemeIdUri="urn:x" value="1"/></Metrics>')
        if m.get("supp"):
            x.append('<SupplementalProperty schemeIdUri="urn:x:mpd" value="1"/>')
        x.append('</MPD>')
        text = "".join(x) if m.get("minify") else "\n".join(x) + "\n"
        if m.get("prefix"):
            text = re.sub(r"<(/?)([A-Z])", r"<\1dash:\2", text).replace("xmlns=", "xmlns:dash=", 1)
        return text

    def cfg_text(self):
        ver = self.spec.get("cfgver", "1.1")
        x = ["[General]", "version = %s" % ver, "", "[Setup]", "first_segment_in_loop = %d" % self.first,
             "nr_segments_in_loop = %d" % self.n, "segment_duration_s = %d" % self.D, "default_tsbd_secs = %d" % self.tsbd]
        for t in self.tracks:
            x += ["", "[%s]" % t["type"], "representations = %s" % ",".join(r["id"] for r in t["reps"]),
                  "timescale = %d" % t["ts"]]
            if ver == "1.1" and t["type"] != "image":
                x += ["total_duration = %d" % self.loop_ticks(t), "dat_file = %s_%s.dat" % (self.name, t["type"])]
        style = self.spec.get("cfgstyle")
        if style == 1:      # Written by hand
            x = [l.replace(",", ", ") for l in x]
        elif style == 2:
            x = ["# Content"] + [l.replace(" = ", ": ").replace(",", " ,") for l in x] + ["; end", ""]
        return "\n".join(x) + "\n"

    def runs(self, track):
        "Run-length coded (start_nr, repeats, start_time, duration)."
        b = self.bounds(track)
        out = []
        for i in range(self.n):
            d = b[i + 1] - b[i]
            if out and out[-1][3] == d:
                out[-1][1] += 1
            else:
                out.append([self.first + i, 0, b[i], d])
        return out

    def write(self, base):
        self.root = os.path.join(base, "content")
        self.conf = os.path.join(base, "conf")
        os.makedirs(self.conf)
        cdir = os.path.join(self.root, self.name)
        os.makedirs(cdir)
        with open(os.path.join(cdir, self.mpd_name), "w", encoding="utf-8") as f:
            f.write(self.mpd_xml())
        with open(os.path.join(self.conf, self.name + ".cfg"), "w") as f:
            f.write(self.cfg_text())
        for t in self.tracks:
            if t["type"] != "image":
                with open(os.path.join(self.conf, "%s_%s.dat" % (self.name, t["type"])), "wb") as f:
                    for r in self.runs(t):
                        f.write(struct.pack("HHII", *r))
            for r in t["reps"]:
                d = os.path.join(cdir, self.reldir(r))
                os.makedirs(d, exist_ok=True)
                ext = ".jpg" if t["type"] == "image" else ".m4s"
                if t["type"] != "image":
                    with open(os.path.join(d, "init.mp4"), "wb") as f:
                        f.write(self.init_bytes(t, r))
                for i in range(self.n):
                    with open(os.path.join(d, "%d%s" % (self.first + i, ext)), "wb") as f:
                        f.write(self.seg_bytes(t, r, i))
        return self


XSI = 'xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="urn:mpeg:dash:schema:mpd:2011 DASH-MPD.xsd" '
CP = ('<ContentProtection xmlns:cenc="urn:mpeg:cenc:2013" schemeIdUri="urn:mpeg:dash:mp4protection:2011" value="cenc" '
      'cenc:default_KID="9eb4050d-e44b-4802-932e-27d75083e266"/><!-- Period id="p1" -->\n'
      '<ContentProtection xmlns:cenc="urn:mpeg:cenc:2013" schemeIdUri="urn:uuid:edef8ba9-79d6-4ace-a3c8-27dcd51d21ed">'
      '<cenc:pssh>AAAAMnBzc2g=</cenc:pssh></ContentProtection>')
TILE = '<EssentialProperty schemeIdUri="http://dashif.org/thumbnail_tile" value="10x1"/>'
SUBELEM = ('<AudioChannelConfiguration schemeIdUri="urn:mpeg:dash:23003:3:audio_channel_configuration:2011" value="2"/>',
           '<SubRepresentation level="1" bandwidth="17"/>')

_CACHE = OrderedDict()


def materialize(spec):
    "Return a written Content for the spec (cached)."
    key = hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()
    if key in _CACHE and os.path.isdir(_CACHE[key][1]):
        _CACHE.move_to_end(key)
        return _CACHE[key][0]
    base = os.path.join(scratch(), key)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    c = Content(spec).write(base)
    _CACHE[key] = (c, base)
    while len(_CACHE) > 60:
        _, (_c, b) = _CACHE.popitem(last=False)
        shutil.rmtree(b, ignore_errors=True)
    return c
