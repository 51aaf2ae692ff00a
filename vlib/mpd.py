"""Independent MPD reader (namespace-checked), XML-Schema lexical oracles and URL expansion."""
import calendar
import datetime
import re
from fractions import Fraction
from urllib.parse import urljoin, urlparse
from xml.etree import ElementTree as ET

from .runner import Violation

NS = "urn:mpeg:dash:schema:mpd:2011"
XLINK = "http://www.w3.org/1999/xlink"

RE_DUR = re.compile(r"^(-)?P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(?:(T)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d+)?)S)?)?$")
RE_DT = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?$")


def lex_duration(s):
    "Value of an xs:duration: (months, Fraction seconds); Violation if not lexically valid."
    m = RE_DUR.match(s or "")
    if not m:
        raise Violation("bad-duration", "%r is not an xs:duration" % (s,))
    neg, y, mo, d, t, h, mi, sec = m.groups()
    if not any((y, mo, d, h, mi, sec)) or (t and not any((h, mi, sec))):
        raise Violation("bad-duration", "%r is not an xs:duration" % (s,))
    if neg:
        raise Violation("negative-duration", "%r is negative" % s)
    return (int(y or 0) * 12 + int(mo or 0),
            int(d or 0) * 86400 + int(h or 0) * 3600 + int(mi or 0) * 60 + Fraction(sec or 0))


def dur_s(s):
    "Seconds of an xs:duration without year and month parts."
    m, sec = lex_duration(s)
    if m:
        raise Violation("duration-months", "%r has years or months" % s)
    return sec


def lex_datetime(s):
    "Epoch seconds (Fraction) of an xs:dateTime in UTC."
    m = RE_DT.match(s or "")
    if not m:
        raise Violation("bad-datetime", "%r is not an xs:dateTime" % (s,))
    try:
        dt = datetime.datetime(*[int(x) for x in m.groups()[:6]])
    except ValueError as e:
        raise Violation("bad-datetime", "%r: %s" % (s, e))
    if m.group(8) not in ("Z", "+00:00", "-00:00"):
        raise Violation("bad-datetime-zone", "%r is not in UTC" % s)
    return calendar.timegm(dt.timetuple()) + (Fraction(m.group(7)) if m.group(7) else 0)


def ln(e):
    "Local name."
    return e.tag.split("}")[-1] if isinstance(e.tag, str) else "#"


def kids(e, name):
    return [c for c in e if ln(c) == name]


def kid(e, name):
    k = kids(e, name)
    return k[0] if k else None


def canon_elem(e, drop=()):
    "Whitespace-insensitive canonical form of an element."
    return (e.tag, tuple(sorted((k, v) for k, v in e.attrib.items() if k not in drop)), (e.text or "").strip(),
            tuple(canon_elem(c) for c in e if isinstance(c.tag, str)))


NO_TEXT = {"{%s}%s" % (NS, x) for x in ("MPD", "Period", "AdaptationSet", "Representation", "SegmentTemplate", "SegmentTimeline", "S",
                                         "ServiceDescription", "ProducerReferenceTime", "SegmentBase", "UTCTiming", "EventStream")}


def parse(text):
    "Parse an MPD text to its root element; every DASH element must be in the DASH namespace."
    if isinstance(text, bytes):
        text = text.decode("utf-8")
    try:
        root = ET.fromstring(text.encode("utf-8"))
    except ET.ParseError as e:
        raise Violation("mpd-not-wellformed", "%s in %r" % (e, text[:300]))
    if root.tag != "{%s}MPD" % NS:
        raise Violation("mpd-root", "root is %s" % root.tag)
    for e in root.iter():
        if e.tag in NO_TEXT:
            for t in [e.text] + [x.tail for x in e]:
                if t and t.strip():
                    raise Violation("mpd-stray-text", "%r in %s" % (t[:100], e.tag))
    return root


class SegTmpl:
    "Effective segment template of a representation."

    def __init__(self, period, aset, rep):
        self.period = period
        self.aset = aset
        self.rep = rep
        attrs = {}
        self.timeline = None
        for lvl in (period, aset, rep):
            for name in ("SegmentBase", "SegmentTemplate"):
                for t in kids(lvl, name):
                    attrs.update(t.attrib)
                    tl = kid(t, "SegmentTimeline")
                    if tl is not None:
                        self.timeline = tl
        self.a = attrs
        self.timescale = int(attrs.get("timescale", "1"))
        self.pto = int(attrs.get("presentationTimeOffset", "0"))
        self.duration = int(attrs["duration"]) if "duration" in attrs else None
        self.start_number = int(attrs.get("startNumber", "1"))
        self.media = attrs["media"]
        self.init = attrs.get("initialization")
        for lvl in (rep, aset, period):     # Relative BaseURLs on the way to the MPD level
            b = kid(lvl, "BaseURL")
            if b is not None:
                self.media = urljoin(b.text.strip(), self.media)
                self.init = urljoin(b.text.strip(), self.init) if self.init else self.init

    def expand(self, tmpl, number=None, time=None):
        def sub(m):
            k, f = m.group(1), m.group(2)
            if k == "":
                return "$"
            v = {"RepresentationID": self.rep.get("id"), "Number": number, "Time": time,
                 "Bandwidth": self.rep.get("bandwidth")}[k]
            if v is None:
                raise Violation("template", "no value for $%s$ in %s" % (k, tmpl))
            return ("%0*d" % (int(f), int(v))) if f else str(v)
        return re.sub(r"\$(RepresentationID|Number|Time|Bandwidth|)(?:%0(\d+)d)?\$", sub, tmpl)

    def entries(self):
        "SegmentTimeline entries: [(t, d)]."
        out = []
        t = None
        ss = [s for s in self.timeline]
        for s in ss:
            if ln(s) != "S":
                raise Violation("timeline-element", "%s in SegmentTimeline" % s.tag)
            d = int(s.get("d"))
            r = int(s.get("r", "0"))
            if r < 0 or d <= 0:
                raise Violation("timeline-entry", "S d=%s r=%s" % (d, r))
            if s.get("t") is not None:
                t = int(s.get("t"))
            elif t is None:
                t = 0
            for _ in range(r + 1):
                out.append((t, d))
                t += d
        return out

    def gaps_ok(self):
        t = None
        for s in self.timeline:
            if t is not None and s.get("t") is not None and int(s.get("t")) != t:
                return False
            if s.get("t") is not None:
                t = int(s.get("t"))
            elif t is None:
                t = 0
            t += int(s.get("d")) * (int(s.get("r", "0")) + 1)
        return True


class Mpd:
    def __init__(self, text):
        self.text = text if isinstance(text, str) else text.decode("utf-8")
        self.root = parse(text)
        self.a = self.root.attrib
        self.periods = kids(self.root, "Period")
        self.baseurls = kids(self.root, "BaseURL")
        self.locations = kids(self.root, "Location")
        self.utc = kids(self.root, "UTCTiming")
        self.ast = lex_datetime(self.a["availabilityStartTime"]) if "availabilityStartTime" in self.a else None

    def reps(self, period):
        for a in kids(period, "AdaptationSet"):
            for r in kids(a, "Representation"):
                yield a, r, SegTmpl(period, a, r)

    def base(self, mpd_url, idx=0):
        if self.baseurls:
            return urljoin(mpd_url, self.baseurls[idx].text)
        return mpd_url


def path_of(base, rel):
    "Path and host of a URL resolved against base."
    u = urlparse(urljoin(base, rel))
    return u.path, u.netloc, u.scheme
