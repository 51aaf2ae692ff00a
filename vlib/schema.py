"""The parts of the schema of DASH MPDs (ISO/IEC 23009-1) that live manifests may use, as a table, and a validator over it."""
import re
from fractions import Fraction

from .mpd import NS, XLINK, dur_s, kids, kid, lex_datetime, lex_duration, ln
from .runner import Violation

DOUBLE = re.compile(r"^(?:[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?|-?INF|NaN)$")


def uint(bits):
    def f(v):
        return re.match(r"^\+?\d+$", v) and int(v) < 2 ** bits
    return f


U32, U64 = uint(32), uint(64)
INT = re.compile(r"^[+-]?\d+$").match
BOOL = re.compile(r"^(true|false|0|1)$").match
DBL = DOUBLE.match
STR = lambda v: True                            # noqa: E731
NOWS = re.compile(r"^\S+$").match               # whitespace-free
URI = re.compile(r"^\S*$").match
LANG = re.compile(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$|^\S+$").match
MIME = re.compile(r"^[\w.+-]+/[\w.+-]+(;.*)?$").match


def DUR(v):
    lex_duration(v)
    return True


def DT(v):
    lex_datetime(v)
    return True


def one(*names):
    return lambda v: v in names


DESC = ({"schemeIdUri": URI}, {"value": STR, "id": STR}, None)
SEGBASE = {"timescale": U32, "presentationTimeOffset": U64, "presentationDuration": U64, "timeShiftBufferDepth": DUR, "indexRange": STR,
           "indexRangeExact": BOOL, "availabilityTimeOffset": DBL, "availabilityTimeComplete": BOOL}
REPBASE = {"profiles": STR, "width": U32, "height": U32, "sar": STR, "frameRate": STR, "audioSamplingRate": STR, "mimeType": MIME,
           "segmentProfiles": STR, "codecs": STR, "maximumSAPPeriod": DBL, "startWithSAP": U32, "maxPlayoutRate": DBL, "codingDependency": BOOL,
           "scanType": STR, "selectionPriority": U32, "tag": STR}
REPBASE_KIDS = ["FramePacking*", "AudioChannelConfiguration*", "ContentProtection*", "OutputProtection", "EssentialProperty*", "SupplementalProperty*",
                "InbandEventStream*", "Switching*", "RandomAccess*", "GroupLabel*", "Label*", "ProducerReferenceTime*", "ContentPopularityRate*",
                "Resync*"]
# Element: (required attributes, optional attributes, children in order: "*" any number, else at most one; None: anything)
TABLE = {
    "MPD": ({"profiles": STR, "minBufferTime": DUR},
            {"id": STR, "type": one("static", "dynamic"), "availabilityStartTime": DT, "availabilityEndTime": DT, "publishTime": DT,
             "mediaPresentationDuration": DUR, "minimumUpdatePeriod": DUR, "timeShiftBufferDepth": DUR, "suggestedPresentationDelay": DUR,
             "maxSegmentDuration": DUR, "maxSubsegmentDuration": DUR},
            ["ProgramInformation*", "BaseURL*", "Location*", "PatchLocation*", "ServiceDescription*", "InitializationSet*",
             "InitializationGroup*", "InitializationPresentation*", "ContentProtection*", "Period*", "Metrics*", "EssentialProperty*",
             "SupplementalProperty*", "UTCTiming*", "LeapSecondInformation"]),
    "ProgramInformation": ({}, {"lang": LANG, "moreInformationURL": URI}, ["Title", "Source", "Copyright"]),
    "Title": ({}, {}, []),
    "BaseURL": ({}, {"serviceLocation": STR, "byteRange": STR, "availabilityTimeOffset": DBL, "availabilityTimeComplete": BOOL,
                     "timeShiftBufferDepth": DUR}, []),
    "Location": ({}, {}, []),
    "ServiceDescription": ({}, {"id": U32}, ["Scope*", "Latency*", "PlaybackRate*", "OperatingQuality*", "OperatingBandwidth*"]),
    "Latency": ({}, {"referenceId": U32, "target": U32, "max": U32, "min": U32}, []),
    "PlaybackRate": ({}, {"max": DBL, "min": DBL}, []),
    "Period": ({}, {"id": STR, "start": DUR, "duration": DUR, "bitstreamSwitching": BOOL},
               ["BaseURL*", "SegmentBase", "SegmentList", "SegmentTemplate", "AssetIdentifier", "EventStream*", "ServiceDescription*",
                "ContentProtection*", "AdaptationSet*", "Subset*", "SupplementalProperty*", "EmptyAdaptationSet*", "GroupLabel*",
                "Preselection*"]),
    "EventStream": ({"schemeIdUri": URI}, {"value": STR, "timescale": U32, "presentationTimeOffset": U64}, ["Event*"]),
    "Event": ({}, {"presentationTime": U64, "duration": U64, "id": U32, "contentEncoding": one("base64"), "messageData": STR}, None),
    "AdaptationSet": ({}, dict(REPBASE, id=U32, group=U32, lang=LANG, contentType=STR, par=STR, minBandwidth=U32, maxBandwidth=U32, minWidth=U32,
                               maxWidth=U32, minHeight=U32, maxHeight=U32, minFrameRate=STR, maxFrameRate=STR, segmentAlignment=BOOL,
                               subsegmentAlignment=BOOL, subsegmentStartsWithSAP=U32, bitstreamSwitching=BOOL),
                      REPBASE_KIDS + ["Accessibility*", "Role*", "Rating*", "Viewpoint*", "ContentComponent*", "BaseURL*", "SegmentBase",
                                      "SegmentList", "SegmentTemplate", "Representation*"]),
    "Representation": ({"id": NOWS, "bandwidth": U32},
                       dict(REPBASE, qualityRanking=U32, dependencyId=STR, associationId=STR, associationType=STR, mediaStreamStructureId=STR),
                       REPBASE_KIDS + ["BaseURL*", "ExtendedBandwidth*", "SubRepresentation*", "SegmentBase", "SegmentList", "SegmentTemplate"]),
    "SubRepresentation": ({}, dict(REPBASE, level=U32, dependencyLevel=STR, bandwidth=U32, contentComponent=STR), REPBASE_KIDS),
    "SegmentBase": ({}, SEGBASE, ["Initialization", "RepresentationIndex"]),
    "SegmentTemplate": ({}, dict(SEGBASE, duration=U32, startNumber=U32, endNumber=U32, media=URI, index=URI, initialization=URI,
                                 bitstreamSwitching=URI),
                        ["Initialization", "RepresentationIndex", "FailoverContent", "SegmentTimeline", "BitstreamSwitching"]),
    "SegmentTimeline": ({}, {}, ["S*"]),
    "S": ({"d": U64}, {"t": U64, "n": U64, "r": INT, "k": U64}, []),
    "ContentProtection": (DESC[0], DESC[1], None),
    "InbandEventStream": (DESC[0], dict(DESC[1], timescale=U32, presentationTimeOffset=U64), None),
    "Label": ({}, {"id": U32, "lang": LANG}, []),
    "ProducerReferenceTime": ({"id": U32, "wallClockTime": STR, "presentationTime": U64},
                              {"inband": BOOL, "type": one("encoder", "captured", "application"), "applicationScheme": STR}, ["UTCTiming"]),
    "Metrics": ({"metrics": STR}, {}, ["Range*", "Reporting*"]),
}
for _n in ("UTCTiming", "AssetIdentifier", "EssentialProperty", "SupplementalProperty", "Role", "Accessibility", "Rating", "Viewpoint", "FramePacking",
           "AudioChannelConfiguration", "Reporting", "OutputProtection"):
    TABLE[_n] = DESC


def bad(kind, msg):
    raise Violation("schema-" + kind, msg)


def element(e, path=""):
    "Check an element and all below it against the table."
    name = ln(e)
    path += "/" + name
    if name not in TABLE:
        bad("unknown-element", path)
    req, opt, order = TABLE[name]
    for k, v in e.attrib.items():
        if k.startswith("{"):
            if k.startswith("{%s}" % NS):
                bad("attribute-namespace", "%s %s" % (path, k))
            if k.startswith("{%s}" % XLINK) and k.split("}")[1] not in ("href", "actuate", "type", "show"):
                bad("xlink-attribute", "%s %s" % (path, k))
            continue
        typ = req.get(k) or opt.get(k)
        if typ is None:
            bad("unknown-attribute", "%s@%s=%r" % (path, k, v))
        if not typ(v):
            bad("attribute-value", "%s@%s=%r" % (path, k, v))
    for k in req:
        if k not in e.attrib:
            bad("missing-attribute", "%s@%s" % (path, k))
    href, act = e.get("{%s}href" % XLINK), e.get("{%s}actuate" % XLINK)
    if href is not None and act not in (None, "onLoad", "onRequest"):
        bad("xlink-actuate", "%s %r" % (path, act))
    if act is not None and href is None:
        bad("xlink-href", path)
    last, seen = -1, set()
    names = [o.rstrip("*") for o in order] if order is not None else None
    other = False
    for c in e:
        if not isinstance(c.tag, str):
            continue
        if not c.tag.startswith("{%s}" % NS):
            if c.tag.startswith("{"):
                other = True        # Elements of other namespaces come last
                continue
            bad("no-namespace", "%s/%s" % (path, c.tag))
        if names is not None:
            n = ln(c)
            if n not in names:
                bad("unexpected-child", "%s/%s" % (path, n))
            i = names.index(n)
            if i < last or other:
                bad("child-order", "%s: %s after %s" % (path, n, "a foreign element" if other else names[last]))
            if n in seen and not order[i].endswith("*"):
                bad("repeated-child", "%s/%s" % (path, n))
            seen.add(n)
            last = i
        elif ln(c) not in TABLE:
            continue
        element(c, path)
    if name in ("BaseURL", "Location"):
        t = (e.text or "")
        if not t.strip() or re.search(r"\s", t.strip()):
            bad("url", "%s %r" % (path, t))


def unique(values, kind, path):
    values = [v for v in values if v is not None]
    if len(values) != len(set(values)):
        bad(kind, "%s: %r" % (path, values))


def period(p, path="Period"):
    "Rules for a Period beyond the table."
    if p.get("{%s}href" % XLINK) is None and not kids(p, "AdaptationSet"):
        bad("no-adaptation-set", path)
    unique([a.get("id") for a in kids(p, "AdaptationSet")], "adaptation-set-ids", path)
    unique([r.get("id") for a in kids(p, "AdaptationSet") for r in kids(a, "Representation")], "representation-ids", path)
    for a in kids(p, "AdaptationSet"):
        if not kids(a, "Representation"):
            bad("no-representation", path)
        unique([x.get("id") for x in kids(a, "ProducerReferenceTime")], "producer-reference-ids", path)
        keys = [(x.get("schemeIdUri"), x.get("value")) for x in kids(a, "InbandEventStream")]
        if len(keys) != len(set(keys)):
            bad("event-streams", "%s: %r" % (path, keys))
        for r in kids(a, "Representation"):
            if not (r.get("mimeType") or a.get("mimeType")):
                bad("no-mime-type", path)
            if sum(bool(kids(lvl, "SegmentTemplate")) for lvl in (p, a, r)) == 0:
                bad("no-template", path)
    for t in p.iter("{%s}SegmentTemplate" % NS):
        tl = kid(t, "SegmentTimeline")
        media, init = t.get("media", ""), t.get("initialization", "")
        if (tl is None) == (t.get("duration") is None):
            bad("template-duration", "%s: %r and %d timeline" % (path, t.get("duration"), tl is not None))
        if t.get("duration") is not None and int(t.get("duration")) == 0:
            bad("template-duration", "%s: 0" % path)
        if t.get("timescale") is not None and int(t.get("timescale")) == 0:
            bad("timescale", "%s: 0" % path)
        ids = [set(re.findall(r"\$(\w*)(?:%0\d+d)?\$", x)) for x in (media, init)]
        if not ids[0] <= {"", "RepresentationID", "Number", "Time", "Bandwidth", "SubNumber"} or len(ids[0] & {"Number", "Time"}) != 1:
            bad("media-template", "%s: %r" % (path, media))
        if not ids[1] <= {"", "RepresentationID", "Bandwidth"}:
            bad("init-template", "%s: %r" % (path, init))
        if "Time" in ids[0] and tl is None:
            bad("time-without-timeline", "%s: %r" % (path, media))
        if tl is not None:
            for i, s in enumerate(tl):
                if int(s.get("d")) == 0 or int(s.get("r", "0")) < 0:
                    bad("timeline-entry", "%s: %r" % (path, s.attrib))


def mpd(root):
    "The table and the rules for a whole MPD."
    element(root)
    a = root.attrib
    dynamic = a.get("type", "static") == "dynamic"
    if dynamic:
        for k in ("availabilityStartTime", "publishTime"):
            if k not in a:
                bad("missing-attribute", "MPD@%s in a dynamic MPD" % k)
    else:
        for k in ("minimumUpdatePeriod", "timeShiftBufferDepth"):
            if k in a:
                bad("static", "MPD@%s in a static MPD" % k)
    ps = kids(root, "Period")
    if not ps:
        bad("no-period", "MPD")
    if "mediaPresentationDuration" not in a and "minimumUpdatePeriod" not in a and ps[-1].get("duration") is None:
        bad("no-end", "neither MPD@mediaPresentationDuration nor @minimumUpdatePeriod")
    if dur_s(a["minBufferTime"]) <= 0:
        bad("min-buffer-time", a["minBufferTime"])
    if not all(x.strip() and not re.search(r"\s", x.strip()) for x in a["profiles"].split(",")):
        bad("profiles", a["profiles"])
    unique([x.strip() for x in a["profiles"].split(",")], "profiles", "MPD")
    unique([p.get("id") for p in ps], "period-ids", "MPD")
    unique([d.get("id") for d in kids(root, "ServiceDescription")], "service-description-ids", "MPD")
    last_start, last_end = Fraction(-1), None
    for p in ps:
        period(p)
        if p.get("{%s}href" % XLINK) is not None:
            continue
        if dynamic and p.get("id") is None:
            bad("period-id", "a Period of a dynamic MPD without id")
        if p.get("start") is None:
            if last_end is None and p is not ps[0]:
                bad("period-start", "no start, and no duration before")
            continue
        start = dur_s(p.get("start"))
        if start <= last_start:
            bad("period-order", "start %s after %s" % (start, last_start))
        if last_end is not None and start < last_end:
            bad("period-overlap", "start %s before the end %s of the previous" % (start, last_end))
        last_start = start
        last_end = start + dur_s(p.get("duration")) if p.get("duration") is not None else None
