"""Manifest attributes of sessions against the session model."""
import copy
import re

from vlib.common import *
from vlib.mpd import canon_elem, dur_s, kid, kids, lex_datetime, lex_duration, ln, parse
from vlib.model import Refused

DAY = 86400
DURS = st.one_of(st.sampled_from([30 * DAY, 31 * DAY, 365 * DAY, 365 * DAY + 3600, 400 * DAY + 61, 1000 * DAY, 50 * 365 * DAY, 2 ** 31, 2 ** 33]),
                 st.sampled_from([0, 1, 30, 59, 60, 61, 3599, 3600, 3660, DAY - 1, DAY, DAY + 1, DAY + 60, 2 * DAY, 7200]),
                 st.integers(0, 10 ** 6))
HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]


@st.composite
def cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video",), ("audio",), ("video", "audio", "subtitles")]))
    spec = draw(strat.specs(kind="plain", maxn=3, types=[t for t in types if t != "subtitles"]))
    if "subtitles" in types:
        spec["tracks"].append({"type": "subtitles", "ts": 1000, "fd": spec["D"] * 1000, "fb": list(range(spec["n"] + 1)), "reps": [
            {"id": "S1", "tid": 1, "fmt": {"styp": ["msdh"], "tfhd": 0x20018, "trun": 1, "tfdt_v": 0}, "docs": ["<tt>x</tt>"]}]})
    spec = draw(strat.with_images(spec))
    spec["mpd"]["baseurl"] = draw(st.sampled_from([0, 0, 0, 1]))
    spec["mpd"]["title"] = draw(st.sampled_from(["t", "ns0: p1 &amp; &lt;x&gt;", "åäö 日本", "AdaptationSet"]))
    D = spec["D"]
    o = []
    mode = draw(st.sampled_from(["plain", "plain", "start", "start", "stop", "dur", "tfdt", "cont", "modulo", "rel", "relopen"]))
    S = draw(strat.epochs())
    anchor = S
    if mode in ("start", "stop", "dur"):
        o.append(["start", str(S)])
    if mode == "stop":
        o.append(["stop", str(S + draw(st.integers(0, 4000)))])
        anchor = draw(st.sampled_from([S, int(o[-1][1])]))
    if mode == "dur":
        for _ in range(draw(st.integers(1, 2))):
            d = draw(st.one_of(st.integers(D, 4000), st.sampled_from([3600, DAY, 2 * DAY, 7200])))
            o.append(["dur", str(d)])
    if mode == "tfdt":
        o.append(["tfdt", "32"])
    if mode == "cont":
        o.append(["cont", "1"])
    if mode == "modulo":
        o.append(["modulo", str(draw(st.sampled_from(HOUR_DIV)))])
    if mode == "rel":
        o.append(["startrel", str(-draw(st.integers(0, 400)))])
        o.append(["stoprel", str(draw(st.integers(max(-20, int(dict(o)["startrel"])), 400)))])   # never ends before it starts
    if mode == "relopen":
        o.append(["startrel", str(-draw(st.integers(0, 400)))])
    if draw(st.booleans()):
        o.append(["tsbd", str(draw(DURS))])
    if draw(st.booleans()) and mode not in ("dur",):
        o.append(["mup", str(draw(DURS))])
    if draw(st.booleans()):
        o.append(["spd", str(draw(DURS))])
    if draw(st.booleans()):
        o.append(["ato", draw(st.sampled_from(["0", "1", "0.5", "inf", "-1", "2.25", "100", "foo"]))])
    if draw(st.booleans()):
        o.append(["snr", str(draw(st.sampled_from([-1, 0, 1, 5, 900])))])
    if draw(st.integers(0, 3)) == 0:
        o.append(["init", str(draw(st.integers(0, 100)))])
    tl = draw(st.sampled_from(["", "", "", "segtimeline", "segtimelinenr"]))
    if tl:
        o.append([tl, draw(st.sampled_from(["1", "1", "0"]))])
        # keep the number of listed segments bounded
        tb = [x for x in o if x[0] == "tsbd"]
        if tb and int(tb[0][1]) > 3000:
            tb[0][1] = str(int(tb[0][1]) % 3000)
    o = list(draw(st.permutations(o)))
    return {"spec": spec, "opts": o, "times": [max(0.0, anchor + x + f) for x, f in draw(st.lists(st.tuples(
        st.one_of(st.integers(0, 500), st.sampled_from([-D, -1, 0, 1, D]), st.integers(0, 4 * DAY)), strat.frac()), min_size=1, max_size=3))]}


DROP_ATTR = ("startNumber", "presentationTimeOffset", "duration", "timescale")


def aset_canon(a, timeline):
    a = copy.deepcopy(a)
    timeline = timeline and a.get("contentType") != "image"
    for t in kids(a, "SegmentTemplate"):
        for k in DROP_ATTR:
            t.attrib.pop(k, None)
        if timeline:
            for x in kids(t, "SegmentTimeline"):
                t.remove(x)
            t.text = ""
            t.set("media", t.get("media").replace("t$Time$", "$Number$"))
    return canon_elem(a)


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    od = dict(opts)
    tl = od.get("segtimeline") == "1" or od.get("segtimelinenr") == "1"
    vod = parse(c.mpd_xml())
    for now in case["times"]:
        s = Session(c, opts, now)
        if tl and (now < s.ast or ((int(now) - s.ast) > 20000 and s.stop is not None)):
            continue
        what = "opts %s at %r" % (opts, now)
        r = getmpd(c, opts, now)
        m = load_mpd(r, what)
        check(r.body.startswith(b"<?xml") or r.body.startswith(b"<MPD"), "xml-prolog", what)
        a = m.a
        static = s.stop is not None and int(now) > s.stop
        eq(a.get("type"), "static" if static else "dynamic", "type", what)
        eq(m.ast, s.ast, "availabilityStartTime", what)
        eq(lex_datetime(a.get("publishTime")), int(now), "publishTime", what)
        if s.pres is not None:
            eq(dur_s(a.get("mediaPresentationDuration")), s.pres, "mediaPresentationDuration", what)
        else:
            check("mediaPresentationDuration" not in a, "mediaPresentationDuration-kept", what)
        if s.aet is not None:
            eq(lex_datetime(a.get("availabilityEndTime")), s.aet, "availabilityEndTime", what)
        else:
            check("availabilityEndTime" not in a, "availabilityEndTime-extra", what)
        if s.stop is not None:      # all of a session that has a stop time stays available
            if "timeShiftBufferDepth" in a:
                eq(dur_s(a["timeShiftBufferDepth"]), s.tsbd, "timeShiftBufferDepth", what)
        else:
            eq(dur_s(a.get("timeShiftBufferDepth")), s.tsbd, "timeShiftBufferDepth", what)
        mup = a.get("minimumUpdatePeriod")
        if static:
            check(mup is None, "minimumUpdatePeriod-static", what)
        elif tl:
            eq(lex_duration(mup), (0, 0), "minimumUpdatePeriod", what)
        elif s.mup is None:
            eq(lex_duration(mup)[0] >= 12, True, "minimumUpdatePeriod-default", what + " " + str(mup))
        else:
            eq(dur_s(mup), s.mup, "minimumUpdatePeriod", what)
        if tl:
            check("maxSegmentDuration" not in a, "maxSegmentDuration-extra", what)
        else:
            eq(dur_s(a.get("maxSegmentDuration")), c.D, "maxSegmentDuration", what)
        if "spd" in od:
            eq(dur_s(a.get("suggestedPresentationDelay")), int(od["spd"]), "suggestedPresentationDelay", what)
        else:
            check("suggestedPresentationDelay" not in a, "suggestedPresentationDelay-extra", what)
        # Base URL and its availability time offset
        if "startrel" in od or "stoprel" in od:
            check(not m.baseurls, "baseurl-and-location", what)
        else:
            eq(len(m.baseurls), 1, "baseurl-count", what)
            b = m.baseurls[0]
            ato = b.get("availabilityTimeOffset")
            if s.ato is None:
                eq(ato, "INF", "availabilityTimeOffset", what)
            elif s.ato > 0:
                check(ato is not None and re.match(r"^\d+(\.\d+)?$", ato) and F(ato) == s.ato, "availabilityTimeOffset",
                      "%s: %r" % (what, ato))
            else:
                check(ato is None, "availabilityTimeOffset-extra", "%s: %r" % (what, ato))
        # Everything of the VoD MPD that is not timing is kept
        eq(len(m.periods), 1, "period-count", what)
        p = m.periods[0]
        eq([aset_canon(x, tl) for x in kids(p, "AdaptationSet")],
           [aset_canon(x, tl) for x in kids(kid(vod, "Period"), "AdaptationSet")], "adaptation-sets", what)
        eq([canon_elem(x) for x in kids(m.root, "ProgramInformation")],
           [canon_elem(x) for x in kids(vod, "ProgramInformation")], "program-information", what)
        for k in ("minBufferTime", "profiles"):
            eq(a.get(k), vod.get(k), "kept-attribute", what + " " + k)
        eq(dur_s(p.get("start")), 0, "period-start", what)
        for _a, rep, tm in m.reps(p):
            image = _a.get("contentType") == "image"      # Always described with numbers
            check(not image or tm.timeline is None, "image-timeline", what)
            if od.get("segtimeline") == "1" and not image:
                continue
            if od.get("segtimelinenr") != "1" or image:
                snr = s.first
                eq(tm.start_number, snr, "startNumber", what + " rep " + rep.get("id"))
                eq(F(tm.duration, tm.timescale), c.D, "duration", what)
            eq(F(tm.pto, tm.timescale), s.mt0, "presentationTimeOffset", what)
        stats.nt(len(opts) > 1)
        if any(k in od and int(od[k]) and int(od[k]) % DAY == 0 for k in ("tsbd", "mup", "spd")) or (s.pres and s.pres % DAY == 0):
            stats.label("whole days")
        stats.label("static" if static else "dynamic")
        if tl:
            stats.label("timeline")


SUBS = [Sub("attributes", cases(), prop, quick=3200, thorough=120000, rule="a manifest with two or more options")]
