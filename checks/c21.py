"""SCTE-35 cues against the break schedule."""
import re
import xml.etree.ElementTree as ET

from vlib.seggen import *
from vlib.mpd import kids

BREAKS = {1: (10,), 2: (10, 40), 3: (10, 36, 46)}
SCHEME = "urn:scte:scte35:2013:xml"


def expected(n, start, end):
    "Start times of the breaks announced by a segment [start, end] (media seconds)."
    res = []
    for minute in range(start // 60 - 1, end // 60 + 2):
        for b in BREAKS[n]:
            t = minute * 60 + b
            if t >= 8 and any(start <= t - w <= end for w in (8, 6)):
                res.append(t)
    return res


@st.composite
def cases(draw):
    D = draw(st.one_of(st.integers(1, 10), st.integers(1, 30)))
    types = draw(st.sampled_from([("video", "audio"), ("video", "audio"), ("video",), ("audio",)]))
    spec = draw(strat.specs(kind="simple", types=types, Ds=[D], maxn=4, mpdopts=False))
    for t in spec["tracks"]:
        for r in t["reps"]:
            if r["fmt"].get("styp") is None:
                r["fmt"]["styp"] = ["msdh"]
            if draw(st.integers(0, 2)) == 0:        # several fragments, as of low-latency content
                r["fmt"]["nfrag"] = draw(st.sampled_from([2, 3]))
                r["fmt"]["mid"] = draw(st.lists(st.sampled_from(["prft", "free", "styp", "styp"]), max_size=2))
            r["fmt"]["pre"] = [x for x in r["fmt"].get("pre", []) if x != "emsg"]
    o = {}
    if draw(st.integers(0, 2)) == 0:
        o["start"] = draw(strat.epochs())
        if draw(st.booleans()):
            ast = o["start"] // D * D
            o["timeoffset"] = draw(st.one_of(st.just(0), st.integers(0, 100).map(lambda j: ast - j * D)))
    if draw(st.integers(0, 2)) == 0:
        o["snr"] = draw(st.sampled_from([-1, 0, 1, 7, 12345]))
    n = draw(st.sampled_from([1, 2, 3, 3]))
    # media times around the announcement instants and the 33-bit wrap
    times = []
    for _ in range(draw(st.integers(1, 4))):
        base = draw(st.one_of(st.integers(0, 60), st.integers(0, 25_000_000), st.sampled_from([2 ** 33 // 90000 // 60 * j for j in (1, 2, 100)])))
        sec = draw(st.one_of(st.sampled_from([b - w for b in BREAKS[n] for w in (8, 6)]).flatmap(lambda x: st.integers(x - D - 1, x + 1)),
                             st.integers(0, 59)))
        times.append(max(0, base * 60 + sec))
    cd = draw(st.sampled_from([None, None, None, "1", "2", "20"]))
    return {"spec": spec, "opts": optlist(draw, o), "n": n, "mt": times, "dt": draw(strat.frac()), "cd": cd}


def message(e, what):
    txt = e["message"].decode("utf-8")
    try:
        root = ET.fromstring('<x xmlns:scte35="urn:x">%s</x>' % re.sub(r"^<\?xml[^>]*\?>", "", txt))
    except ET.ParseError as exc:
        raise Violation("emsg-xml", "%s: %s in %r" % (what, exc, txt))

    def loc(x):
        return x.tag.split("}")[-1]
    got = {}
    for el in root.iter():
        if loc(el) == "SpliceInsert":
            got["id"] = int(el.get("spliceEventId"))
            got["cancel"] = el.get("spliceEventCancelIndicator")
            got["immediate"] = el.get("spliceImmediateFlag")
        elif loc(el) == "SpliceTime":
            got["pts"] = int(el.get("ptsTime"))
        elif loc(el) == "BreakDuration":
            got["dur"] = int(el.get("duration"))
        elif loc(el) == "SpliceInfoSection":
            got["adj"] = int(el.get("ptsAdjustment"))
    return got


def prop(case, stats):
    c = materialize(case["spec"])
    n = case["n"]
    ids = {}
    D = c.D
    for mt in case["mt"]:
        s0 = Session(c, case["opts"], 0)
        k = (mt - s0.mt0) // D
        if k < 0:
            continue
        start = s0.mt0 + k * D
        want = expected(n, start, start + D)
        for t, r in c.reps():
            s, N, now, plain = served(case, k, t, r, c)
            extra = [["scte35", str(n)]]
            if case.get("cd"):      # low-latency mode
                stats.label("chunked")
                extra.append(["chunkdur", case["cd"]])
                _, _, _, plain = served(case, k, t, r, c, extra_opts=extra[1:])
            _, _, _, got = served(case, k, t, r, c, extra_opts=extra)
            what = "scte35_%d N=%d media time %d..%d (second %d) rep %s opts %s" % (n, N, start, start + D, start % 60, r["id"], case["opts"])
            boxes = parse_boxes(got.body, what)
            em = M.findall(boxes, "emsg")
            rest = b"".join(b.data for b in boxes if b.type != b"emsg")
            check(rest == plain.body, "rest-changed", what)
            if t["type"] != "video" or not want:
                eq(len(em), 0, "unexpected-cue", what)
                stats.label("no cue")
                continue
            eq(len(em), len(want), "missing-cue", "%s: breaks at %s" % (what, want))
            eq([b.type for b in boxes[1:1 + len(em)]], [b"emsg"] * len(em), "cue-position", what)
            cues = [M.parse_emsg(b) for b in em]
            eq(sorted(start + F(e["delta"], e["timescale"]) for e in cues), want, "cue-time", what)
            for e in cues:
                eq((e["scheme"], e["value"], e["timescale"]), (SCHEME, "999", 90000), "cue-scheme", what)
                brk = start + e["delta"] // 90000
                eq(e["duration"], 10 * 90000, "cue-duration", what)
                m = message(e, what)
                eq((m["pts"] + m["adj"]) % 2 ** 33, brk * 90000 % 2 ** 33, "splice-time", what)
                eq(m["dur"], 10 * 90000, "splice-duration", what)
                eq((m["cancel"], m["immediate"]), ("false", "false"), "splice-flags", what)
                eq(ids.setdefault(brk, (e["id"], m["id"])), (e["id"], m["id"]), "cue-id", what)
                if (start + D) % 60 < D and brk // 60 > start // 60:
                    stats.label("cue of the next minute")
            stats.nt()
            stats.label("cue" if len(want) == 1 else "several cues in one segment")
    vals = list(ids.values())
    check(len(set(v[0] for v in vals)) == len(vals), "ids-not-unique", "%s" % ids)


@st.composite
def run_cases(draw):
    case = draw(cases())
    case["mt"] = case["mt"][:1]
    return case


def schedule(case, stats):
    "All segments of two consecutive minutes: every break is announced, once per instant, with one id."
    c = materialize(case["spec"])
    v = c.track("video")
    if v is None:
        return
    n, D = case["n"], c.D
    s0 = Session(c, case["opts"], 0)
    lo = max(0, (case["mt"][0] - s0.mt0) // D)
    ks = range(lo, lo + 120 // D + 3)
    seen = {}
    for k in ks:
        s, N, now, got = served(case, k, v, v["reps"][0], c, extra_opts=[["scte35", str(n)]])
        start = s0.mt0 + k * D
        cues = [M.parse_emsg(b) for b in M.findall(parse_boxes(got.body), "emsg")]
        what = "scte35_%d N=%d media time %d..%d opts %s" % (n, N, start, start + D, case["opts"])
        eq(sorted(start + F(e["delta"], e["timescale"]) for e in cues), expected(n, start, start + D), "missing-cue", what)
        for e in cues:
            t = F(e["delta"], e["timescale"]) + start
            seen.setdefault(t, []).append((start, e["id"]))
    a, z = s0.mt0 + ks[0] * D, s0.mt0 + (ks[-1] + 1) * D
    what = "scte35_%d media time %d..%d opts %s" % (n, a, z, case["opts"])
    want = set()
    for minute in range(a // 60, z // 60 + 2):
        for b in BREAKS[n]:
            t = minute * 60 + b
            if a <= t - 8 and t - 6 < z:
                want.add(t)
                if t not in seen:
                    raise Violation("break-not-announced", "%s: break at %d" % (what, t))
    for t, lst in seen.items():
        check(t % 60 in BREAKS[n], "not-a-break", "%s: %s" % (what, t))
        check(len(set(i for _, i in lst)) == 1, "several-ids", "%s: %s" % (what, lst))
        for start, _ in lst:
            check(any(start <= t - w <= start + D for w in (6, 8)), "announced-elsewhere", "%s: break %s in segment at %d" % (what, t, start))
    stats.nt(len(want) >= 2)


@st.composite
def mpd_cases(draw):
    types = draw(st.sampled_from([("video", "audio"), ("video",), ("audio",)]))
    spec = draw(strat.specs(kind="plain", maxn=3, types=types, Ds=[1, 2, 3, 4, 6, 10]))
    o = {}
    if draw(st.booleans()):
        o["periods"] = draw(st.sampled_from([1, 6, 12, 60]))
    if draw(st.booleans()):
        o["scte35"] = draw(st.sampled_from([0, 1, 2, 3]))
    if draw(st.integers(0, 3)) == 0:
        o["segtimeline"] = 1
    if draw(st.integers(0, 3)) == 0:
        o["continuous"] = 1
    live, own = "urn:mpeg:dash:profile:isoff-live:2011", "http://dashif.org/guidelines/adin/app"
    spec["mpd"]["profiles"] = draw(st.sampled_from([live, live, live + ",urn:x", own, own + "," + live, live + "," + own + ",urn:x",
                                                    "urn:x," + live + "," + own]))
    return {"spec": spec, "opts": optlist(draw, o), "now": float(draw(strat.epochs()))}


def mpd(case, stats):
    c = materialize(case["spec"])
    od = dict(case["opts"])
    what = "opts %s at %r" % (case["opts"], case["now"])
    m = load_mpd(getmpd(c, case["opts"], case["now"]), what)
    on = int(od.get("scte35", 0)) > 0
    for p in m.periods:
        for a in kids(p, "AdaptationSet"):
            ev = [e for e in kids(a, "InbandEventStream") if e.get("schemeIdUri") == SCHEME]
            want = 1 if on and a.get("contentType") == "video" else 0
            eq(len(ev), want, "inband-event-stream", "%s %s" % (what, a.get("contentType")))
            for e in ev:
                eq(e.get("value"), "999", "inband-value", what)
            if want:
                stats.nt()
    has = case["spec"]["mpd"]["profiles"].split(",")
    prof = "http://dashif.org/guidelines/adin/app"
    got = m.a["profiles"].split(",")
    eq(sorted(got), sorted(has + [prof] if on and prof not in has else has), "profile", what)


SUBS = [Sub("segments", cases(), prop, quick=1600, thorough=40000, rule="a video segment that carries a cue"),
        Sub("schedule", run_cases(), schedule, quick=250, thorough=5000, rule="at least two breaks in the two minutes of segments fetched"),
        Sub("mpd", mpd_cases(), mpd, quick=300, thorough=6000, rule="an MPD with the event stream announced")]
