"""Lossy base URLs: schedule model, differential against the loss-free URL, frozen timelines."""
from vlib.common import *
from vlib.model import timeline
from vlib.mpd import canon_elem, kid, kids, lex_datetime, ln, path_of

EV = "urn:mpeg:dash:event:2012"


def spec_strategy():
    return strat.specs(kind="full", maxn=3, multirep=False, types=("video", "audio"), jitter=True)


@st.composite
def sched(draw):
    f = draw(st.sampled_from("ud"))
    x = draw(st.one_of(st.sampled_from([5, 10, 20, 30, 40, 59, 60, 1]), st.integers(1, 70)))
    y = draw(st.one_of(st.sampled_from([60 - x if x < 60 else 10, 10, 20, 1]), st.integers(1, 70)))
    return [f, x, max(1, y)]


def txt(s):
    return "%s%d_%s%d" % (s[0], s[1], "d" if s[0] == "u" else "u", s[2])


def state(s, now_i):
    "'up', 'down' or 'last' (up-first: the last second before going down)."
    f, x, y = s
    p = now_i % 60
    q, r = divmod(p, x + y)
    if f == "u":
        if r == x:
            return "last"
        # (q*tot + x, (q+1)*tot] is down
        if r > x or (r == 0 and q > 0):
            return "down"
        return "up"
    return "down" if 0 < r <= x else "up"


SCTE = "urn:scte:scte35:2013:xml"
ADDED = ("http://dashif.org/guidelines/adin/app", "http://www.dashif.org/guidelines/low-latency-live-v5")


def last_up(s, now_i):
    "Latest second at which an up-first schedule was up (now is down)."
    f, x, y = s
    p = now_i % 60
    q, r = divmod(p, x + y)
    if r == 0:
        q -= 1
    return now_i - p + q * (x + y) + x


@st.composite
def base_cases(draw, loss=False):
    spec = draw(spec_strategy())
    spec["mpd"]["profiles"] = draw(st.sampled_from(["urn:mpeg:dash:profile:isoff-live:2011",
                                                    "urn:mpeg:dash:profile:isoff-live:2011,http://dashif.org/guidelines/dash-if-simple",
                                                    "http://dashif.org/guidelines/dash-if-simple,x"]))
    spec["mpd"]["pid"] = "p0"
    spec = draw(strat.with_images(draw(strat.with_subs(spec))))
    D = spec["D"]
    S = draw(strat.epochs())
    nb = 1 if draw(st.integers(0, 2)) else draw(st.integers(1, 3))
    ss = [draw(sched()) for _ in range(nb)]
    o = []
    if draw(st.booleans()):
        back = draw(st.one_of(st.integers(60, 1000), st.integers(-60, 60)))
        o.append(["start", str(S - back)])
        if draw(st.integers(0, 3)) == 0:
            ast = (S - back) // D * D
            o.append(["timeoffset", str(draw(st.one_of(st.just(0), st.integers(0, 50).map(lambda j: ast - j * D))))])
    for kk, vv in (("snr", "3"), ("tsbd", str(draw(st.sampled_from([10, 60, 200])))), ("ato", "1"), ("utc", "head"),
                   ("chunkdur", "2"), ("scte35", "2"), ("sidx", "1")):
        if draw(st.integers(0, 3)) == 0:
            o.append([kk, vv])
    if draw(st.booleans()) or loss:
        o.append([draw(st.sampled_from(["segtimeline", "segtimelinenr"])), "1"])
    if loss:
        o.append(["segtimelineloss", draw(st.sampled_from(["1", "1", "1", "0"]))])
    o = list(draw(st.permutations(o)))
    # put the baseurl options at drawn places, in order
    pos = sorted(draw(st.lists(st.integers(0, len(o)), min_size=nb, max_size=nb)))
    for j, (p, s) in enumerate(zip(pos, ss)):
        o.insert(p + j, ["baseurl", txt(s)])
    minute = S // 60 * 60
    secs = []
    for s in ss:
        tot = s[1] + s[2]
        for b in range(0, 60, tot):
            secs += [b - 1, b, b + 1, b + s[1] - 1, b + s[1], b + s[1] + 1]
    secs = [x for x in secs if 0 <= x < 60]
    times = draw(st.lists(st.tuples(st.one_of(st.sampled_from(secs), st.integers(0, 59)), strat.frac()), min_size=1, max_size=4))
    return {"spec": spec, "opts": o, "scheds": ss, "times": [minute + a + b for a, b in times], "back": draw(st.integers(0, 2)),
            "rep": draw(st.integers(0, 2))}


def prop(case, stats):
    c = materialize(case["spec"])
    opts, ss = case["opts"], case["scheds"]
    plain = [o for o in opts if o[0] not in ("baseurl", "segtimelineloss")]
    url = "http://example.com" + mpd_path(opts, c)
    for now in case["times"]:
        s = Session(c, opts, now)
        what = "opts %s at %r" % (opts, now)
        if now < s.ast and ("segtimeline" in dict(opts) or "segtimelinenr" in dict(opts)):
            continue
        m = load_mpd(getmpd(c, opts, now), what)
        eq(len(m.baseurls), len(ss), "baseurl-count", what)
        if now < s.ast + 3 * c.D + s.D * 2:
            continue
        k = int((F(now) + (s.ato or 0) - s.ast) // c.D) - 1 - case["back"]
        if k < 0:
            continue
        N = s.first + k
        t, rep = pick_rep(c, case["rep"], ("video", "audio", "subtitles"))
        for i, sc in enumerate(ss):
            base = m.base(url, i)
            parts = base.split("/")
            eq([p for p in parts if p.startswith("baseurl_")], ["baseurl_" + txt(sc)], "baseurl-option", "%s: %s" % (what, base))
            eq(sorted(p for p in parts[4:] if p and not p.startswith("baseurl_")),
               sorted(["%s_%s" % (a, b) for a, b in opts if a != "baseurl"] + [c.name]), "baseurl-other-options", "%s: %s" % (what, base))
            relpath = c.reldir(rep) + "/"
            name = "%d.m4s" % N
            if "segtimeline" in dict(opts):
                j, loops = s.source(N)
                name = "t%d.m4s" % (c.bounds(t)[j] + loops * c.loop_ticks(t))
            path, host, _ = path_of(base, relpath + name)
            got = get(c, path, now, host=host)
            ref = get(c, "/" + "/".join(["livesim"] + ["%s_%s" % tuple(o) for o in plain] + [c.name, relpath + name]), now)
            w = "%s via %s" % (what, path)
            if s.available(N, now):
                need200(ref, w + " without loss")
            sta = state(sc, int(now))
            stats.label(sta if ref.code == 200 else "not available")
            stats.nt(sta != "up" and ref.code == 200)
            if sta == "down" or ref.code != 200:
                eq(got.code, 404, "served-while-down", w)
                continue
            need200(got, w)
            if sta == "up":
                check(got.body == ref.body, "changed-while-up", w)
                continue
            boxes = parse_boxes(got.body, w)
            em = [b for b in boxes if b.type == b"emsg"]
            eq(len(em), 1 + len(M.findall(parse_boxes(ref.body, w), "emsg")), "event-count", w)
            i_moof = [b.type for b in boxes].index(b"moof")
            mine = [j for j in range(i_moof) if boxes[j].type == b"emsg" and M.parse_emsg(boxes[j])["scheme"] == EV]
            eq(len(mine), 1, "event-place", "%s: %s" % (w, [b.type for b in boxes]))
            e = M.parse_emsg(boxes[mine[0]])
            eq(e["value"], "1", "event-value", w)
            check(b"styp" not in [b.type for b in boxes[mine[0]:i_moof]], "event-before-styp", w)
            eq(lex_datetime(e["message"].rstrip(b"\0").decode("ascii")), int(now), "event-message", w)
            rest = b"".join(b.data for j, b in enumerate(boxes) if j != mine[0])
            check(rest == ref.body, "rest-changed", w)


def prop_loss(case, stats):
    c = materialize(case["spec"])
    opts, sc = case["opts"], case["scheds"][0]
    on = dict(opts)["segtimelineloss"] == "1"
    nr = "segtimelinenr" in dict(opts)
    for now in case["times"]:
        what = "opts %s at %r" % (opts, now)
        sta = state(sc, int(now)) if on else "up"
        eff = float(last_up(sc, int(now))) if sta == "down" and sc[0] == "u" else now
        s = Session(c, opts, now)
        if now < s.ast:
            continue
        if eff < s.ast:
            stats.label("down since before the start")
            eff = s.ast
        m = load_mpd(getmpd(c, opts, now), what)
        for p in m.periods:
            for a, r, tm in m.reps(p):
                t, rep = c.rep(r.get("id"))
                if t["type"] == "image":
                    check(tm.timeline is None, "image-timeline", what)
                    continue
                j0, want = timeline(s, c, t, int(eff))
                eq(tm.entries(), [(x[1], x[2]) for x in want], "frozen-timeline" if sta == "down" else "timeline",
                   "%s rep %s" % (what, rep["id"]))
                if nr and want:
                    eq(tm.start_number, s.first + j0 - s.mt0 // c.D, "start-number", what)
            for a in kids(p, "AdaptationSet"):
                ev = [(e.get("schemeIdUri"), e.get("value")) for e in kids(a, "InbandEventStream")
                      if e.get("schemeIdUri") not in (SCTE, "urn:x:e")]   # the last is the content's own
                eq(ev, [(EV, "1")] if sta == "last" else [], "event-stream", what)
        prof = case["spec"]["mpd"]["profiles"]
        if on:
            prof = prof.replace("dash-if-simple", "dash-if-main")
        got = ",".join(x for x in m.a.get("profiles").split(",") if x not in ADDED)   # of scte35 and chunkdur
        eq(got, prof, "profiles", what)
        stats.label(sta if on else "off")
        stats.nt(sta != "up")


SUBS = [Sub("segments", base_cases(), prop, quick=2000, thorough=80000, rule="an available segment requested while down or in the last second"),
        Sub("timeline-loss", base_cases(loss=True), prop_loss, quick=1600, thorough=60000,
            rule="a manifest requested in a down interval or in the last second before one")]
