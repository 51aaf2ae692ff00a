from vlib.common import *


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=4, mpdopts=False, multirep=False))
    D = spec["D"]
    S = draw(strat.epochs())
    if draw(st.booleans()):
        S = S // D * D
    o = [[draw(st.sampled_from(["start", "start", "ast"])), str(S)]]
    mode = draw(st.sampled_from(["dur", "dur", "stop", "open"]))
    durs = []
    if mode == "dur":
        for _ in range(draw(st.integers(1, 3))):
            d = draw(st.one_of(st.integers(1, 30).map(lambda x: x * D), st.integers(D, 300)))
            durs.append(d)
            o.append(["dur", str(d)])
    elif mode == "stop":
        o.append(["stop", str(S // D * D + draw(st.one_of(st.integers(1, 30).map(lambda x: x * D), st.integers(1, 300),
                                                             st.tuples(st.integers(1, 30), st.sampled_from([-1, 1, 1, 2])).map(lambda x: x[0] * D + x[1]),
                                                             st.just(D if S % D else 0))))])
    if draw(st.booleans()):
        o.append(["mup", str(draw(st.sampled_from([0, 1, 2, 5, 10, 30, 100, 86400])))])
    if draw(st.booleans()):
        o.append(["snr", str(draw(st.sampled_from([-1, 0, 1, 5, 900])))])
    if draw(st.booleans()):
        o.append(["tsbd", str(draw(st.sampled_from([0, 5, 30, 200])))])
    if draw(st.integers(0, 3)) == 0:
        o.append(["ato", draw(st.sampled_from(["1", "2.5", "inf", "20"]))])
    if draw(st.integers(0, 3)) == 0:
        o.append(["timeoffset", str(S // D * D - draw(st.integers(0, 50)) * D)])
    o = list(draw(st.permutations(o)))
    # request times: [anchor, delta]
    pr = [[draw(st.sampled_from(["start", "switch0", "switch1", "switch2", "end", "end60", "mid"])),
           draw(st.one_of(st.sampled_from(list(DELTAS) + [2.0, -2.0]), st.integers(-60, 60).map(float), st.integers(-640, 640).map(lambda x: x / 64))),
           draw(st.sampled_from([-2, -1, 0, 0, 0, 1, 3])), draw(st.sampled_from(["avail", "same", "late"]))]
          for _ in range(draw(st.integers(2, 6)))]
    return {"spec": spec, "opts": o, "probes": pr}


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    D = c.D
    s0 = Session(c, opts, 0)
    durs = [int(v) for k, v in opts if k == "dur"]
    stopv = [int(v) for k, v in opts if k == "stop"]
    S = [int(v) for k, v in opts if k in ("start", "ast")][0]
    lastN = s0.last if s0.last is not None else (s0.beyond - 1 if s0.beyond is not None else None)
    anchors = {"start": s0.ast, "mid": s0.ast + 5 * D}
    tot = 0
    for i, d in enumerate(durs):
        tot += d
        anchors["switch%d" % i] = (S + tot) // D * D - 2 * s0.mup
    if lastN is not None:
        anchors["end"] = s0.end_of(lastN)
        anchors["end60"] = s0.end_of(lastN) + 60
    for name, delta, dn, when in case["probes"]:
        now = float(anchors.get(name, s0.ast) + delta)
        if now < 0:
            continue
        s = Session(c, opts, now)
        what = "opts %s at %r" % (opts, now)
        m = load_mpd(getmpd(c, opts, now), what)
        eq(m.ast, s.ast, "mpd-ast", what)
        if durs:
            eq(lexd(m.a.get("availabilityEndTime"), what), s.aet, "mpd-aet", what)
            eq(lexs(m.a.get("mediaPresentationDuration"), what), s.pres, "mpd-duration", what)
            stats.label("mpd duration choice")
        elif stopv:
            eq(lexs(m.a.get("mediaPresentationDuration"), what), s.pres, "mpd-duration", what)
            typ = "static" if int(now) > s.stop else "dynamic"
            eq(m.a.get("type"), typ, "mpd-type", what)
            stats.label("stop " + typ)
        else:
            check("availabilityEndTime" not in m.a and "mediaPresentationDuration" not in m.a, "mpd-unbounded", what)
            eq(m.a.get("type"), "dynamic", "mpd-type", what)
        N = (lastN if lastN is not None else s0.first) + dn
        t, r = pick_rep(c, dn + 2)
        e = s0.end_of(N)
        segnow = {"avail": max(e, 0.0), "same": now, "late": float(e + D + s.tsbd)}[when]
        if segnow < 0:
            continue
        s = Session(c, opts, segnow)
        want = s.available(N, segnow)
        resp = getseg(c, opts, r, N, segnow)
        what = "segment %d (last %s) opts %s at %r: %s %r" % (N, lastN, opts, segnow, resp.status, resp.body[:80] if resp.code != 200 else "")
        eq(resp.code, 200 if want else 404, "availability", what)
        stats.label("segment %+d %s" % (dn, resp.code))
        if want:
            _, brands = brands_of(resp.body, what)
            eq(b"lmsg" in brands, s.lmsg(N), "lmsg", what)
            if s.lmsg(N):
                stats.label("lmsg")
        stats.nt(lastN is not None and abs(dn) <= 1)


def lexd(v, what):
    check(v is not None, "attribute-missing", what)
    return M_lex_dt(v)


def lexs(v, what):
    check(v is not None, "attribute-missing", what)
    return M_lex_dur(v)


from vlib.mpd import dur_s as M_lex_dur, lex_datetime as M_lex_dt   # noqa: E402


def brands_of(body, what):
    boxes = parse_boxes(body, what)
    styp = M.find(boxes, "styp")
    check(styp is not None, "no-styp", what)
    maj, _, br = M.parse_styp(styp)
    return maj, br


SUBS = [Sub("sessions", cases(), prop, quick=2400, thorough=90000,
            rule="a bounded session (dur_ or stop_) with a segment request for one of the three numbers around its end")]
