"""Early-terminated periods and callback events: against the divisor model, and against the manifest without the options."""
import copy

from vlib.common import *
from vlib.mpd import canon_elem, dur_s, kid, kids, ln

HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
CB = "urn:mpeg:dash:event:callback:2015"


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=2, types=draw(st.sampled_from([("video", "audio"), ("video",)])), multirep=False))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    n = draw(st.sampled_from(HOUR_DIV + [60, 60, 30, 20, 61, 90]))
    k = min(n, 60)
    pd = 3600 // k
    o = []
    if draw(st.integers(0, 9)) > 0:
        o.append(["periods", str(n)])
    divs = [m for m in range(1, 61) if k % m == 0]
    ms = st.one_of(st.sampled_from(divs), st.sampled_from(divs), st.sampled_from(divs), st.sampled_from([0, 61, 120, 7]),
                   st.integers(1, 70))
    f = draw(st.integers(1, 3))
    if f & 1:
        o.append(["etp", str(draw(ms))])
        if draw(st.booleans()):
            o.append(["etpDuration", str(draw(st.one_of(st.sampled_from([0, 1, pd - 1, pd, pd + 1, D]), st.integers(0, pd + 5))))])
    if f & 2:
        o.append(["mpdcallback", str(draw(ms))])
    for kk, vv in (("continuous", "1"), ("snr", "5"), ("tsbd", str(draw(st.sampled_from([0, 30, pd, 3 * pd])))), ("scte35", "1")):
        if draw(st.integers(0, 3)) == 0:
            o.append([kk, vv])
    if draw(st.integers(0, 4)) == 0:
        o.append(["segtimelinenr", "1"])
    so, ast = draw(strat.session_opts(D))
    o = list(draw(st.permutations(o + so)))
    S = draw(st.one_of(st.integers(400_000, 1_800_000_000), st.integers(400_000, 1_800_000_000), st.integers(0, 4 * pd))) // pd * pd
    if so:
        S = ast + draw(st.one_of(st.integers(0, 4), st.integers(0, 100))) * pd
    return {"spec": spec, "opts": o, "now": float(S + draw(st.integers(0, 2 * pd)) + draw(strat.frac())),
            "host": draw(st.sampled_from(["example.com", "localhost:8080", "a.b.c-d.org"])),
            "prefix": draw(st.sampled_from(["livesim", "dash", "x1"])), "scheme": draw(st.sampled_from(["http", "https"]))}


def prop(case, stats):
    c = materialize(case["spec"])
    opts, now = case["opts"], case["now"]
    od = dict(opts)
    what = "opts %s at %r" % (opts, now)
    r = get(c, mpd_path(opts, c, case["prefix"]), now, host=case["host"], scheme=case["scheme"])
    n = min(int(od.get("periods", -1)), 60)
    m_e = min(int(od.get("etp", -1)), 60)
    m_c = min(int(od.get("mpdcallback", -1)), 60)
    if n > 0:
        pd = 3600 // n
        etpd = int(od.get("etpDuration", -1))
        if (m_e > 0 and (n % m_e or etpd > pd)) or (m_c > 0 and n % m_c):
            eq(r.code, 404, "not-refused", what)
            stats.label("refused")
            stats.nt()
            return
    tl = "segtimelinenr" in od
    if tl and now < Session(c, opts, now).ast:
        return
    m = load_mpd(r, what)
    if m.ast and n > 0:
        stats.label("session")
    plain = [o for o in opts if o[0] not in ("etp", "etpDuration", "mpdcallback")]
    m0 = load_mpd(get(c, mpd_path(plain, c, case["prefix"]), now, host=case["host"], scheme=case["scheme"]), what + " without")
    eq([p.get("id") for p in m.periods], [p.get("id") for p in m0.periods], "periods", what)
    cb_url = "%s://%s/%s/mpdcallback/" % (case["scheme"], case["host"], case["prefix"])
    for p, p0 in zip(m.periods, m0.periods):
        w = "%s period %s" % (what, p.get("id"))
        nr = int(p.get("id")[1:])
        early = n > 0 and m_e > 0 and nr % (n // m_e) == 0
        if early:
            want = etpd if etpd >= 0 else pd // 2
            eq(dur_s(p.get("duration")), want, "early-duration", w)
            stats.label("early-terminated")
        else:
            check("duration" not in p.attrib, "unexpected-duration", w)
        streams = [e for e in kids(p, "EventStream")]
        if n > 0 and m_c > 0 and nr % (n // m_c) == 0:
            eq([(e.get("schemeIdUri"), e.get("value"), [x.get("messageData") for x in kids(e, "Event")]) for e in streams],
               [(CB, "1", [cb_url])], "callback", w)
            stats.label("callback")
        else:
            eq(len(streams), 0, "unexpected-callback", w)
        q = copy.deepcopy(p)
        for e in kids(q, "EventStream"):
            q.remove(e)
        if not (tl and m_e > 0):
            eq(canon_elem(q, drop=("duration",) if early else ()), canon_elem(p0), "period-content", w)
        if n > 0 and not (early and m_c > 0):
            stats.nt(len(m.periods) > 1)
    if not (tl and m_e > 0):
        eq([canon_elem(e) for e in m.root if ln(e) not in ("Period", "BaseURL", "Location")],
           [canon_elem(e) for e in m0.root if ln(e) not in ("Period", "BaseURL", "Location")], "other-elements", what)
        eq(dict(m.a), dict(m0.a), "mpd-attributes", what)


SUBS = [Sub("periods", cases(), prop, quick=4000, thorough=150000, rule="a refused combination, or a manifest with several periods")]
