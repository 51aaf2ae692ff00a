"""Remote periods: resolve the references and compare with the manifest without them; ads against the documented list."""
import copy
from urllib.parse import urlparse
from xml.etree import ElementTree as ET

from vlib.common import *
from vlib.mpd import NS, XLINK, canon_elem, dur_s, kid, kids, ln

HOUR_DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60]
HREF = "{%s}href" % XLINK
ACT = "{%s}actuate" % XLINK
ADS = {4: "http://vm1.dashif.org/dynamicxlink/invalidurl.php", 3: "http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad_twoperiods_withremote",
       2: "http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad_twoperiods", 1: "http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad",
       5: "http://vm1.dashif.org/dynamicxlink/ad.php?id=6_ad"}


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=2, types=draw(st.sampled_from([("video", "audio"), ("video",)])), multirep=False))
    spec = draw(strat.with_images(spec))
    D = spec["D"]
    n = draw(st.sampled_from(HOUR_DIV + [60, 60, 30, 20]))
    pd = 3600 // n
    divs = [m for m in range(1, 61) if n % m == 0]
    o = []
    mode = draw(st.integers(0, 19))
    if mode > 0:
        o.append(["periods", str(n)])
    if mode != 1:
        o.append(["xlink", str(draw(st.sampled_from(divs) if mode > 2 else st.integers(1, 70)))])
    if draw(st.integers(0, 2)) == 0 or mode == 1:
        o.append(["insertad", str(draw(st.integers(1, 5)))])
    for kk, vv in (("continuous", "1"), ("snr", "5"), ("tsbd", str(draw(st.sampled_from([0, 30, pd, 3 * pd, 5 * pd])))), ("scte35", "1"),
                   ("ato", draw(st.sampled_from(["1", "inf"]))), ("mpdcallback", "1"), ("etp", "1"), ("utc", "direct-head"),
                   ("baseurl", "u20_d10"), ("baseurl", "d10_u20"), ("segtimelinenr", "1"), ("segtimeline", "1")):
        if draw(st.integers(0, 5)) == 0:
            o.append([kk, vv])
    kinds = [k for k, _ in o]
    if "segtimelinenr" in kinds and "segtimeline" in kinds:
        o = [x for x in o if x[0] != "segtimeline"]
    if "insertad" in kinds and "etp" in kinds:
        o = [x for x in o if x[0] != "etp"]
    so, ast = draw(strat.session_opts(D))
    o = list(draw(st.permutations(o + so)))
    hi = draw(st.sampled_from([10, 100, 1000, 10 ** 4, 10 ** 5, None, None]))
    if hi and 8000 < hi * pd < 1_900_000_000:
        S = hi * pd
    else:
        S = draw(st.one_of(st.integers(400_000, 1_800_000_000), st.integers(400_000, 1_800_000_000), st.integers(0, 4 * pd))) // pd * pd
    if so:
        S = ast + draw(st.one_of(st.integers(0, 4), st.integers(0, 100))) * pd
    now = float(S + draw(st.integers(0, 2 * pd)) + draw(strat.frac()))
    nr = int(now - (ast if so else 0)) // pd
    spec["mpd"]["title"] = draw(st.sampled_from(["t", "p%d" % nr, 'id="p%d"' % (nr - 1), "Period id=%d p%d" % (nr, nr), "&lt;Period id='p%d'" % nr]))
    spec["mpd"]["proginfo"] = True
    return {"spec": spec, "opts": o, "now": now, "later": draw(st.one_of(st.just(0), st.integers(0, pd))),
            "host": draw(st.sampled_from(["example.com", "localhost:8080", "p%d.example" % nr])),
            "scheme": draw(st.sampled_from(["http", "https"])),
            "prefix": draw(st.sampled_from(["livesim", "dash", "p%d" % nr]))}


def prop(case, stats):
    c = materialize(case["spec"])
    opts, now = case["opts"], case["now"]
    od = dict(opts)
    if ("segtimelinenr" in od or "segtimeline" in od) and now < Session(c, opts, now).ast:
        return
    what = "opts %s at %r" % (opts, now)

    def fetch(path, t):
        return get(c, path, t, host=case["host"], scheme=case["scheme"])
    r = fetch(mpd_path(opts, c, case["prefix"]), now)
    n = int(od["periods"]) if "periods" in od else None
    x = min(int(od["xlink"]), 60) if "xlink" in od else None
    ad = int(od.get("insertad", 0))
    if (x is not None and (n is None or n % x)) or (x is None and ad):
        eq(r.code, 404, "not-refused", what)
        stats.label("refused")
        stats.nt()
        return
    if x is None:
        return
    m = load_mpd(r, what)
    plain = [o for o in opts if o[0] not in ("xlink", "insertad")]
    m0 = load_mpd(fetch(mpd_path(plain, c, case["prefix"]), now), what + " without")
    pd = 3600 // n
    eq(len(m.periods), len(m0.periods), "period-count", what)
    eq([canon_elem(e) for e in m.root if ln(e) not in ("Period", "BaseURL", "Location")],
       [canon_elem(e) for e in m0.root if ln(e) not in ("Period", "BaseURL", "Location")], "other-elements", what)
    eq(dict(m.a), dict(m0.a), "mpd-attributes", what)
    lpath = urlparse(m0.locations[0].text).path if m0.locations else mpd_path(plain, c, case["prefix"])     # the same session later on
    linkable = 0
    replaced = []
    for p, p0 in zip(m.periods, m0.periods):
        pid = p0.get("id")
        nr = int(pid[1:])
        w = "%s period %s" % (what, pid)
        target = nr % (n // x) == 0
        linkable += target
        want_link = target and not (ad and linkable == 1)
        replaced.append(want_link)
        if not want_link:
            check(HREF not in p.attrib, "unexpected-link", w)
            q = copy.deepcopy(p)
            if ad:
                ai = [e for e in kids(q, "AssetIdentifier")]
                eq([e.get("schemeIdUri") for e in ai], ["urn:org:dashif:asset-id:2013"], "asset-identifier", w)
                for e in ai:
                    q.remove(e)
            pq = canon_elem(q, drop=("duration",) if ad else ())
            eq(pq, canon_elem(p0, drop=("duration",) if ad else ()), "kept-period", w)
            continue
        href = p.get(HREF)
        check(href is not None, "no-link", w)
        eq(p.get(ACT), "onLoad", "actuate", w)
        check(all(k in (HREF, ACT) for k in p.attrib), "link-attributes", "%s: %s" % (w, dict(p.attrib)))
        if ad:
            eq(href, ADS[ad], "ad-url", w)
            content = [canon_elem(e) for e in p if isinstance(e.tag, str)]
            eq(content, [canon_elem(e) for e in p0] if ad == 5 else [], "default-content", w)
            stats.label("ad")
            continue
        eq(len(list(p)), 0, "link-content", w)
        u = urlparse(href)
        eq((u.scheme, u.netloc), (case["scheme"], case["host"]), "link-host", w)
        for later in sorted({0, case["later"]}):
            if later and ("segtimelinenr" in od or "segtimeline" in od) and now + later < Session(c, opts, now + later).ast:
                continue    # a next session, which has not started
            rr = fetch(u.path, now + later)
            if later:
                ml = load_mpd(fetch(lpath, now + later), what)
                ref = [e for e in ml.periods if e.get("id") == pid]
                if not ref:
                    eq(rr.code, 404, "stale-period", w)
                    stats.label("stale reference")
                    continue
                ref = ref[0]
            else:
                ref = p0
            need200(rr, w + " " + href)
            try:
                root = ET.fromstring(rr.body)
            except ET.ParseError as e:
                raise Violation("period-not-wellformed", "%s: %s %r" % (w, e, rr.body[:200]))
            eq(canon_elem(root), canon_elem(ref), "remote-period", w)
            stats.label("resolved")
    for i in range(len(m.periods) - 1):
        if ad and not replaced[i]:
            d = m.periods[i].get("duration")
            nxt_target = int(m0.periods[i + 1].get("id")[1:]) % (n // x) == 0
            if replaced[i + 1]:
                eq(d and dur_s(d), pd, "duration-before-ad", "%s period %d" % (what, i))
            elif not nxt_target:
                check(d is None, "unexpected-duration", "%s period %d" % (what, i))
    if m.ast:
        stats.label("session")
    stats.nt(any(replaced))


SUBS = [Sub("xlink", cases(), prop, quick=3000, thorough=120000, rule="a refused combination, or a manifest with a replaced period")]
