"""Session time limit: redirect, follow the redirect through the whole session, expiry."""
import re
from urllib.parse import urlsplit

from vlib.common import *
from vlib.mpd import path_of
from vlib.resgen import build, contents, requests
from checks.c24 import CORS, NOCACHE


@st.composite
def cases(draw):
    return {"spec": draw(contents()), "base": draw(st.integers(1_500_000_000, 1_700_000_000)), "len": draw(st.one_of(st.sampled_from([1, 10, 60, 7200]), st.integers(1, 5000))),
            "reqs": draw(st.lists(st.tuples(requests(kinds=["mpd", "mpd", "seg", "init", "thumb", "tseg", "norep", "noext", "early", "nofile", "badopt"]),
                                            st.one_of(st.sampled_from([["none", 0], ["none", 0], ["none", 0], ["bad", 0], ["now", 0], ["end", -1], ["end", -0.25], ["end", 0], ["end", 0.25], ["end", 1],
                                                                       ["fut", 0], ["fut", 0.25], ["fut", -1], ["fut", -0.25], ["fut", 1], ["fut", 1000]]),
                                                      st.integers(-9000, 20).map(lambda x: ["rel", x]))), min_size=1, max_size=4)),
            "host": draw(st.sampled_from(["example.com", "a.b:8080", "[::1]:8"])), "https": draw(st.booleans()),
            "qs": draw(st.sampled_from([None, None, "a=b", "x=1&y=%20z/", "u=http://a/b?c=d", "a=b;c", "=", "a"])), "sep": draw(st.booleans()),
            "pos": draw(st.integers(0, 3)), "walk": draw(st.lists(st.one_of(st.integers(0, 9000).map(lambda x: x * 0.25), st.sampled_from([-1.0, -0.25, 0.0, 0.25, 1.0]).map(lambda x: ["end", x])), max_size=3))}


def base_headers(r, what):
    for k, v in list(CORS.items()) + list(NOCACHE.items()):
        check(r.h(k) and (v is None or r.h(k) == v), "missing-header", "%s: %s is %r" % (what, k, r.h(k)))
    cl = r.h("Content-Length")
    if cl is not None:
        eq(cl, str(len(r.body)), "content-length", what)


def prop(case, stats):
    c = materialize(case["spec"])
    ln_ = case["len"]
    kw = {"host": case["host"], "scheme": "https" if case["https"] else "http", "qs": case["qs"], "sep_qs": case["sep"]}
    for q, (mode, x) in case["reqs"]:
        path, now, status = build(c, q, case["base"])
        plain = get(c, path, now, **kw)
        sts = {"none": None, "bad": None, "now": int(now), "end": None, "fut": None, "rel": int(now) + x}[mode] if True else None
        if mode == "end":      # put the request time at the end of the session
            sts = int(now) - ln_
            now = sts + ln_ + x
            if now < 0:
                continue
            plain = get(c, path, now, **kw)
        if mode == "fut":
            sts = int(now) + 5
            now = sts - 5 - x
            plain = get(c, path, now, **kw)
        parts = path.split("/")
        content = parts.index(c.name, 2) if c.name in parts[2:] else 2     # options stand before the content
        at = min(2 + case["pos"], content)
        if sts is not None:
            parts.insert(at, "sts_%d" % sts)
            if case["pos"] % 2:
                parts.insert(at + 1, "sid_1a2b3c4d")
        elif mode == "bad":
            parts.insert(at, ("sts_", "sts_x", "stsx_5", "xsts_5")[case["pos"]])
        spath = "/".join(parts)
        r = get(c, spath, now, maxlen=ln_, **kw)
        what = "limit %d %s at %r (%s): %s" % (ln_, spath, now, mode, r.status)
        base_headers(r, what)
        stats.label("%s/%s" % (mode, r.code))
        if sts is None:
            if not spath.endswith(".mpd"):
                eq(r.code, 404, "media-without-session", what)
                continue
            eq(r.code, 302, "no-redirect", what)
            loc = r.h("Location")
            check(loc, "no-location", what)
            m = re.match(r"^(https?)://([^/]+)(/[^?]*)(?:\?(.*))?$", loc)
            check(m, "bad-location", "%s: %s" % (what, loc))
            eq((m.group(1), m.group(2)), (kw["scheme"], kw["host"]), "location-host", "%s: %s" % (what, loc))
            lp = m.group(3).split("/")
            sp = spath.split("/")
            eq(len(lp), len(sp) + 2, "location-path", "%s: %s" % (what, loc))
            eq(lp[:2] + lp[4:], sp, "location-path", "%s: %s" % (what, loc))
            eq(lp[2], "sts_%d" % int(now), "location-start", "%s: %s" % (what, loc))
            check(re.match(r"^sid_[0-9A-Za-z]+$", lp[3]), "location-id", "%s: %s" % (what, loc))
            eq(m.group(4) or None, case["qs"] or None, "location-query", "%s: %s" % (what, loc))
            if mode == "bad":
                continue
            stats.nt()
            kw2 = dict(kw, qs=m.group(4))
            r2 = get(c, m.group(3), now, maxlen=ln_, **kw2)
            if q["kind"] == "mpd":
                need200(r2, "following " + loc)
                check(abs_equal(r2.body, plain.body, lp[2:4], kw), "redirected-manifest", what)
                follow(c, case, m.group(3), int(now), r2, kw2, stats)
            else:
                eq(r2.code, plain.code, "redirected-status", what)
        elif now > sts + ln_:
            eq(r.code, 410, "not-expired", what)
            stats.nt()
        elif sts > now + 5:
            eq(r.code, 404, "future-session", what)
            stats.nt()
        else:
            eq(r.code, plain.code, "in-session-status", what)
            if r.code == 200:
                if q["kind"] == "mpd":
                    check(abs_equal(r.body, plain.body, [p for p in parts if p.startswith(("sts_", "sid_"))], kw), "in-session-body", what)
                else:
                    check(r.body == plain.body, "in-session-body", what)
                stats.nt()


def abs_equal(a, b, extra, kw):
    "The manifests are equal up to the session parts in their URLs."
    for x in extra:
        a = a.replace(("/%s" % x).encode(), b"")
    return a == b


def follow(c, case, path, start, r, kw, stats):
    "A client that uses the URLs of the redirected manifest stays in the session until it expires."
    m = load_mpd(r, path)
    if not m.baseurls:
        return
    base = m.base("%s://%s%s" % (kw["scheme"], kw["host"], path))
    V = c.track("video")["reps"][0]
    for w in case["walk"]:
        now = start + (case["len"] + w[1] if isinstance(w, list) else w)
        if now < start:
            continue
        over = now > start + case["len"]
        p, host, _ = path_of(base, "%s/init.mp4" % V["id"])
        eq(host, kw["host"], "base-host", base)
        for url in (p, path):
            rr = get(c, url, now, maxlen=case["len"], host=host, scheme=kw["scheme"])
            eq(rr.code, 410 if over else 200, "session-walk", "%s at start+%r of %d" % (url, now - start, case["len"]))
        N = m_first(path) + int(F(now) // c.D) - 1
        if "start_" not in path:
            rr = get(c, path_of(base, "%s/%d.m4s" % (V["id"], N))[0], now, maxlen=case["len"], host=host, scheme=kw["scheme"])
            eq(rr.code, 410 if over else 200, "session-walk", "segment %d at start+%r" % (N, now - start))


def m_first(path):
    g = re.search(r"/snr_(\d+)/", path)
    return int(g.group(1)) if g else 0


SUBS = [Sub("limits", cases(), prop, quick=2500, thorough=80000,
            rule="a redirect, a refused future or expired session, or a served request within a session")]
