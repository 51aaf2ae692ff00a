"""HTTP contract of all kinds of resources."""
import re

from vlib.common import *
from vlib.mpd import kids, path_of
from vlib.resgen import MIME, OK_KINDS, build, contents, requests

XL = "{http://www.w3.org/1999/xlink}href"
CORS = {"Access-Control-Allow-Origin": "*", "Access-Control-Allow-Methods": None, "Access-Control-Allow-Headers": None,
        "Access-Control-Expose-Headers": None}
NOCACHE = {"Pragma": "no-cache", "Cache-Control": "no-cache", "Expires": "-1"}


@st.composite
def cases(draw):
    reqs = draw(st.lists(requests(), min_size=1, max_size=5))
    return {"spec": draw(contents()), "base": draw(st.integers(1_500_000_000, 1_800_000_000)), "reqs": reqs,
            "host": draw(st.sampled_from(["example.com", "a.b:8080", "10.0.0.1", "[::1]:80", None, ""])),
            "https": draw(st.booleans()),
            "qs": draw(st.sampled_from(["a=b", "x", "a=b&c=d%20e", "start_5/mup_3", "x=/y.mpd", "a=1.m4s", "&&=", "é=1", "a;b", "t=1#f"])),
            "sep": draw(st.booleans())}


def contract(r, what):
    names = [k.lower() for k, _ in r.headers]
    check(len(set(names)) == len(names), "duplicate-header", "%s: %s" % (what, r.headers))
    for k, v in r.headers:
        check(isinstance(k, str) and isinstance(v, str) and not any(ord(x) < 32 for x in k + v), "bad-header", "%s: %r" % (what, (k, v)))
    for k, v in list(CORS.items()) + list(NOCACHE.items()):
        check(r.h(k) and (v is None or r.h(k) == v), "missing-header", "%s: %s is %r" % (what, k, r.h(k)))
    check("GET" in r.h("Access-Control-Allow-Methods"), "cors-methods", what)
    check("range" in r.h("Access-Control-Allow-Headers").lower(), "cors-headers", what)
    check("content-length" in r.h("Access-Control-Expose-Headers").lower(), "cors-expose", what)
    check((r.h("DASH-Live-Simulator") or "").strip(), "simulator-header", what)
    for _, ch in r.chunks:
        check(isinstance(ch, bytes), "body-not-bytes", what)
    cl = r.h("Content-Length")
    if cl is not None:
        eq(cl, str(len(r.body)), "content-length", what)
    check(len(r.status.split(" ", 1)) == 2 and r.status.split(" ", 1)[1], "reason", what)
    if r.code == 404:
        check(r.h("Content-Type").split(";")[0] == "text/plain", "error-type", "%s: %s" % (what, r.h("Content-Type")))
        check(r.body.strip(), "error-empty", what)
    check(r.h("Content-Range") is None and r.h("Location") is None, "stray-header", "%s: %s" % (what, r.headers))


def prop(case, stats):
    c = materialize(case["spec"])
    kw = {"host": case["host"], "scheme": "https" if case["https"] else "http"}
    seen = set()
    for q in case["reqs"]:
        path, now, status = build(c, q, case["base"])
        kind = q["kind"]
        if kind == "period":
            m = load_mpd(get(c, path, now, **kw), path)
            refs = [p.get(XL) for p in kids(m.root, "Period") if p.get(XL)]
            check(refs, "no-xlink-period", path)
            path = path_of(refs[q["b"] % len(refs)], "")[0]
        r = get(c, path, now, **kw)
        what = "%s %s at %r" % (kind, path, now)
        stats.label("%s %s" % (kind, r.code))
        if not case["host"] and r.code == 200 and kind in ("mpd", "period"):    # As if the client had given the name of the server
            check(r.body == get(c, path, now, host="srv.test:8059", scheme=kw["scheme"]).body, "no-host", what)
            check(kind != "mpd" or b"//srv.test:8059/" in r.body, "no-server-name", what)
        if status is not None:
            eq(r.code, status, "status", what + ": %r" % r.body[:150])
        check(r.code in (200, 404), "status", what)
        contract(r, what)
        if r.code == 200:
            check(r.body, "empty-body", what)
            check(r.h("Content-Type") in MIME.get(kind, (r.h("Content-Type"),)), "mime", "%s: %s" % (what, r.h("Content-Type")))
            seen.add(kind)
        if kind != "chunk":
            check(r.h("Content-Length") is not None, "no-length", what)
        if kind not in ("garbage", "noext"):
            r2 = get(c, path, now, qs=case["qs"], sep_qs=case["sep"], **kw)
            drop = () if r.code == 200 else ("Content-Length",)   # error texts may quote the URL
            eq((r2.code, sorted(h for h in r2.headers if h[0] not in drop)), (r.code, sorted(h for h in r.headers if h[0] not in drop)),
               "query-changes-headers", what)
            if r.code == 200:
                check(r2.body == r.body, "query-changes-body", what)
    stats.nt(len(seen) >= 1)


@st.composite
def net_cases(draw):
    reqs = draw(st.lists(st.tuples(requests(), st.fixed_dictionaries({
        "host": st.sampled_from(["example.com", "a.b:8080", "[::1]:80", None]), "version": st.sampled_from(["1.1", "1.0"]),
        "rng": st.sampled_from([None, None, "bytes=0-9", "bytes=5-", "bytes=-7", "bytes=99999999-", "items=0-1"]),
        "qs": st.sampled_from([None, None, "a=b", "x", "a=1.m4s&b", "start_5/mup_3"]),
        "enc": st.one_of(st.none(), st.integers(0, 60))})).map(list), min_size=1, max_size=8))
    return {"spec": draw(contents()), "base": draw(st.integers(1_500_000_000, 1_800_000_000)), "reqs": reqs}


def prop_net(case, stats):
    "The stand-alone web server answers over the network as the application does in-process."
    from vlib.standalone import NAME, PORT, Server
    c = materialize(case["spec"])
    srv = Server(c)
    try:
        for q, kw in case["reqs"]:
            path, now, status = build(c, q, case["base"])
            path = re.sub("/+", "/", path)
            if q["kind"] == "period":       # One of the remote periods
                refs = [p.get(XL) for p in kids(load_mpd(get(c, path, now), path).root, "Period") if p.get(XL)]
                if refs:
                    path = path_of(refs[q["b"] % len(refs)], "")[0]
            what = "%s %s at %r" % (path, kw, now)
            if kw["host"] is None and kw["version"] == "1.1":
                kw = dict(kw, version="1.0")
            target = path
            if kw["enc"] is not None:       # The same path with one character written as an escape sequence
                i = kw["enc"] % len(path)
                if path[i] != "/":
                    target = path[:i] + "%%%02X" % ord(path[i]) + path[i + 1:]
            if kw["qs"] is not None:
                target += "?" + kw["qs"]
            line, headers, body = srv.get(target, now, host=kw["host"], rng=kw["rng"], version=kw["version"])
            ref = get(c, path, now, host=kw["host"] or "%s:%d" % (NAME, PORT), rng=kw["rng"], qs=kw["qs"], sep_qs=True)
            eq(line, ref.status, "status-line", what)
            own = [h for h in headers if h[0].lower() not in ("date", "server")]
            eq(sorted(own), sorted(ref.headers), "headers", what)
            check(body == ref.body, "body", "%s: %d bytes, expected %d" % (what, len(body), len(ref.body)))
            stats.label("%s %s" % (q["kind"], line[:3]))
            stats.nt(line[:2] == "20")
            if kw["host"] is None:
                stats.label("no Host header")
    finally:
        srv.close()


SUBS = [Sub("contract", cases(), prop, quick=2500, thorough=80000, rule="at least one resource was available (200)"),
        Sub("server", net_cases(), prop_net, quick=60, thorough=3000, rule="a resource was served (200 or 206) over the network")]
