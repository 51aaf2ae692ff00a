"""Byte ranges: RFC 7233 single ranges against the full response; everything else ignored; partition round trip."""
from vlib.common import *
from vlib.mpd import kids, path_of
from vlib.resgen import build, contents, requests

RES = ["mpd", "init", "seg", "seg", "tseg", "thumb", "muxseg", "muxinit"]
BAD = ["bytes", "bytes=", "bytes=-", "bytes=a-b", "bytes=0x1-5", "bytes=1-2-3", "bytes=--5", "bytes=1--2", "bytes=-5-", "0-5", "=0-5", "items=0-5",
       "seconds=1-2", "bytes 0-5", "bytes:0-5", "", " ", "bytes=0-5,7-9", "bytes=0-1,-2", "bytes=-1,0-0", "bytes=,", "bytes=1.5-3", "bytes=+1-2",
       "bytes=0-5;7-9", "bytes=1 - 2 3", "xbytes=0-3", "bytes=0-5 garbage", "none", "bytes==0-5", "bytes=0=1-5", "a=b=0-4", "bytes=0-\u00b2",
       "bytes=-0", "bytes=1e1-2e1", "bytes=0_1-0_9", "\u0660=0-1", "bytes=\u00b9-5"]


@st.composite
def ranges(draw):
    "(form, x, y) relative to the length L: positions are drawn as anchors plus offsets."
    pos = st.tuples(st.sampled_from(["0", "L", "h"]), st.one_of(st.integers(-6, 6), st.integers(-6, 6), st.integers(-6, 6),
                                                                st.sampled_from([10 ** 9, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 10, 10 ** 12, 2 ** 53, 10 ** 17])))
    form = draw(st.sampled_from(["ab", "ab", "ab", "a-", "-n", "-n", "bad", "multi", "back"]))
    return [form, list(draw(pos)), list(draw(pos)), draw(st.one_of(st.sampled_from(BAD), st.text("bytes=0123456789-, ", max_size=14)))]


def P(p, L):
    return {"0": 0, "L": L, "h": L // 2}[p[0]] + p[1]


def expect(header, L):
    "Satisfiable single byte range -> (first, last), otherwise None.  Own parser, digit by digit."
    if not header.startswith("bytes="):
        return None
    spec = header[6:]
    if spec.count("-") != 1:
        return None
    a, b = spec.split("-")
    if any(ch not in "0123456789" for ch in a + b):
        return None
    if a == "":
        if b == "" or int(b) == 0:
            return None
        return max(0, L - int(b)), L - 1
    if int(a) >= L:
        return None
    if b == "":
        return int(a), L - 1
    if int(b) < int(a):
        return None
    return int(a), min(int(b), L - 1)


def text_of(rg, L):
    form, p, q, bad = rg
    a, b = P(p, L), P(q, L)
    if form == "bad":
        return bad
    a, b = max(0, a), max(0, b)
    if form == "ab":
        return "bytes=%d-%d" % (min(a, b), max(a, b))
    if form == "back":
        return "bytes=%d-%d" % (max(a, b), min(a, b))
    if form == "a-":
        return "bytes=%d-" % a
    if form == "-n":
        return "bytes=-%d" % a
    return "bytes=%d-%d,%d-%d" % (0, a, a + 1, b)


def sloppy(h):
    "Headers that a lenient reader may understand as a range (whitespace, case); either answer is fine."
    return h != h.strip() or " " in h or h[:5].lower() == "bytes" and h[:5] != "bytes"


@st.composite
def cases(draw):
    return {"spec": draw(contents()), "base": draw(st.integers(1_500_000_000, 1_800_000_000)),
            "req": draw(requests(kinds=RES)), "ranges": draw(st.lists(ranges(), min_size=1, max_size=6)),
            "cuts": draw(st.lists(st.integers(1, 1000), max_size=4))}


def prop(case, stats):
    c = materialize(case["spec"])
    path, now, _ = build(c, case["req"], case["base"])
    full = need200(get(c, path, now), path)
    L = len(full.body)
    for rg in case["ranges"]:
        h = text_of(rg, L)
        r = get(c, path, now, rng=h)
        what = "%s %r length %d: %s %r" % (case["req"]["kind"], h, L, r.status, r.h("Content-Range"))
        ex = expect(h, L)
        if ex is None and r.code == 206 and sloppy(h):
            stats.label("lenient")
            continue
        stats.label("%s %s" % (rg[0], "206" if ex else "200"))
        if ex is None:
            eq(r.code, 200, "bad-range-status", what)
            check(r.body == full.body, "bad-range-body", what)
            check(r.h("Content-Range") is None, "bad-range-header", what)
        else:
            a, b = ex
            eq(r.code, 206, "range-status", what)
            check(r.body == full.body[a:b + 1], "range-bytes", what + " %d bytes" % len(r.body))
            eq(r.h("Content-Range"), "bytes %d-%d/%d" % (a, b, L), "content-range", what)
            stats.nt()
        eq(r.h("Content-Length"), str(len(r.body)), "content-length", what)
        eq(r.h("Content-Type"), full.h("Content-Type"), "content-type", what)
    cuts = sorted(set(x % L for x in case["cuts"]) | {0})
    cuts.append(L)
    out = b""
    for a, b in zip(cuts, cuts[1:]):
        r = get(c, path, now, rng="bytes=%d-%s" % (a, b - 1 if b < L or a % 2 else ""))
        eq(r.code, 206, "partition-status", "%d-%d of %d" % (a, b - 1, L))
        out += r.body
    check(out == full.body, "partition", "cuts %s of %d" % (cuts, L))


@st.composite
def special(draw):
    c = draw(cases())
    c["req"] = draw(requests(kinds=["period", "early", "norep", "nocontent", "garbage", "chunk", "nofile"]))
    return c


def prop_special(case, stats):
    "Errors and chunked responses are not affected by Range headers."
    c = materialize(case["spec"])
    path, now, status = build(c, case["req"], case["base"])
    if case["req"]["kind"] == "period":
        m = load_mpd(get(c, path, now), path)
        path = path_of([p.get("{http://www.w3.org/1999/xlink}href") for p in kids(m.root, "Period")][0], "")[0]
    full = get(c, path, now)
    L = len(full.body)
    for rg in case["ranges"]:
        h = text_of(rg, L)
        r = get(c, path, now, rng=h)
        what = "%s %r length %d: %s" % (case["req"]["kind"], h, L, r.status)
        ex = expect(h, L)
        if full.code == 200 and case["req"]["kind"] == "period" and ex:
            eq((r.code, r.body), (206, full.body[ex[0]:ex[1] + 1]), "range-bytes", what)
            stats.nt()
            continue
        if r.code == 206 and full.code == 200 and ex:    # chunked: ignoring the range or serving it are both fine
            check(r.body == full.body[ex[0]:ex[1] + 1], "range-bytes", what)
            continue
        if r.code == 206 and sloppy(h):
            continue
        eq((r.code, r.body, r.h("Content-Range")), (full.code, full.body, None), "not-ignored", what)
        stats.nt()


SUBS = [Sub("ranges", cases(), prop, quick=3000, thorough=100000, rule="at least one satisfiable range was requested"),
        Sub("special", special(), prop_special, quick=800, thorough=20000, rule="an error, chunked or period resource with a Range header")]
