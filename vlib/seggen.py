"""Generators of (content, session, numbers) cases for segment-level checks."""
from .common import *


@st.composite
def seg_cases(draw, kind="full", types=("video", "audio"), single=False, nnum=3, extra=None, cross=True, consecutive=False,
              maxn=6, tslist=None, sessions=True, snrs=(-1, 0, 1, 7, 4000000), Ds=None, maxD=10):
    """spec + options + list of segment indices k (relative to the first number) all within a plausible time."""
    spec = draw(strat.specs(kind=kind, types=types, single=single, maxn=maxn, mpdopts=False, tslist=tslist, Ds=Ds, maxD=maxD))
    D, n = spec["D"], spec["n"]
    o = {}
    if sessions and draw(st.integers(0, 2)) == 0:
        o["start"] = draw(strat.epochs())
        if draw(st.integers(0, 2)) == 0:
            ast = int(o["start"]) // D * D
            o["timeoffset"] = draw(st.one_of(st.just(0), st.integers(0, 400).map(lambda j: ast - j * D)))
    if sessions and draw(st.integers(0, 2)) == 0:
        o["snr"] = draw(st.sampled_from(snrs))
    if extra:
        for k, v in draw(extra(D)).items():
            o[k] = v
    ts = spec["tracks"][draw(st.integers(0, len(spec["tracks"]) - 1))]["ts"]
    ks = []
    for _ in range(draw(st.integers(1, nnum))):
        mode = draw(st.sampled_from(["wrap", "any", "small"] + (["cross", "cross"] if cross and "timeoffset" not in o else [])))
        if mode == "wrap":
            k = n * draw(st.integers(1, 10 ** 7)) + draw(st.integers(-1, 1))
        elif mode == "any":
            k = draw(st.integers(0, 4 * 10 ** 8 // D))
        elif mode == "small":
            k = draw(st.integers(0, 2 * n + 1))
        else:
            dk = draw(st.integers(-2 * n - 1, n + 1))
            if 2 ** 32 % (ts * D) == 0 and draw(st.booleans()):     # a decode time of exactly 2^32
                dk = 0
            k = max(0, 2 ** 32 // (ts * D) + dk)
        ks.append(min(k, 2 ** 32 // D - 4 - int(o.get("snr", 0))))
    return {"spec": spec, "opts": optlist(draw, o), "ks": ks, "dt": draw(strat.frac())}


def served(case, k, track, rep, c, extra_opts=(), drop=()):
    "Fetch segment with index k at a time when it is available -> (session, N, now, response)."
    opts = [o for o in case["opts"] if o[0] not in drop] + list(extra_opts)
    s = Session(c, opts, 0)
    N = s.first + k
    now = float(max(s.end_of(N), 0) + case.get("dt", 0))
    r = getseg(c, opts, rep, N, now)
    need200(r, "segment %d (k=%d) of %s opts %s at %r" % (N, k, rep["id"], opts, now))
    return s, N, now, r
