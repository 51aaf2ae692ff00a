from vlib.common import *
from vlib.mpd import path_of
from checks.c10 import tl_cases


def some(n, m=6):
    "Indices: ends and a spread in between."
    if n <= m:
        return list(range(n))
    return sorted({0, 1, n // 3, n // 2, n - 2, n - 1})


def prop(case, stats):
    c = materialize(case["spec"])
    opts = case["opts"]
    for now in case["times"]:
        s = Session(c, opts, now)
        if now < s.ast:
            continue
        if s.aet is not None and int(now) > s.aet + 60:
            continue
        url = "http://example.com" + mpd_path(opts, c)
        what = "opts %s at %r (AST %s D %d n %d)" % (opts, now, s.ast, c.D, c.n)
        m = load_mpd(getmpd(c, opts, now), what)
        base = m.base(url)
        per = m.periods
        if len(per) > 3:
            per = [per[0], per[len(per) // 2], per[-2], per[-1]]
        for p in per:
            for a, r, tm in m.reps(p):
                t, rep = c.rep(r.get("id"))
                if t["type"] == "subtitles":
                    continue
                ent = tm.entries()
                for i in some(len(ent)):
                    tt, d = ent[i]
                    rel = tm.expand(tm.media, tm.start_number + i, tt)
                    path, host, _ = path_of(base, rel)
                    resp = get(c, path, now, host=host)
                    w = "%s of %s, entry %d of %d (t=%d d=%d)" % (path, what, i, len(ent), tt, d)
                    need200(resp, w)
                    _, frags = parse_seg(resp.body, c.trex_tuple(t, rep), w)
                    eq(frags[0].tracks[0].tfdt, tt, "decode-time", w)
                    eq(sum(f.tracks[0].dur for f in frags), d, "duration", w)
                    if "$Number$" in tm.media:
                        eq(frags[0].seqno, tm.start_number + i, "number", w)
                        stats.label("by number")
                    else:
                        stats.label("by time")
                    if tt != (tt // (c.D * t["ts"])) * c.D * t["ts"]:
                        stats.nt()
                        stats.label("off the nominal grid")
                    if rep.get("dir"):
                        stats.label("nested")


SUBS = [Sub("addressing", tl_cases(nprobes=3), prop, quick=1600, thorough=60000,
            rule="a fetched entry whose start is not on the nominal segment grid")]
