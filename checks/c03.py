from vlib.seggen import *


def prop(case, stats):
    c = materialize(case["spec"])
    for k in case["ks"]:
        for t, r in c.reps():
            prev = None
            for kk in (k, k + 1):
                s, N, now, resp = served(case, kk, t, r, c)
                what = "k=%d N=%d rep %s opts %s" % (kk, N, r["id"], case["opts"])
                _, frags = parse_seg(resp.body, c.trex_tuple(t, r), what)
                check(frags, "no-fragments", what)
                tm = s.tfdt(N, t)
                eq(frags[0].tracks[0].tfdt, tm, "decode-time", what)
                if prev is not None:
                    eq(frags[0].tracks[0].tfdt, prev, "gap", what + " after the previous segment")
                    if kk % c.n == 0:
                        stats.label("wrap")
                end = tm
                for f in frags:
                    eq(f.seqno, N, "sequence-number", what)
                    tr = f.tracks[0]
                    eq(tr.tfdt, end, "fragment-gap", what)
                    end = tr.tfdt + tr.dur
                    if tr.tfdt >= 2 ** 32:
                        eq(tr.tfdt_version, 1, "tfdt-version", what)
                prev = end
                if tm < 2 ** 32 <= end:
                    stats.label("2^32 inside/at end")
            stats.nt(c.n > 1)


SUBS = [Sub("continuity", seg_cases(nnum=3), prop, quick=1600, thorough=60000,
            rule="pairs of consecutive segments of a content with more than one segment per loop")]
