from vlib.seggen import *


def prop(case, stats):
    c = materialize(case["spec"])
    for k in case["ks"]:
        for t, r in c.reps():
            s, N, now, resp = served(case, k, t, r, c)
            what = "k=%d N=%d rep %s opts %s" % (k, N, r["id"], case["opts"])
            i, loops = s.source(N)
            _, want = c.parsed(r["id"], i)
            _, got = parse_seg(resp.body, c.trex_tuple(t, r), what)
            eq(len(got), len(want), "fragments", what)
            for g, w in zip(got, want):
                eq(len(g.tracks), 1, "tracks", what)
                gs, ws = g.tracks[0].samples, w.tracks[0].samples
                eq([x.data for x in gs], [x.data for x in ws], "payload", what + " (VoD index %d)" % i)
                eq([(x.dur, x.flags, x.cto) for x in gs], [(x.dur, x.flags, x.cto) for x in ws], "sample-table", what)
                eq(resp.body[g.mdat_off:g.mdat_end], c.seg_bytes(t, r, i)[w.mdat_off:w.mdat_end], "mdat", what)
            stats.nt(c.n > 1 and loops > 0)
            stats.label("loops>0" if loops else "loop 0")


@st.composite
def simple(draw):
    return draw(seg_cases(kind=draw(st.sampled_from(["full", "plain", "full"])), nnum=4))


SUBS = [Sub("mapping", simple(), prop, quick=1600, thorough=60000,
            rule="content with more than one segment per loop, at least one requested segment after a loop wrap")]
