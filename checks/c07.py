import copy

from vlib.common import *
from checks.c10 import tl_cases
from vlib.mpd import canon_elem, kids


@st.composite
def cases(draw):
    case = draw(tl_cases(types=("video", "audio")))
    case["opts"] = [o for o in case["opts"] if o[0] != "snr"]
    if draw(st.booleans()):
        case["opts"] = [o for o in case["opts"] if not o[0].startswith("segtimeline")]
    case["snr"] = draw(st.one_of(st.sampled_from([-1, 1, 2, 7]), st.integers(1, 10 ** 6)))
    od = dict(case["opts"])
    if ("stop" in od or "dur" in od) and draw(st.integers(0, 3)):   # around the end of the session
        D = case["spec"]["D"]
        end = int(od["stop"]) if "stop" in od else int(od["start"]) // D * D + int(od["dur"])
        case["times"][0] = float(end + draw(st.sampled_from([0, D, -1, 1, 2 * D]))) + draw(strat.frac())
    case["pos"] = draw(st.integers(0, len(case["opts"])))
    case["ks"] = draw(st.lists(st.tuples(st.sampled_from(["new", "old", "first", "last", "last"]), st.integers(-2, 2)), min_size=1, max_size=4))
    return case


def mask_seq(body, what):
    boxes, frags = parse_seg(body, None, what)
    b = bytearray(body)
    nrs = []
    for f in frags:
        mf = M.find(f.moof.children, "mfhd")
        nrs.append(M.g32(mf.data, 12))
        b[mf.off + 12:mf.off + 16] = b"\0" * 4
    return bytes(b), nrs


def strip(m):
    "MPD content without start numbers and URLs of the request."
    out = []
    root = copy.deepcopy(m.root)
    for e in root.iter():
        e.attrib.pop("startNumber", None)
    for n in ("BaseURL", "Location"):
        for e in kids(root, n):
            root.remove(e)
    return canon_elem(root)


def prop(case, stats):
    c = materialize(case["spec"])
    o0 = list(case["opts"])
    o0.insert(case["pos"], ["snr", "0"])
    oN = list(case["opts"])
    oN.insert(case["pos"], ["snr", str(case["snr"])])
    shift = 1 if case["snr"] == -1 else case["snr"]
    keys = dict(case["opts"])
    for now in case["times"]:
        s0 = Session(c, o0, now)
        if now < 0:
            continue
        what = "snr_%d opts %s at %r" % (case["snr"], case["opts"], now)
        r0, rN = getmpd(c, o0, now), getmpd(c, oN, now)
        eq(rN.code, r0.code, "mpd-status", what)
        if r0.code == 200:
            m0, mN = load_mpd(r0), load_mpd(rN)
            eq(strip(mN), strip(m0), "mpd-differs", what)
            for p0, pN in zip(m0.periods, mN.periods):
                for (a0, q0, t0), (aN, qN, tN) in zip(m0.reps(p0), mN.reps(pN)):
                    if "segtimeline" in keys:
                        continue
                    e0, eN = t0.start_number, tN.start_number
                    eq(eN - e0, shift, "mpd-start-number", what + " period %s rep %s: %d and %d" % (p0.get("id"), q0.get("id"), e0, eN))
                    if "segtimelinenr" not in keys and "periods" not in keys and "timeoffset" not in keys:
                        if case["snr"] == -1:
                            check("startNumber" not in tN.a, "implicit-start-number", what)
                        else:
                            eq(tN.a.get("startNumber"), str(case["snr"]), "explicit-start-number", what)
            stats.label("MPD compared")
        t, r = pick_rep(c, int(now))
        for kind, off in case["ks"]:
            lo, hi = s0.window(now)
            k = {"new": hi, "old": lo, "first": s0.first, "last": s0.last if s0.last is not None else s0.beyond - 1 if s0.beyond is not None else hi + 1}[kind] + off
            a, b = getseg(c, o0, r, k, now), getseg(c, oN, r, k + shift, now)
            w = "segment %d/%d of %s: %s vs %s" % (k, k + shift, what, a.status, b.status)
            eq(b.code, a.code, "segment-status", w)
            if a.code == 200:
                ba, na = mask_seq(a.body, w)
                bb, nb = mask_seq(b.body, w)
                eq(bb, ba, "segment-body", w)
                eq(nb, [x + shift for x in na], "sequence-number", w)
                stats.nt()
            stats.label("segment %d" % a.code)
            if "segtimeline" in keys:
                tt = s0.tfdt(max(k, s0.first), t)
                a, b = getseg(c, o0, r, "t%d" % tt, now), getseg(c, oN, r, "t%d" % tt, now)
                w = "segment t%d of %s: %s vs %s" % (tt, what, a.status, b.status)
                eq(b.code, a.code, "segment-status", w)
                if a.code == 200:
                    eq(mask_seq(b.body, w)[0], mask_seq(a.body, w)[0], "segment-body", w)
                    stats.label("time-addressed 200")


SUBS = [Sub("renumber", cases(), prop, quick=2000, thorough=80000, rule="at least one segment served by both sessions and compared")]
