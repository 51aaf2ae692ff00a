"""Shared pieces of the checks."""
from fractions import Fraction as F

from hypothesis import strategies as st

from . import mp4lib as M
from . import strat
from .content import materialize
from .model import Refused, Session, init_path, mpd_path, seg_path
from .mpd import Mpd
from .runner import Sub, Violation, check, eq
from .server import get

DELTAS = (-1.0, -1 / 64, 0.0, 1 / 64, 1.0)


def optlist(draw, dct, shuffle=True):
    "Option pairs from a dict, in a drawn order."
    items = [[k, str(v)] for k, v in dct.items()]
    if shuffle and len(items) > 1:
        items = list(draw(st.permutations(items)))
    return items


def getseg(content, opts, rep, N, now, **kw):
    return get(content, seg_path(opts, content, rep, N), now, **kw)


def getmpd(content, opts, now, **kw):
    return get(content, mpd_path(opts, content), now, **kw)


def need200(r, what):
    if r.code != 200:
        raise Violation("not-200", "%s: %s %r" % (what, r.status, r.body[:200]))
    return r


def parse_seg(data, trex=None, what=""):
    try:
        return M.parse_segment(data, trex)
    except M.Mp4Error as e:
        raise Violation("bad-mp4", "%s: %s" % (what, e))


def parse_boxes(data, what=""):
    try:
        return M.parse_boxes(data)
    except M.Mp4Error as e:
        raise Violation("bad-mp4", "%s: %s" % (what, e))


def load_mpd(r, what="MPD"):
    need200(r, what)
    return Mpd(r.body.decode("utf-8"))


def pick_rep(content, i, types=None):
    reps = [(t, r) for t, r in content.reps() if types is None or t["type"] in types]
    return reps[i % len(reps)]


def check_tfdt(content, track, rep, body, want, N=None, what=""):
    boxes, frags = parse_seg(body, content.trex_tuple(track, rep), what)
    check(frags, "no-fragment", what)
    tr = frags[0].tracks[0]
    eq(tr.tfdt, want, "decode-time", what)
    if N is not None:
        eq(frags[0].seqno, N % 2 ** 32, "sequence-number", what)
    return frags


def s_tuples(frags, ti=0):
    return [tuple(s) for f in frags for s in f.tracks[ti].samples]
