"""Durations and timestamps: library round trips and the values seen in manifests."""
import calendar
import datetime

from vlib import server
from vlib.common import *
from vlib.mpd import dur_s, lex_datetime

DAY = 86400


def secs():
    return st.one_of(st.integers(0, 200), st.integers(0, 4000 * DAY),
                     st.builds(lambda d, h, m, s: d * DAY + h * 3600 + m * 60 + s, st.sampled_from([0, 0, 1, 2, 30, 366, 20000]),
                               st.sampled_from([0, 0, 1, 23]), st.sampled_from([0, 0, 1, 59]), st.sampled_from([0, 0, 1, 59])))


def lib():
    server.load()
    import dashlivesim.dashlib.timeformatconversions as m
    return m


def prop_format(case, stats):
    f = getattr(lib(), "seconds_to_iso_duration", None)
    if f is None:
        return
    n = case["n"]
    v = f(n)
    eq(dur_s(v), n, "duration-value", "%d -> %r" % (n, v))
    stats.nt(n % 60 == 0 and n > 0)
    if case["frac"]:
        x = n + case["frac"]
        v = f(x)
        check(n <= dur_s(v) <= x, "duration-fraction", "%r -> %r" % (x, v))
    stats.label("whole days" if n % DAY == 0 else "whole hours" if n % 3600 == 0 else "whole minutes" if n % 60 == 0 else "other")
    if n < DAY:
        g = getattr(lib(), "iso_duration_to_seconds", None)
        if g is not None:
            eq(g(v), n, "round-trip", "%d -> %r" % (n, v))


@st.composite
def hms(draw):
    part = st.one_of(st.none(), st.integers(0, 61), st.integers(0, 10 ** 6))
    h, m, s = draw(part), draw(part), draw(part)
    fr = draw(st.one_of(st.none(), st.text("0123456789", min_size=1, max_size=6)))
    if h is None and m is None and s is None:
        s = draw(st.integers(0, 100))
    return {"h": h, "m": m, "s": s, "frac": fr if s is not None else None, "pad": draw(st.booleans())}


def prop_read(case, stats):
    g = getattr(lib(), "iso_duration_to_seconds", None)
    if g is None:
        return
    t = "PT"
    tot = 0
    for k, u, mul in (("h", "H", 3600), ("m", "M", 60), ("s", "S", 1)):
        if case[k] is not None:
            t += ("%02d" if case["pad"] else "%d") % case[k]
            if k == "s" and case["frac"]:
                t += "." + case["frac"]
            t += u
            tot += case[k] * mul
    eq(int(g(t)), tot, "read-value", t)
    stats.nt(sum(case[k] is not None for k in "hms") > 1 or bool(case["frac"]))
    stats.label("fraction" if case["frac"] else "integer")


def prop_stamp(case, stats):
    f = getattr(lib(), "make_timestamp", None)
    if f is None:
        return
    n = case["n"]
    v = f(n)
    eq(lex_datetime(v), n, "timestamp-value", "%d -> %r" % (n, v))
    x = f(n + case["frac"])
    eq(lex_datetime(x), n, "timestamp-fraction", "%r -> %r" % (n + case["frac"], x))
    stats.nt(True)


@st.composite
def stamps(draw):
    n = draw(st.one_of(st.integers(0, 4 * 10 ** 9), st.builds(
        lambda y, m, d, h: calendar.timegm(datetime.datetime(y, m, d, h).timetuple()) , st.integers(1970, 2090), st.integers(1, 12),
        st.sampled_from([1, 28]), st.sampled_from([0, 23]))))
    return {"n": max(0, n + draw(st.sampled_from([-1, 0, 0, 1, 86399]))), "frac": draw(strat.frac())}


def prop_mpd(case, stats):
    "The same conversions as they reach users: manifest attributes."
    c = materialize(case["spec"])
    n, tb = case["n"], case["tsbd"]
    o = [["start", str(case["start"])], ["tsbd", str(tb)], ["mup", str(n)], ["spd", str(case["spd"])]]
    now = case["start"] + case["after"]
    m = load_mpd(getmpd(c, o, now), str(o))
    for k, v in (("minimumUpdatePeriod", n), ("timeShiftBufferDepth", tb), ("suggestedPresentationDelay", case["spd"])):
        eq(dur_s(m.a.get(k)), v, "mpd-duration", "%s in %s" % (k, o))
    eq(m.ast, case["start"] // c.D * c.D, "mpd-ast", str(o))
    eq(lex_datetime(m.a.get("publishTime")), int(now), "mpd-publish-time", "%s at %s" % (o, now))
    stats.nt(any(x and x % 60 == 0 for x in (n, tb, case["spd"])))


SUBS = [
    Sub("format", st.fixed_dictionaries({"n": secs(), "frac": strat.frac()}), prop_format, quick=6000, thorough=300000,
        rule="a whole number of minutes, hours or days"),
    Sub("read", hms(), prop_read, quick=6000, thorough=300000, rule="two or more components, or a fractional second"),
    Sub("timestamp", stamps(), prop_stamp, quick=6000, thorough=300000, rule="every distinct second"),
    Sub("manifest", st.fixed_dictionaries({"spec": strat.specs(kind="plain", maxn=2, types=("video",), multirep=False),
                                           "n": secs(), "tsbd": secs(), "spd": secs(), "start": strat.epochs(),
                                           "after": st.integers(0, 10000).map(float)}), prop_mpd, quick=1000, thorough=30000,
        rule="some announced duration is a whole number of minutes"),
]
