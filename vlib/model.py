"""Reference model of sessions, written from the documentation (exact integer / fraction arithmetic)."""
from fractions import Fraction as F

SIMPLE = ("start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "tfdt",
          "cont", "snr", "ato")


def fl(x, step):
    "Round down to a multiple of step."
    return int(x // step) * step


class Refused(Exception):
    "The option combination is not allowed."


class Session:
    """What the URL options mean at request time `now`.

    Attributes: D, ast, first (first segment number), mt0 (media time at AST, s), tsbd, ato (None = infinite), last (last
    number or None), stop (stop time), beyond (first number beyond stop), aet, pres (mediaPresentationDuration), mup."""

    def __init__(self, content, opts, now):
        D = self.D = content.D
        self.c = content
        now_i = int(now // 1)
        o = {}
        durs = []
        for k, v in opts:
            if k == "dur":
                durs.append(int(v))
            else:
                o[k] = v
        self.o = o
        start = None
        stop = None
        for k, v in opts:   # later ones override
            if k in ("start", "ast"):
                start = int(v)
            elif k == "startrel":
                start = now_i + int(v)
            elif k == "stop":
                stop = int(v)
            elif k == "stoprel":
                stop = now_i + int(v)
        self.tsbd = int(o["tsbd"]) if "tsbd" in o else content.tsbd
        self.init_off = int(o.get("init", 0))
        self.mup = int(o["mup"]) if "mup" in o else None
        a = o.get("ato", "0")
        if a == "inf":
            self.ato = None
        else:
            try:
                self.ato = max(F(a), F(0))
            except ValueError:
                self.ato = F(0)
        snr = int(o.get("snr", 0))
        self.implicit_start = snr == -1
        self.ast = 0
        self.aet = self.pres = self.stop = None
        end_k = None       # number of segments up to the end
        stop_k = None
        if start is not None:
            if "modulo" in o:
                raise Refused("start and modulo")
            self.ast = fl(start, D)
            if self.mup is None:
                self.mup = 10
            if durs:
                ends = []
                tot = 0
                for d in durs:
                    tot += d
                    ends.append((fl(start + tot, D), tot))
                end_k = (ends[-1][0] - self.ast) // D
                pick = ends[-1]
                for e in ends:
                    if now_i <= e[0] - 2 * self.mup:
                        pick = e
                        break
                self.aet, self.pres = pick
            if stop is not None:
                self.stop = -(-stop // D) * D
                self.pres = self.stop - self.ast
                self.tsbd = self.stop - self.ast
                stop_k = self.pres // D
        if int(o.get("tfdt", 0)) == 32:
            if "cont" in o:
                raise Refused("tfdt and cont")
            self.ast = fl(now_i, 10800)
            self.aet = self.ast + 10800
            self.pres = 10800
            self.mup = 5400
        if "cont" in o:
            self.ast = fl(now_i - D, D)
            self.aet = self.ast + 10800
            self.pres = 10800
            self.mup = 10800
        if "modulo" in o:
            x = int(o["modulo"])
            per = 60 * x
            base = fl(now_i, per)
            pos = now_i - base
            self.ast = base
            if pos * 10 < per:
                share = 2
            elif pos * 10 < 3 * per:
                share = 4
            elif pos * 10 < 5 * per:
                share = 6
            elif pos * 10 < 9 * per:
                share = 8
            else:
                share = 2
                self.ast += per
            self.mup = F(per, 20)
            self.pres = per * share // 10
            self.aet = self.ast + self.pres + self.mup
            end_k = self.pres // D
        self.T = int(o["timeoffset"]) if "timeoffset" in o else None
        self.mt0 = self.ast - self.T if self.T is not None else 0
        self.first = (1 if snr == -1 else snr) + (self.mt0 // D if self.T is not None else 0)
        self.last = self.first + end_k - 1 if end_k is not None else None
        self.beyond = self.first + stop_k if stop_k is not None else None

    # -- availability
    def end_of(self, N):
        "Wall-clock end time of segment N."
        return self.ast + (N - self.first + 1) * self.D

    def available(self, N, now):
        "Is media segment N served at time now?"
        k = N - self.first
        if k < 0:
            return False
        if self.last is not None and N > self.last:
            return False
        if self.beyond is not None and N >= self.beyond:
            return False
        if self.aet is not None and int(now) > self.aet + 60:
            return False
        if self.ato is None:
            return now >= self.ast
        e = self.end_of(N)
        if now < e - self.ato:
            return False
        if self.beyond is None and now > e + self.D + self.tsbd:
            return False
        return True

    def window(self, now):
        "Range (lo, hi) of numbers available at now (inclusive; lo > hi if none). Finite ato only."
        hi = self.first + int((F(now) + self.ato - self.ast) // self.D) - 1
        lo = self.first
        if self.beyond is None:
            lo = max(lo, self.first - 1 + int(-((self.ast - F(now) + self.D + self.tsbd) // self.D)))
        if self.last is not None:
            hi = min(hi, self.last)
        if self.beyond is not None:
            hi = min(hi, self.beyond - 1)
        return lo, hi

    def init_available(self, now):
        return int(now) >= self.ast - self.init_off

    def lmsg(self, N):
        return self.last is not None and N == self.last

    # -- mapping
    def media_time(self, N):
        "Nominal media time in seconds of segment N."
        return (N - self.first) * self.D + self.mt0

    def source(self, N):
        "(index of the VoD segment within the loop, completed loops)."
        loops, rest = divmod(self.media_time(N), self.c.n * self.D)
        return rest // self.D, loops

    def tfdt(self, N, track):
        i, loops = self.source(N)
        return self.c.bounds(track)[i] + loops * self.c.loop_ticks(track)


def seg_path(opts, content, rep, N, prefix="livesim", ext=".m4s"):
    return "/" + "/".join([prefix] + ["%s_%s" % (k, v) for k, v in opts] +
                          [content.name, content.reldir(rep), "%s%s" % (N, ext)])


def mpd_path(opts, content, prefix="livesim"):
    return "/" + "/".join([prefix] + ["%s_%s" % (k, v) for k, v in opts] + [content.name, content.mpd_name])


def init_path(opts, content, rep, prefix="livesim"):
    return seg_path(opts, content, rep, "init", prefix, ".mp4")


def timeline(session, content, track, now_i, pstart=0, pend=None):
    """Reference segment timeline: list of (media index j, start, duration) in track ticks.

    Window: from max(AST + pstart, now - tsbd) (session start if the session has a stop time) to
    min(now, period end, session end); entries never precede the first segment of the session."""
    s = session
    b = content.bounds(track)
    loop = content.loop_ticks(track)
    n = content.n
    ts = track["ts"]
    ws = max(s.ast + pstart, now_i - s.tsbd)
    we = now_i
    if pend is not None:
        we = min(we, s.ast + pend)
    if s.stop is not None:
        ws = s.ast + pstart
        we = min(we, s.stop)
    if s.last is not None:
        we = min(we, s.end_of(s.last))
    ws = (ws - s.ast + s.mt0) * ts
    we = (we - s.ast + s.mt0) * ts

    def start(j):
        return (j // n) * loop + b[j % n]

    # latest index with start <= x
    def latest(x):
        q, r = divmod(x, loop)
        i = max(i for i in range(n) if b[i] <= r)
        return q * n + i
    j0 = max(latest(ws), s.mt0 // s.D)
    if we < 0:
        return j0, []
    j1 = latest(we)
    if start(j1 + 1) > we:
        j1 -= 1
    return j0, [(j, start(j), start(j + 1) - start(j)) for j in range(j0, j1 + 1)]
