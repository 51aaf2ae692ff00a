"""Requests only reach the files of the content they name."""
import hashlib
import json
import os
import shutil
import sys

from vlib.common import *
from vlib.content import scratch

_REC = None


def _hook(event, args):
    if _REC is not None and event == "open" and isinstance(args[0], (str, bytes)):
        _REC.append(os.fsdecode(args[0]))


_hooked = False


def opened(f):
    "(result, paths of the files opened while f ran)"
    global _REC, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    _REC = []
    try:
        r = f()
        return r, list(_REC)
    finally:
        _REC = None


PLACES = ["", "outside", "content", "content/other", "content/vod", "content/vod1x", "content/other/deep/er", "conf", "content/vod1/../vod2"]
NOISE = ["", ".", "x", "..", "%2e%2e", "..%2f", "vod1", "...", "tsbd_30"]


def build(case):
    "A tree with the content and media files of the same names in other places."
    c = materialize(case["spec"])
    key = hashlib.sha1(json.dumps([case["spec"], case["place"]], sort_keys=True).encode()).hexdigest()
    top = os.path.join(scratch(), "c36_" + key)
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(c.root, os.path.join(top, "content"))
    shutil.copytree(c.conf, os.path.join(top, "conf"))
    allowed = os.path.realpath(os.path.join(top, "content", c.name))
    confs = {os.path.realpath(os.path.join(top, "conf", f)) for f in os.listdir(c.conf)}
    place = os.path.normpath(os.path.join(top, case["place"]))
    src = os.path.join(c.root, c.name)
    os.makedirs(place, exist_ok=True)
    for _t, r in c.reps():
        d = os.path.join(place, r["id"])
        if not os.path.exists(d):
            shutil.copytree(os.path.join(src, c.reldir(r)), d)
    for f in os.listdir(src):
        if os.path.isfile(os.path.join(src, f)) and not os.path.exists(os.path.join(place, f)):
            shutil.copy(os.path.join(src, f), os.path.join(place, f))
    t, r = c.reps()[0]          # Media files that parent directories as names of representations would lead to
    src = os.path.join(src, c.reldir(r))
    for d in {place, os.path.join(top, "content"), top}:
        for f in os.listdir(src):
            if os.path.isfile(os.path.join(src, f)) and not os.path.exists(os.path.join(d, f)):
                shutil.copy(os.path.join(src, f), os.path.join(d, f))
    return c, top, place, allowed, confs


@st.composite
def cases(draw):
    spec = draw(strat.specs(kind="plain", maxn=2, maxD=4, types=("video", "audio")))
    return {"spec": spec, "place": draw(st.sampled_from(PLACES)),
            "reqs": draw(st.lists(st.fixed_dictionaries({
                "how": st.sampled_from(["rel", "rel", "abs", "abs2", "content", "noise", "plain", "plain", "name", "up", "up"]),
                "esc": st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["%2f", "%2F", "%252f", "\\", "/%2e%2e/", "%00"]), st.integers(0, 6), st.integers(1, 7))),
                "escf": st.integers(0, 3).map(lambda x: x == 0), "up": st.lists(st.sampled_from(["..", "..", ".", "", "R", "R"]), min_size=1, max_size=3),
                "kind": st.sampled_from(["m4s", "m4s", "t", "mp4", "mpd", "period", "jpg", "chunk"]),
                "rep": st.integers(0, 5), "mux": st.booleans(), "k": st.integers(0, 5),
                "noise": st.lists(st.tuples(st.integers(0, 12), st.sampled_from(NOISE)), max_size=3)}), min_size=1, max_size=6))}


def prop(case, stats):
    c, top, place, allowed, confs = build(case)
    root, conf = os.path.join(top, "content"), os.path.join(top, "conf")
    try:
        for q in case["reqs"]:
            t, r = pick_rep(c, q["rep"])
            rid = r["id"]
            if q["mux"] and q["kind"] in ("m4s", "mp4", "chunk"):
                o = [x["id"] for tt, x in c.reps() if tt["type"] != t["type"]]
                if o:
                    rid = rid + "__" + o[0]
            now = 10 ** 6 + q["k"] * c.D
            N = now // c.D - 1
            f = {"m4s": "%d.m4s" % N, "chunk": "%d.m4s" % N, "t": "t%d.m4s" % (N * c.D * t["ts"]), "mp4": "init.mp4", "mpd": c.mpd_name,
                 "period": c.mpd_name + "+p0.period", "jpg": "%d.jpg" % N}[q["kind"]]
            opts = []
            if q["kind"] == "t":
                opts = ["segtimeline_1"]
            if q["kind"] == "chunk":
                opts = ["chunkdur_1", "ato_inf"]
            if q["kind"] == "period":
                opts = ["periods_60", "xlink_60"]
            inner = [] if q["kind"] in ("mpd", "period") else c.reldir(r).split("/")[:-1] + [rid]
            last = inner[-1:]
            sub = [] if os.path.dirname(c.reldir(r)) == "" else inner[:-1]
            if q["how"] == "plain":
                parts = [c.name] + inner
            elif q["how"] == "up":         # Parent directories for names of representations
                ups = [rid if x == "R" else x for x in q["up"]]
                parts = [c.name] + (inner[:-1] if q["noise"] else []) + ["__".join(ups) if q["mux"] else "/".join(ups)]
                parts = "/".join(parts).split("/")
            elif q["how"] == "rel":
                parts = [c.name] + os.path.relpath(place, os.path.join(root, c.name)).split("/") + last
            elif q["how"] == "abs":
                parts = [c.name] + place.split("/") + last
            elif q["how"] == "abs2":
                parts = [c.name] + [""] + place.split("/") + last
            elif q["how"] == "content":
                parts = os.path.relpath(place, root).split("/") + last
            elif q["how"] == "name":       # via the configuration directory
                parts = os.path.relpath(os.path.join(root, c.name), conf).split("/") + inner
            else:
                parts = [c.name] + sub + ["x", ".."] + last
            if q["how"] not in ("plain", "up"):
                for at, x in q["noise"]:
                    i = 1 + at % max(1, len(parts))
                    parts[i:i] = [x]
            if q["how"] not in ("plain", "up") and q["esc"] and not q["escf"] and len(parts) > 1:     # Some separators written in another way
                sep, i, n = q["esc"]
                i %= len(parts) - 1
                n = min(n, len(parts) - 1 - i)
                if parts[-1:] == last and i + n == len(parts) - 1 and n > 1:
                    n -= 1      # Leave the name of the representation alone
                parts[i:i + n + 1] = [sep.join(parts[i:i + n + 1])]
            if q["escf"] and q["how"] not in ("plain", "up") and q["esc"] and len(parts) > 1:      # Also the one before the file's name
                sep, i, _n = q["esc"]
                i = 1 + (i // 3) % (len(parts) - 1)
                parts, f = parts[:i], sep.join(parts[i:] + [f])
            path = "/livesim/" + "/".join(opts + parts + [f])
            what = "%s (tree %s)" % (path.replace(top, "TREE"), case["place"] or ".")
            resp, files = opened(lambda: get(c, path, now, extra_env={"CONTENT_ROOT": root, "VOD_CONF_DIR": conf}))
            real = {os.path.realpath(os.path.join("/", x)) for x in files}
            inside = {x for x in real if (x + "/").startswith(allowed + "/")}
            for x in sorted(real - inside - confs):
                if x.startswith(os.path.realpath(top) + "/") and os.path.isfile(x):
                    raise Violation("outside", "%s: %s: %s was opened" % (what, resp.status, x.replace(os.path.realpath(top), "TREE")))
            if q["how"] == "plain" and q["kind"] not in ("jpg", "period") and "__" not in rid:
                need200(resp, what)
                stats.label("plain, file of the content opened" if inside else "plain")
            elif q["how"] != "plain":
                stats.nt()
                stats.label("%s %s" % (q["how"], resp.code))
    finally:
        shutil.rmtree(top, ignore_errors=True)


SUBS = [Sub("containment", cases(), prop, quick=600, thorough=25000, rule="a request whose path leads, or tries to lead, out of the content")]
