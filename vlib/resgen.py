"""Generators of requests for all kinds of resources, with the expected outcome by construction."""
from .common import *

KINDS = ["mpd", "mpd", "init", "seg", "seg", "tseg", "thumb", "muxseg", "muxinit", "chunk", "period",
         "early", "late", "before", "nocontent", "norep", "noext", "badopt", "initearly", "nofile", "tlearly", "garbage"]
OK_KINDS = ("mpd", "init", "seg", "tseg", "thumb", "muxseg", "muxinit", "chunk", "period")
MIME = {"mpd": ("application/dash+xml",), "init": ("video/mp4",), "muxinit": ("video/mp4",), "seg": ("video/iso.segment",),
        "tseg": ("video/iso.segment",), "muxseg": ("video/iso.segment",), "chunk": ("video/iso.segment",), "thumb": ("image/jpeg",),
        "period": ("text/plain", "text/xml", "application/xml", "application/dash+xml")}


@st.composite
def contents(draw):
    spec = draw(strat.specs(kind="plain", maxn=4, multirep=False, nested=False, Ds=[1, 2, 4, 5, 6, 10]))
    for i, t in enumerate(spec["tracks"]):
        t["reps"][0]["fmt"]["tfhd"] = 0x20000
    n, D = spec["n"], spec["D"]
    spec["tracks"].append({"type": "image", "ts": 1, "fd": D, "fb": list(range(n + 1)), "reps": [{"id": "I1", "tid": 1, "fmt": {}}]})
    return spec


@st.composite
def requests(draw, kinds=KINDS):
    "(kind, parameters) of one request; resolved with `build`."
    return {"kind": draw(st.sampled_from(kinds)), "a": draw(st.integers(0, 1000)), "b": draw(st.integers(0, 3)),
            "snr": draw(st.sampled_from([None, None, "0", "5"])), "start": draw(st.booleans()),
            "x": draw(st.sampled_from(["", "", "tsbd_60", "mup_5", "utc_direct", "init_10", "utc_direct-head", "sidx_1", "scte35_2",
                                       "ato_1", "mup_5/tsbd_60/sidx_1"])), "ll": draw(st.booleans())}


def build(c, q, base_t):
    """-> (path, now, expected status or None).  base_t: some epoch time >= 10^6."""
    D = c.D
    k = q["kind"]       # "ll": in a low-latency session, what is not sent in chunks is as in others
    now = base_t + q["a"] * 0.25
    o = []
    ast = 0
    if q["start"] or k in ("before", "initearly", "tlearly"):
        S = int(base_t) - 300
        o.append("start_%d" % S)
        ast = S // D * D
    first = 0
    if q["snr"] is not None and k != "period":
        o.append("snr_%s" % q["snr"])
        first = int(q["snr"])
    if q["x"]:
        o.append(q["x"])
    if q.get("ll") and k in ("mpd", "init", "initearly", "thumb", "muxseg", "muxinit", "early", "before", "nocontent", "norep"):
        o.append("chunkdur_1")
    N = first + int((F(now) - ast) // D) - 1
    V, A = c.track("video")["reps"][0]["id"], c.track("audio")["reps"][0]["id"]
    nm = c.name
    status = 200 if k in OK_KINDS else 404
    if k == "mpd":
        p = [nm, c.mpd_name]
    elif k == "init":
        p = [nm, (V, A)[q["b"] % 2], "init.mp4"]
    elif k == "initearly":
        p = [nm, V, "init.mp4"]
        now = ast - 11.0 - q["a"]
    elif k == "seg":
        p = [nm, (V, A)[q["b"] % 2], "%d.m4s" % N]
    elif k in ("tseg", "tlearly"):
        t = c.track(("video", "audio")[q["b"] % 2])
        loops, i = divmod(N - first, c.n)
        tt = c.bounds(t)[i] + loops * c.loop_ticks(t) + (4 * D * t["ts"] if k == "tlearly" else 0)
        o.insert(0, "segtimeline_1")
        p = [nm, t["reps"][0]["id"], "t%d.m4s" % tt]
    elif k == "thumb":
        p = [nm, "I1", "%d.jpg" % N]
    elif k == "muxseg":
        p = [nm, "%s__%s" % (V, A), "%d.m4s" % N]
    elif k == "muxinit":
        p = [nm, "%s__%s" % (V, A), "init.mp4"]
    elif k == "chunk":
        o.append("chunkdur_%s" % ("1", "2")[q["b"] % 2])
        p = [nm, (V, A)[q["b"] // 2], "%d.m4s" % N]
    elif k == "period":
        o = [x for x in o if not x.startswith("start_")]
        o += ["periods_60", "xlink_60"]
        p = [nm, c.mpd_name]     # resolved by the caller through the MPD
    elif k == "early":
        p = [nm, V, "%d.m4s" % (N + 4)]
    elif k == "late":
        p = [nm, V, "%d.m4s" % max(0, N - 70 // D - c.tsbd // D - 5)] if not q["start"] else [nm, V, "%d.m4s" % (N + 9)]
    elif k == "before":
        p = [nm, V, "%d.m4s" % (first - 1 - q["b"])]
    elif k == "nocontent":
        p = ["nosuch", V, "%d.m4s" % N]
    elif k == "norep":
        p = [nm, "X9", "%d.m4s" % N]
    elif k == "noext":
        p = [nm, V, ("%d.txt", "%d", "%d.m4sx", "%d.M4S")[q["b"]] % N]
    elif k == "nofile":
        p = [nm] + [[V, "nosuch.mp4"], ["nosuch.mpd"], [V, ("abc.m4s", "t.m4s", "%d.0.m4s" % N, "%de0.m4s" % N, "%d.5.m4s" % N)[q["a"] % 5]],
                    [V, ("tt%d.m4s", "t0x%d.m4s", "%d.m4s.m4s", "0x%d.m4s", "%d..m4s", "n%d.m4s")[q["a"] % 6] % N]][q["b"]]
    elif k == "badopt":
        o = [x for x in o if not x.startswith(("utc_", "start_"))]
        o.insert(0, ("utc_bogus", "tfdt_32", "start_abc", "zz_1")[q["b"]])
        if q["b"] == 1:
            o.insert(0, "cont_1")
        p = [nm, c.mpd_name]
    else:
        p = [["", "", ""], ["x"], [nm], ["..", "a.mpd"]][q["b"]]  # noqa
    if k == "late" and c.tsbd > 3000:
        status = None
    return "/" + "/".join(["livesim"] + o + p), now, status
