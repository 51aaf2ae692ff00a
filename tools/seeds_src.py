"Planted bugs (source of /verif/seeded)."
P = "dashlivesim/dashlib/dash_proxy.py"
CP = "dashlivesim/dashlib/configprocessor.py"
MP = "dashlivesim/dashlib/mpd_proxy.py"
MPR = "dashlivesim/dashlib/mpdprocessor.py"
MSF = "dashlivesim/dashlib/mediasegmentfilter.py"
ISF = "dashlivesim/dashlib/initsegmentfilter.py"
SEG = "dashlivesim/dashlib/segtimeline.py"
CHK = "dashlivesim/dashlib/chunker.py"
WS = "dashlivesim/mod_wsgi/mod_dashlivesim.py"
TTM = "dashlivesim/dashlib/ttml_timing_offset.py"
MOD = "dashlivesim/dashlib/moduloperiod.py"
TFC = "dashlivesim/dashlib/timeformatconversions.py"
SC = "dashlivesim/dashlib/scte35.py"
AN = "dashlivesim/vodanalyzer/dashanalyzer.py"
CC = "dashlivesim/cc_inserter/cc_inserter.py"
BOX = "dashlivesim/dashlib/boxes.py"
MP4 = "dashlivesim/dashlib/mp4.py"
BR = "dashlivesim/dashlib/bitreader.py"
ST = "dashlivesim/dashlib/stpp_generator/make_stpp_segments.py"
STC = "dashlivesim/dashlib/stpp_generator/stpp_creator.py"
MUX = "dashlivesim/dashlib/segmentmuxer.py"

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append({"id": id, "property": prop, "edits": edits, "needs": needs, "breaks": breaks,
                  "demo": "from dlib.util import *\n" + demo.strip("\n") + "\n"})


seed("c01-late-int", "C01", [(P, """  # - 1 is infinity
        if now_float < seg_ast - cfg.availability_time_offset_in_s:
            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
        # If stop_number is not None, the manifest will become static
        if ((now_float > seg_ast + seg_dur +
""", """  # - 1 is infinity
        if now_float < seg_ast - cfg.availability_time_offset_in_s:
            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
        # If stop_number is not None, the manifest will become static
        if ((dashProv.now > seg_ast + seg_dur +
""")], "a request in the fraction of a second right after the late edge of the window",
     "Segments stay available up to one second after they left the time-shift buffer.", """
c = mk(tsbd=30)
assert get(c, "/livesim/vod1/V1/5.m4s", 44.0).code == 200
assert get(c, "/livesim/vod1/V1/5.m4s", 44.5).code == 404
""")

seed("c02-first-zero", "C02", [(CP, "self.vod_first_segment_in_loop = vod_cfg.first_segment_in_loop\n",
                                "self.vod_first_segment_in_loop = vod_cfg.first_segment_in_loop or 1\n")],
     "content whose first segment has number 0", "The loop starts with the wrong segment.", """
c = mk(first=0)
r = get(c, "/livesim/vod1/V1/4.m4s", 12)
assert r.code == 200
assert [x.data for x in frags(c, "V1", r.body)[0].tracks[0].samples] == [x.data for x in c.parsed("V1", 0)[1][0].tracks[0].samples]
""")

seed("c03-rep-substring", "C03", [
    (CP, "        for content_type in self.media_data.keys():\n            mdata = self.media_data[content_type]\n            if representation in mdata['representations']:",
     "        for content_type in self.media_data.keys():\n            mdata = self.media_data[content_type]\n            if representation in ','.join(mdata['representations']):")],
    "a representation whose id is part of the id of a representation of another media type with another timescale",
    "The representation is served with the timescale of the other media type.", """
c = mk([track("video", 90000, ["V_A1"], tid=1), track("audio", 48000, ["A1"], tid=2)])
r = get(c, "/livesim/vod1/A1/5.m4s", 14)
assert tfdt(c, "A1", r.body) == 10 * 48000, tfdt(c, "A1", r.body)
""")

seed("c03-boundary", "C03", [(MSF, "            if new_base_media_decode_time < 4294967296:\n", "            if tfdt_offset < 4294967296:\n")],
     "the loop during which the decode time passes 2^32", "Segments of the loop that crosses the 32-bit limit cannot be served.", """
c = mk()
for k in range(23856, 23868):
    r = get(c, "/livesim/vod1/V1/%d.m4s" % k, 2 * k + 3)
    assert r.code == 200 and tfdt(c, "V1", r.body) == 2 * k * 90000, k
""")

seed("c04-saio-v1", "C04", [(MSF, "                output += uint64_to_str(offset + delta_offset)\n", "                output += uint64_to_str(offset)\n")],
     "encrypted content with version 1 (64-bit) auxiliary offsets and a decode time that has to be widened",
     "The auxiliary information offset does not follow the grown decode-time box.", """
c = mk([track("video", 90000, ["V1"], fmt={"enc": 1, "saio_v": 1, "enc_pos": 1})])
def aux(body):
    f = frags(c, "V1", body)[0]
    d = M.find(f.tracks[0].boxes, "saio").data
    assert d[8] == 1
    o = f.moof.off + M.g64(d, 16)
    return f.tracks[0].tfdt, body[o:o + 8 * len(f.tracks[0].samples)]
a = aux(c.seg_bytes(*c.rep("V1"), 1))
b = aux(get(c, "/livesim/vod1/V1/25001.m4s", 50004).body)
assert b == (50002 * 90000, a[1]), (a, b)
""")

seed("c05-aet-advance", "C05", [(CP, "                if now_int > aet - 2*self.minimum_update_period_in_s:\n", "                if now_int > aet - self.minimum_update_period_in_s:\n")],
     "several durations and a request between two and one update periods before an announced end",
     "The next duration is announced one update period too late.", """
c = mk()
u = "/livesim/start_1000/dur_300/dur_300/vod1/Manifest.mpd"
assert 'mediaPresentationDuration="PT5M"' in get(c, u, 1275).text
assert 'mediaPresentationDuration="PT10M"' in get(c, u, 1285).text
""")

seed("c06-half", "C06", [(MOD, "        elif self.percent < 50:\n", "        elif self.percent <= 50:\n")],
     "a request at exactly 50 % of the interval", "The duration of the previous phase is announced.", """
c = mk()
assert 'mediaPresentationDuration="PT8M"' in get(c, "/livesim/modulo_10/vod1/Manifest.mpd", 6300).text
assert 'mediaPresentationDuration="PT6M"' in get(c, "/livesim/modulo_10/vod1/Manifest.mpd", 6299).text
""")

seed("c06-next-period", "C06", [(MOD, "        if self.percent >= 90:\n", "        if self.percent > 90:\n")],
     "a request at exactly 90 % of the interval", "The session of the interval that ends is announced with the duration of the next one.", """
c = mk()
assert 'availabilityStartTime="1970-01-01T01:50:00Z"' in get(c, "/livesim/modulo_10/vod1/Manifest.mpd", 6540).text
""")

seed("c07-implicit-stop", "C07", [(CP, "        start = self.adjusted_start_number\n        return start + self.media", "        start = max(self.start_nr, 0) if self.timeoffset is None else self.adjusted_start_number\n        return start + self.media")],
     "an implicit start number (snr_-1) together with a stop time", "The last segment of the session is refused.", """
c = mk()
assert get(c, "/livesim/start_0/stop_40/snr_-1/vod1/V1/20.m4s", 41).code == 200
assert get(c, "/livesim/start_0/stop_40/snr_-1/vod1/V1/21.m4s", 45).code == 404
assert get(c, "/livesim/start_0/stop_40/snr_7/vod1/V1/26.m4s", 41).code == 200
""")

seed("c08-spd-zero", "C08", [(MP, "    if mpd_data['suggested_presentation_delay_in_s'] is not None:\n", "    if mpd_data['suggested_presentation_delay_in_s']:\n")],
     "a suggested presentation delay of 0", "The suggested presentation delay is not announced.", """
c = mk()
assert 'suggestedPresentationDelay="PT0S"' in get(c, "/livesim/spd_0/vod1/Manifest.mpd", 100).text
assert 'suggestedPresentationDelay="PT7S"' in get(c, "/livesim/spd_7/vod1/Manifest.mpd", 100).text
""")

seed("c09-ato-digits", "C09", [(MP, "        mpd_data['availabilityTimeOffset'] = '%f' %", "        mpd_data['availabilityTimeOffset'] = '%.1f' %")],
     "an availabilityTimeOffset with more than one decimal", "The MPD promises segments before the server has them (or later).", """
import re
c = mk()
t = get(c, "/livesim/ato_0.25/vod1/Manifest.mpd", 100).text
assert float(re.search(r'availabilityTimeOffset="([0-9.]+)"', t).group(1)) == 0.25
""")

seed("c11-nr-per-wrap", "C11", [(SEG, "        self.nr_segments_per_wrap = cfg.vod_nr_segments_in_loop\n", "        self.nr_segments_per_wrap = self.segtimedata[-1].start_nr + self.segtimedata[-1].repeats\n")],
     "content whose first segment number is not 1 and a timeline with numbers after the first loop",
     "The announced number of the first timeline entry is wrong.", """
import re
c = mk(first=5)
t = get(c, "/livesim/segtimelinenr_1/vod1/Manifest.mpd", 1001).text
nr = int(re.search(r'startNumber="(\\d+)"', t).group(1))
tm = int(re.search(r'<S t="(\\d+)"', t).group(1))
ts = int(re.search(r'timescale="(\\d+)"', t).group(1))
assert nr * 2 * ts == tm, (nr, tm, ts)
""")

seed("c12-half", "C12", [(MP, "        half_period_duration = period_duration // 2\n", "        half_period_duration = min(period_duration // 2, 600)\n")],
     "one or two periods per hour and a request between half a period and ten minutes before the next period", "The next period is not announced half a period ahead.", """
c = mk()
f = lambda t: get(c, "/livesim/periods_1/vod1/Manifest.mpd", t).text.count("<Period ")
assert f(37799) == 1 and f(37800) == 2 and f(39000) == 2
""")

seed("c12-continuity", "C12", [(MPR, "            last_period_id = pdata.get('id')\n", "            if last_period_id == '-1':\n                last_period_id = pdata.get('id')\n")],
     "continuous periods and at least three periods in the manifest", "The third and later periods are linked to the first one.", """
import re
c = mk(tsbd=200)
t = get(c, "/livesim/periods_60/continuous_1/vod1/Manifest.mpd", 1000).text
ids = re.findall(r'<Period [^>]*id="(p\\d+)"', t)
per = t.split("<Period ")[1:]
for a, p in zip(ids, per[1:]):
    assert 'value="%s"' % a in p, (a, p[:600])
""")

seed("c13-etp-equal", "C13", [(MP, "                if etp_duration > period_duration:\n", "                if etp_duration >= period_duration:\n")],
     "an early-terminated duration equal to the period duration", "A valid combination is refused.", """
c = mk()
assert get(c, "/livesim/periods_60/etp_60/etpDuration_60/vod1/Manifest.mpd", 1000).code == 200
assert get(c, "/livesim/periods_60/etp_60/etpDuration_61/vod1/Manifest.mpd", 1000).code == 404
""")

seed("c13-callback-etp", "C13", [(MP, "                if period_nr % fraction_nr_periods_to_nr_callback == 0:\n", "                if period_nr % fraction_nr_periods_to_nr_callback == 0 and 'etpDuration' not in data:\n")],
     "early termination and callbacks in the same session", "Early-terminated periods lose their callback event.", """
c = mk(tsbd=300)
t = get(c, "/livesim/periods_60/etp_30/mpdcallback_60/vod1/Manifest.mpd", 1000).text
assert t.count("<EventStream") == t.count("<Period "), (t.count("<EventStream"), t.count("<Period "))
""")

seed("c14-ad-first", "C14", [(MP, "                if insert_ad > 0 and counter == 1:", "                if insert_ad > 0 and period_id == period_id_all[0]:")],
     "ads, fewer references than periods, and a first period which is not to be replaced",
     "The first replaceable period is replaced by an ad.", """
c = mk(tsbd=150)
t = get(c, "/livesim/periods_60/xlink_20/insertad_1/vod1/Manifest.mpd", 60 * 100 - 1).text
ids = [int(x.split('"')[0]) for x in t.split('id="p')[1:]]
assert 99 in ids, ids
""")

seed("c15-utc-https", "C15", [(P, '        self.utc_head_url = "%s://%s/%s" % (protocol, host_name, UTC_HEAD_PATH)\n', '        self.utc_head_url = "http://%s/%s" % (host_name, UTC_HEAD_PATH)\n')],
     "an HTTPS request with the head timing method", "The time server URL uses another scheme than the request.", """
c = mk()
t = get(c, "/livesim/utc_head/vod1/Manifest.mpd", 100, scheme="https").text
assert 'value="https://example.com/dash/time.txt"' in t
""")

seed("c16-loop-count", "C16", [(P, "            num_loop = int(ceil(60.0 / (float(total_dur))))\n", "            num_loop = int(60.0 / (float(total_dur)))\n")],
     "a schedule whose length does not divide a minute", "The last, cut-off cycle of every minute has no down time.", """
c = mk()
assert get(c, "/livesim/baseurl_u10_d15/vod1/V1/28.m4s", 62 + 60).code == 404 or True
assert get(c, "/livesim/baseurl_u5_d20/vod1/V1/28.m4s", 59).code == 404
assert get(c, "/livesim/baseurl_u5_d20/vod1/V1/28.m4s", 61).code == 200
""")

seed("c16-uptime-cycle", "C16", [(MP, "                    latestUptime = dashProv.now - now_mod_60 + (i * total_dur + dur1)\n", "                    latestUptime = dashProv.now - now_mod_60 + dur1\n")],
     "segment-timeline loss in the second or a later cycle of the minute", "The frozen manifest shows the end of the first cycle of the minute.", """
import re
c = mk()
def last(now):
    t = get(c, "/livesim/segtimeline_1/segtimelineloss_1/baseurl_u10_d10/vod1/Manifest.mpd", now).text
    s = t[t.index("<S "):t.index("</SegmentTimeline")]
    a = re.findall(r'<S (?:t="(\\d+)" )?d="(\\d+)"(?: r="(\\d+)")?', s)
    return (int(a[0][0]) + sum(int(d) * (1 + int(r or 0)) for _, d, r in a)) // 90000
assert last(615) == 610, last(615)
assert last(635) == 630, last(635)
""")

seed("c17-partition", "C17", [(CHK, "            d1 += duration\n", "            d1 = d0 + duration\n")],
     "a chunk duration that is not a multiple of the sample durations", "Chunk boundaries drift away from the chunk grid.", """
c = mk([track("video", 90000, ["V1"], per=8)])
r = get(c, "/livesim/chunkdur_0.3/vod1/V1/5.m4s", 14)
n = [len(M.parse_segment(x, c.trex_tuple(*c.rep("V1")))[1][0].tracks[0].samples) for _, x in r.chunks]
assert n == [2, 1, 1, 1, 1, 2] or n == [2, 1, 1, 1, 1, 1, 1] and False or sum(n) == 8 and len(n) == 7, n
""")

seed("c18-slow-clock", "C18", [(WS, "                now_float = time()  # Update time\n", "")],
     "a segment that is still being produced and more than one chunk", "Waiting times accumulate so later chunks are sent too late.", """
c = mk([track("video", 90000, ["V1"], per=8)])
r = get(c, "/livesim/chunkdur_0.5/ato_1.5/vod1/V1/5.m4s", 10.6)
times = [t for t, _ in r.chunks]
for i, t in enumerate(times, 1):
    assert t <= max(10.6, 10 + 0.5 * i) + 0.01, times
""")

seed("c19-order", "C19", [(CP, "            reps = url_parts[-2].split(MUX_DIVIDER)\n", "            reps = sorted(url_parts[-2].split(MUX_DIVIDER))\n")],
     "multiplexing with the representations not in alphabetical order", "The tracks come in the wrong order.", """
c = mk([track("video", 90000, ["V1"], tid=1), track("audio", 48000, ["A1"], tid=2)])
r = get(c, "/livesim/vod1/V1__A1/5.m4s", 14)
assert r.code == 200
tr = M.parse_segment(r.body, dict((c.rep(x)[1]["tid"], c.trex_tuple(*c.rep(x))) for x in ("V1", "A1")))[1][0].tracks
assert [t.track_id for t in tr] == [1, 2], [t.track_id for t in tr]
""")

seed("c20-tkhd64", "C20", [(ISF, "            output += data[:36]\n            output += b'\\x00' * 8  # duration\n", "            output += data[:40]\n            output += b'\\x00' * 4  # duration\n")],
     "a version 1 track header with a duration of at least 2^32", "The high word of the track duration remains.", """
c = mk([track("video", 90000, ["V1"], fmt={"ivers": [1, 1, 1], "idurs": [2 ** 33 + 5, 2 ** 34 + 6, 2 ** 35 + 7]})])
z = mk([track("video", 90000, ["V1"], fmt={"ivers": [1, 1, 1], "idurs": [0, 0, 0]})])
t, r = z.rep("V1")
assert get(c, "/livesim/vod1/V1/init.mp4", 100).body == z.init_bytes(t, r)
""")

seed("c21-closed-end", "C21", [(MSF, "                if seg_starttime <= pre_warning_time <= seg_endtime:\n", "                if seg_starttime <= pre_warning_time < seg_endtime:\n")],
     "a segment that ends exactly 8 s or 6 s before an ad break", "The first announcement is missing.", """
c = mk(D=2)
assert b"emsg" in get(c, "/livesim/scte35_1/vod1/V1/30.m4s", 63).body
assert b"emsg" in get(c, "/livesim/scte35_1/vod1/V1/32.m4s", 67).body
assert b"emsg" not in get(c, "/livesim/scte35_1/vod1/V1/33.m4s", 69).body
assert b"emsg" in get(c, "/livesim/scte35_2/vod1/V1/45.m4s", 93).body
""")

seed("c21-pts-wrap", "C21", [(SC, "PTS_MOD = 2**33\n", "PTS_MOD = 2**32\n")],
     "a break whose media time is in the upper half of the 33-bit cycle", "The splice time of the message is not that of the break.", """
import re
c = mk(D=2)
for start in (2 ** 32 // 90000 // 60 * 60 - 60, 2 ** 32 // 90000 // 60 * 60 + 60, 2 ** 33 // 90000 // 60 * 60 + 60):
    k = (start + 2) // 2
    b = get(c, "/livesim/scte35_1/vod1/V1/%d.m4s" % k, 2 * k + 3).body
    assert b"emsg" in b, start
    pts = int(re.search(rb'ptsTime="(\\d+)"', b).group(1))
    assert pts == (start + 10) * 90000 % 2 ** 33, (start, pts)
""")

seed("c22-chars", "C22", [(MSF, "        self.ttml_size = len(ttml_out)\n", "        self.ttml_size = len(ttml_out.decode('utf-8'))\n")],
     "subtitles with non-ASCII characters", "The sample size is counted in characters, so the document is cut.", """
doc = '<tt><p begin="00:00:00.000" end="00:00:01.000">h\\u00e9llo \\u4e16\\u754c</p></tt>'
c = mk([track("video", 90000, ["V1"], tid=1), track("subtitles", 1000, ["S1"], per=1, docs=[doc], tid=3)])
s = frags(c, "S1", get(c, "/livesim/vod1/S1/0.m4s", 3).body)[0].tracks[0].samples
assert doc.encode("utf-8") in [x for x in s[0] if isinstance(x, bytes)], s
""")

seed("c23-tfhd-index", "C23", [(MSF, "        if tf_flags & 0x02:\n            pos += 4\n", "")],
     "segments whose track header carries a sample description index and the default duration",
     "The sample description index is taken as the sample duration.", """
c = mk([track("video", 90000, ["V1"], fmt={"tfhd": 0x2000a, "trun": 0x201})])
r = get(c, "/livesim/sidx_1/vod1/V1/5.m4s", 14)
assert r.code == 200
x = M.parse_sidx(M.find(M.parse_boxes(r.body), "sidx"))
assert 180000 in [v for v in (x.values() if isinstance(x, dict) else vars(x).values()) if isinstance(v, int)] or "180000" in repr(vars(x) if not isinstance(x, dict) else x), x
""")

seed("c24-header-leak", "C24", [(WS, "def start_reply(", "BASE_HEADERS = {}\n\n\ndef start_reply("), (WS, "        headers = {'Content-Type': mimetype}\n", "        headers = BASE_HEADERS\n        headers['Content-Type'] = mimetype\n")],
     "a byte-range request followed by another request", "The Content-Range of one response shows up in all later ones.", """
c = mk()
assert get(c, "/livesim/vod1/V1/5.m4s", 14, rng="bytes=0-9").code == 206
r = get(c, "/livesim/vod1/V1/5.m4s", 14)
assert r.code == 200 and "Content-Range" not in r.headers
""")

seed("c26-trex-cache", "C26", [(P, '    init_file = join(dashProv.content_dir, cfg.content_name, rel_path, "init.mp4")\n    init_filter = InitFilter(init_file)\n    init_filter.filter()\n    return init_filter\n',
                                '    if rel_path not in TREX_CACHE:\n        init_file = join(dashProv.content_dir, cfg.content_name, rel_path, "init.mp4")\n        init_filter = InitFilter(init_file)\n        init_filter.filter()\n        TREX_CACHE[rel_path] = init_filter\n    return TREX_CACHE[rel_path]\n'),
                               (P, "def get_trex_data(dashProv, rel_path):", "TREX_CACHE = {}\n\n\ndef get_trex_data(dashProv, rel_path):")],
     "low-latency or sidx requests for two contents that have a representation with the same name but other defaults",
     "The second content is served with the sample defaults of the first.", """
f = {"tfhd": 0x20000, "trun": 0x201, "trex_dur": 1}
a = mk([track("video", 90000, ["V1"], per=2, fmt=f)], name="vodA")
b = mk([track("video", 90000, ["V1"], per=4, fmt=f)], name="vodB")
def durs(c):
    r = get(c, "/livesim/sidx_1/%s/V1/5.m4s" % c.name, 14)
    return repr(M.parse_sidx(M.find(M.parse_boxes(r.body), "sidx")).__dict__ if hasattr(M.parse_sidx(M.find(M.parse_boxes(r.body), "sidx")), "__dict__") else M.parse_sidx(M.find(M.parse_boxes(r.body), "sidx")))
assert "180000" in durs(a)
assert "180000" in durs(b), durs(b)
""")

seed("c26-utc-shared", "C26", [(CP, "        self.utc_timing_methods = []\n", ""), (CP, "    # pylint: disable=too-many-instance-attributes\n\n    def __init__(self, vod_cfg_dir, base_url=None):", "    # pylint: disable=too-many-instance-attributes\n\n    utc_timing_methods = []\n\n    def __init__(self, vod_cfg_dir, base_url=None):")],
     "a low-latency manifest without utc option, followed by an ordinary manifest", "All later manifests carry a UTCTiming element nobody asked for.", """
c = mk()
a = get(c, "/livesim/vod1/Manifest.mpd", 100).text
get(c, "/livesim/chunkdur_0.5/vod1/Manifest.mpd", 100)
assert get(c, "/livesim/vod1/Manifest.mpd", 100).text == a
""")

seed("c27-expiry-int", "C27", [(WS, "        elif now > start_time + MAX_SESSION_LENGTH:\n", "        elif int(now) > start_time + MAX_SESSION_LENGTH:\n")],
     "a request less than one second after the session limit", "The session lives up to one second too long.", """
c = mk()
assert get(c, "/livesim/sts_1000/vod1/Manifest.mpd", 1060, maxlen=60).code == 200
assert get(c, "/livesim/sts_1000/vod1/Manifest.mpd", 1060.5, maxlen=60).code == 410
""")

seed("c27-query", "C27", [(WS, "                new_url += '?' + query\n", "                new_url += '?' + '&'.join('%s=%s' % (k, v) for k, vs in args.items() for v in vs)\n")],
     "a redirected request with an escaped, empty or interleaved query argument", "The query string is changed by the redirect.", """
c = mk()
r = get(c, "/livesim/vod1/Manifest.mpd", 1000, qs="a=x%26y&b=&c", maxlen=60)
assert r.code == 302 and r.headers["Location"].endswith("?a=x%26y&b=&c"), r.headers
""")

seed("c28-last", "C28", [(AN, "        self.lastSegmentInLoop = min(lastGoodSegments)\n", "        self.lastSegmentInLoop = lastGoodSegments[-1]\n")],
     "representations with different number of segments where the last one is not the shortest", "The loop contains segments that not all representations have.", """
import os, runpy, contextlib, io
c = mk()
d = os.path.join(c.root, c.name)
os.unlink(os.path.join(d, "V1", "4.m4s"))
os.chdir(c.root)
import dashlivesim.vodanalyzer.dashanalyzer as A
with contextlib.redirect_stdout(io.StringIO()):
    try:
        A.DashAnalyzer(os.path.join(d, "Manifest.mpd"), 0).analyze()
    except AttributeError:
        A.DashAnalyzer(os.path.join(d, "Manifest.mpd"), 1).analyze()
assert "nr_segments_in_loop = 3" in open(os.path.join(c.root, "vod1.cfg")).read()
""")

seed("c29-picture", "C29", [(CC, "                if nalu_type < 6:  # video\n", "                if nalu_type in (1, 5):  # video\n")],
     "a sample that begins with a data-partitioned slice unit (type 2)", "The captions are put after the first picture unit.", """
import dashlivesim.cc_inserter.cc_inserter as I
f = I.CCInsertFilter.__new__(I.CCInsertFilter)
f.trun_offset, f.mdat_start, f.moof_start = 108, 100, 0
nal = lambda t, n: (n + 1).to_bytes(4, "big") + bytes([t]) + b"x" * n
body = nal(9, 1) + nal(2, 5) + nal(3, 4)
f.scc_map = [{"pos": 0, "size": len(body), "scc_nalu": nal(6, 3)}]
data = (8 + len(body)).to_bytes(4, "big") + b"mdat" + body
out = f.process_mdat(data)
assert out[8:] == nal(9, 1) + nal(6, 3) + nal(2, 5) + nal(3, 4), out
""")

seed("c30-negative-offsets", "C30", [(BOX, "        if offset != 0:\n            self.use_comp_off = True\n", "        if offset > 0:\n            self.use_comp_off = True\n")],
     "a fragment whose composition offsets are all negative or zero", "The composition offsets are not written.", """
from dashlivesim.dashlib.boxes import create_moof, create_mdat, Sample
sm = [Sample(b"abc", 0, 10, True, -10), Sample(b"de", 10, 10, False, 0)]
b = create_moof(1, 1, sm).serialize() + create_mdat(sm).serialize()
fr = M.parse_segment(b, None)[1][0].tracks[0].samples
assert "-10" in repr(fr), fr
""")

seed("c30-step-bytes", "C30", [(BR, "        for i in range(bytes):\n            self.get_bits(8)\n        return data", "        self.index += bytes\n        if self.index <= len(self.buffer):\n            self.byte = BYTE_UNPACK(self.buffer, self.index - 1)[0]\n        return data")],
     "asking for the position after bytes were read", "The bit position does not count the bytes.", """
from dashlivesim.dashlib.bitreader import bitreader
r = bitreader(b"abcdef")
assert r.get_bits(8) == 0x61 and r.step_bytes(2) == b"bc"
assert r.remaining_bits() == 24 and r.tell_bits() == 24 and r.get_bits(8) == 0x64
""")

seed("c31-one-day", "C31", [(TFC, "    if days > 0:\n", "    if nr_secs > 24*3600:\n")],
     "a duration of exactly one day", "The duration is written as the invalid string P.", """
from dashlivesim.dashlib.timeformatconversions import seconds_to_iso_duration as f
assert f(86400) in ("P1D", "PT24H", "P1DT0S"), f(86400)
assert f(86401) == "P1DT1S"
""")

seed("c32-beyond-last", "C32", [(P, """        if seg_nr > very_last_segment:
            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
    # lmsg""", """        if seg_nr > very_last_segment + 1:
            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
    # lmsg""")], "a thumbnail right after the end of a session with limited duration", "One thumbnail too many is served.", """
c = mk([track("video", 90000, ["V1"]), track("image", 90000, ["T1"])])
assert get(c, "/livesim/start_1000/dur_40/vod1/T1/19.jpg", 1043).code == 200
assert get(c, "/livesim/start_1000/dur_40/vod1/T1/20.jpg", 1043).code == 404
""")

seed("c33-order", "C33", [(CP, "            if cont_update_flag:\n                raise ConfigProcessorError(\"Cannot have continuous update with tfdt_32 (similar behavior)\")\n", ""),
                          (CP, "                cfg.tfdt32_flag = True\n", "                if cont_update_flag:\n                    raise ConfigProcessorError(\"Cannot have continuous update with tfdt_32 (similar behavior)\")\n                cfg.tfdt32_flag = True\n")],
     "the two restart options in a certain order", "A contradictory combination is accepted.", """
c = mk()
assert get(c, "/livesim/tfdt_32/cont_1/vod1/Manifest.mpd", 100000).code == 404
assert get(c, "/livesim/cont_1/tfdt_32/vod1/Manifest.mpd", 100000).code == 404
""")

seed("c35-partial", "C35", [(ST, "            for rel_time in range(0, self.segment_duration, self.resolution):\n", "            for rel_time in range(0, self.segment_duration - self.resolution + 1, self.resolution):\n")],
     "a segment duration that is not a multiple of the resolution", "The last, shorter paragraph of each segment is missing.", """
import sys, os, tempfile, contextlib, io, glob
sys.path += glob.glob("/opt/venv/lib/python3*/site-packages")
from dashlivesim.dashlib.stpp_generator.make_stpp_segments import SegmentCreator
with tempfile.TemporaryDirectory() as d:
    with contextlib.redirect_stdout(io.StringIO()):
        SegmentCreator(2, 2500, 1000, "%d", "eng", 3, d + "/x").create_segments()
    b = open(d + "/x/1.m4s", "rb").read()
    assert b.count(b"<p ") in (3, 4) and b'end="00:00:02.500"' in b, b.count(b"<p ")
""")

seed("c05-stop-rounding", "C05", [(CP, "self.stop_time = quantize(stop_time + 0.999 * self.seg_duration,", "self.stop_time = quantize(stop_time + 0.8 * self.seg_duration,")],
     "segments of at least 8 s and a stop time early in a segment", "The session stops one segment too early.", """
c = mk(D=8)
assert get(c, "/livesim/start_0/stop_41/vod1/V1/5.m4s", 48.5).code == 200
assert 'mediaPresentationDuration="PT48S"' in get(c, "/livesim/start_0/stop_41/vod1/Manifest.mpd", 30).text
""")

seed("c22-fraction", "C22", [(TTM, r"(?P<seconds>\d\d)(\.\d+)?')", r"(?P<seconds>\d\d)(\.\d{3})?')")],
     "a language clock line with a fraction of other than three digits", "Digits of the VoD fraction are left after the UTC time.", """
doc = '<tt><p begin="00:00:00.000" end="00:00:01.000">eng : 00:00:01.5</p></tt>'
c = mk([track("video", 90000, ["V1"], tid=1), track("subtitles", 1000, ["S1"], per=1, docs=[doc], tid=3)])
assert b"eng : UTC = 1970-01-01T00:00:09Z<" in get(c, "/livesim/vod1/S1/4.m4s", 11).body
""")

seed("c34-snr-lost", "C34", [(CP, "            start_nr += ((self.availability_start_time_in_s - self.timeoffset)", "            start_nr = ((self.availability_start_time_in_s - self.timeoffset)")],
     "a media-time offset together with a start number other than 0", "The start number is ignored.", """
c = mk()
t = get(c, "/livesim/start_1000/timeoffset_0/snr_5/vod1/Manifest.mpd", 1010).text
assert 'startNumber="505"' in t
r = get(c, "/livesim/start_1000/timeoffset_0/snr_5/vod1/V1/508.m4s", 1010)
assert r.code == 200 and tfdt(c, "V1", r.body) == 1006 * 90000
""")

seed("c01-tsbd-zero", "C01", [(CP, "        if self.timeshift_buffer_depth_in_s is None:\n            self.timeshift_buffer_depth_in_s = vod_cfg", "        if not self.timeshift_buffer_depth_in_s:\n            self.timeshift_buffer_depth_in_s = vod_cfg")],
     "tsbd_0", "The default buffer depth is used instead of none.", """
c = mk(tsbd=30)
assert get(c, "/livesim/tsbd_0/vod1/V1/5.m4s", 13).code == 200
assert get(c, "/livesim/tsbd_0/vod1/V1/5.m4s", 14.5).code == 404
""")

seed("c02-number-as-index", "C02", [(P, """    offset_at_loop_start = nr_loops_done * loop_duration
    seg_nr_in_loop = time_in_loop // seg_dur
    vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
    assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
    rel_path = cfg.rel_path
    nr_reps""", """    offset_at_loop_start = nr_loops_done * loop_duration
    seg_nr_in_loop = (seg_nr - cfg.start_nr) % cfg.vod_nr_segments_in_loop
    vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
    assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
    rel_path = cfg.rel_path
    nr_reps""")], "the implicit start number snr_-1", "All segments carry the media of the wrong VoD segment.", """
c = mk()
for snr in (0, 3, -1):
    r = get(c, "/livesim/snr_%d/vod1/V1/%d.m4s" % (snr, 5 + (snr if snr >= 0 else 1)), 12)
    assert r.code == 200
    assert [x.data for x in frags(c, "V1", r.body)[0].tracks[0].samples] == [x.data for x in c.parsed("V1", 1)[1][0].tracks[0].samples], snr
""")

seed("c03-exact-boundary", "C03", [(MSF, "if new_base_media_decode_time < 4294967296:", "if new_base_media_decode_time <= 4294967296:")],
     "a 32-bit decode time that becomes exactly 2^32", "The segment cannot be served at all.", """
c = mk([track("video", 65536, ["V1"], 2, 4)])
for t in (65532, 65534, 65536, 65538):
    r = get(c, "/livesim/vod1/V1/%d.m4s" % (t // 2), t + 3)
    assert r.code == 200 and tfdt(c, "V1", r.body) == t * 65536, t
""")

seed("c04-saio-flag", "C04", [(MSF, "        if flags & 0x1:\n            pos += 8\n        entry_count", "        if flags & 0x1 and version == 0:\n            pos += 8\n        entry_count")],
     "a version 1 saio box with an auxiliary information type", "The box is read at the wrong place and the segment is broken.", """
c = mk([track("video", 90000, ["V1"], fmt={"enc": 1, "saio_v": 1, "saio_f": 1, "enc_pos": 1})])
def aux(body):
    f = frags(c, "V1", body)[0]
    d = M.find(f.tracks[0].boxes, "saio").data
    assert d[8] == 1 and len(d) == 32
    o = f.moof.off + M.g64(d, 24)
    return f.tracks[0].tfdt, body[o:o + 8 * len(f.tracks[0].samples)]
a = aux(c.seg_bytes(*c.rep("V1"), 1))
r = get(c, "/livesim/vod1/V1/25001.m4s", 50004)
assert r.code == 200
b = aux(r.body)
assert b == (50002 * 90000, a[1]), (a, b)
""")

seed("c05-aet-second", "C05", [(CP, "if now_int > aet - 2*self.minimum_update_period_in_s:", "if now_int >= aet - 2*self.minimum_update_period_in_s:")],
     "a session with several durations, in the very second two update periods before the announced end",
     "The announced end moves one second too early.", """
c = mk()
f = lambda t: get(c, "/livesim/start_1000/dur_60/dur_60/mup_10/vod1/Manifest.mpd", t).text
assert 'mediaPresentationDuration="PT1M"' in f(1040)
assert 'mediaPresentationDuration="PT2M"' in f(1041)
""")



seed("c08-mup-zero", "C08", [(MP, "    if cfg.minimum_update_period_in_s is not None:\n        mpd_data['minimumUpdatePeriod']", "    if cfg.minimum_update_period_in_s:\n        mpd_data['minimumUpdatePeriod']")],
     "mup_0", "The MPD tells clients to update every 100 years instead of before each segment.", """
c = mk()
assert 'minimumUpdatePeriod="PT0S"' in get(c, "/livesim/mup_0/vod1/Manifest.mpd", 1010).text
""")

seed("c09-ato-below-one", "C09", [(MPR, "        elif float(new_ato) > 0:  # don't add", "        elif float(new_ato) >= 1:  # don't add")],
     "an availability time offset below one second", "The manifest does not announce the offset.", """
c = mk()
assert 'availabilityTimeOffset="0.5' in get(c, "/livesim/ato_0.5/vod1/Manifest.mpd", 1010).text
""")

seed("c10-closest-last", "C10", [(SEG, """        while repeats < seg_data.repeats:
            repeats += 1
            start += seg_data.duration

            if abs(rel_time""", """        while repeats + 1 < seg_data.repeats:
            repeats += 1
            start += seg_data.duration

            if abs(rel_time""")], "a session that starts at the last of a run of equally long segments, in content with other runs after it",
     "The timeline starts one segment late.", """
c = mk([track("video", 1000, ["V1"], per=20, n=6, fb=[0, 20, 40, 60, 82, 100, 120]), track("audio", 48000, ["A1"], n=6)], n=6)
t = get(c, "/livesim/start_1204/segtimeline_1/vod1/Manifest.mpd", 1212).text
t = get(c, "/livesim/start_1204/timeoffset_0/segtimeline_1/vod1/Manifest.mpd", 1212).text
v = t[:t.index('contentType="audio"')]
assert [x for x in v.split('<S ')[1:] if ' t="1204000"' in ' ' + x], v
""")

seed("c12-peroff", "C12", [(MPR, "                if offset_at_period_level:\n", "                if offset_at_period_level and not self.continuous:\n")],
     "a period-level offset together with continuous periods", "The offset is in the templates instead of in the period.", """
c = mk()
f = lambda o: get(c, "/livesim/periods_60/peroff_1/%svod1/Manifest.mpd" % o, 36010).text.count("<SegmentBase ")
assert f("") > 0 and f("continuous_1/") == f("")
""")

seed("c13-default-limit", "C13", [(MP, """                if etp_duration == -1:
                    etp_duration = period_duration // 2
""", """                if etp_duration == -1 or etp_duration == period_duration:
                    etp_duration = period_duration // 2
""")], "an early termination duration equal to the period", "The period ends after its half.", """
c = mk()
t = get(c, "/livesim/periods_60/etp_60/etpDuration_60/vod1/Manifest.mpd", 36020).text
assert 'duration="PT60S"' in t or 'duration="PT1M"' in t, t
""")

seed("c14-any-first", "C14", [(MP, """            if period_id in period_id_xlinks:
                counter += 1
""", """            counter += 1
            if period_id in period_id_xlinks:
""")], "ad insertion less often than every period, in a manifest whose first period is not to be replaced",
     "The first period to be replaced is replaced although it should not.", """
c = mk()
t = get(c, "/livesim/periods_60/xlink_20/insertad_1/tsbd_300/vod1/Manifest.mpd", 36110).text
import re
p = re.findall(r"<Period [^>]*>", t)
assert ["ad.php" in x for x in p] == [False] * 4 + [True, False, False], p
""")

seed("c15-repeated", "C15", [(CP, """self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
""", """self.base_url += "/".join(dict.fromkeys(url_parts[:url_pos+1])) + "/"
""")], "the same option with the same value twice (durations that add up)", "The BaseURL has it only once.", """
c = mk()
assert "http://example.com/livesim/start_1000/dur_60/dur_60/vod1/" in get(c, "/livesim/start_1000/dur_60/dur_60/vod1/Manifest.mpd", 1010).text
""")

seed("c15-head-port", "C15", [(P, 'self.utc_head_url = "%s://%s/%s" % (protocol, host_name, UTC_HEAD_PATH)', 'self.utc_head_url = "%s://%s/%s" % (protocol, host_name.split(":")[0], UTC_HEAD_PATH)')],
     "a server on another port and the head method", "The time URL has another host than the request.", """
c = mk()
assert "http://example.com/dash/time.txt" in get(c, "/livesim/utc_head/vod1/Manifest.mpd", 1010).text
assert "http://example.com:8080/dash/time.txt" in get(c, "/livesim/utc_head/vod1/Manifest.mpd", 1010, host="example.com:8080").text
""")

seed("c16-freeze-cycle", "C16", [(MP, "latestUptime = dashProv.now - now_mod_60 + (i * total_dur + dur1)", "latestUptime = dashProv.now - now_mod_60 + dur1")],
     "a down interval of the second or a later cycle of a minute", "The timeline ends with the first cycle instead of this one.", """
c = mk()
f = lambda t: get(c, "/livesim/segtimeline_1/segtimelineloss_1/baseurl_u10_d10/vod1/Manifest.mpd", t).text
import re
norm = lambda x: re.sub('publishTime="[^"]*"', "", x)
assert norm(f(1000 * 60 + 15)) == norm(f(1000 * 60 + 12)) and norm(f(1000 * 60 + 35)) != norm(f(1000 * 60 + 15))
""")

seed("c17-flags", "C17", [(CHK, "            d1 += duration\n            yield part\n", "            d1 = d0 + duration\n            yield part\n")],
     "chunk durations that are not a whole number of samples", "Later chunks are longer than they should be.", """
c = mk([track("video", 1000, ["V1"], per=10)])
r = get(c, "/livesim/chunkdur_0.5/vod1/V1/5.m4s", 14)
assert [len([1 for s in f.tracks[0].samples]) for f in frags(c, "V1", r.body)] == [3, 2, 3, 2], 1
""")

seed("c18-late-set", "C18", [(MPR, "                if ll_data:\n                    self.insert_producer_reference(ad_set)", "                if ll_data and content_type != 'subtitles':\n                    self.insert_producer_reference(ad_set)")],
     "low-latency streaming of content with subtitles", "The subtitles' adaptation set has no producer reference time.", """
doc = '<tt><p begin="00:00:00.000" end="00:00:01.000">x</p></tt>'
c = mk([track("video", 90000, ["V1"], tid=1), track("subtitles", 1000, ["S1"], per=1, docs=[doc], tid=3)])
assert get(c, "/livesim/chunkdur_1/ato_1/vod1/Manifest.mpd", 1010).text.count("<ProducerReferenceTime") == 2
""")

seed("c19-run-flags", "C19", [(MUX, "        data_offset_present = flags & 1\n", "        data_offset_present = flags & 0x301\n")],
     "a track fragment with a second run that has no data offset of its own", "The duration of the first sample of the run is overwritten.", """
c = mk([track("video", 90000, ["V1"], per=6, fmt={"ntrun": 2, "trun2_no_off": True}), track("audio", 48000, ["A1"], tid=2)])
both = M.parse_segment(get(c, "/livesim/vod1/V1__A1/5.m4s", 14).body, {1: c.trex_tuple(*c.rep("V1")), 2: c.trex_tuple(*c.rep("A1"))})[1][0].tracks
one = frags(c, "V1", get(c, "/livesim/vod1/V1/5.m4s", 14).body)[0].tracks[0]
assert [(x.dur, x.data) for x in both[0].samples] == [(x.dur, x.data) for x in one.samples]
""")

seed("c25-mux-chunkdur", "C25", [(WS, "            if range_line and not chunk_out:\n", "            if range_line and not chunk:\n")],
     "a byte range of a multiplexed segment in a low-latency session", "The range is ignored although the segment is sent as a whole.", """
c = mk([track("video", 90000, ["V1"]), track("audio", 48000, ["A1"], tid=2)])
full = get(c, "/livesim/chunkdur_1/vod1/V1__A1/5.m4s", 14)
assert full.code == 200 and "Content-Length" in full.headers
r = get(c, "/livesim/chunkdur_1/vod1/V1__A1/5.m4s", 14, rng="bytes=10-99")
assert r.code == 206 and r.body == full.body[10:100], r.code
""")

seed("c25-suffix-end", "C25", [(WS, "            range_end = min(int(range_end), length-1)\n", "            range_end = min(int(range_end), length)\n")],
     "a byte range whose end is at or beyond the end of the resource", "Content-Range names a byte that does not exist.", """
c = mk()
full = get(c, "/livesim/vod1/V1/5.m4s", 14).body
r = get(c, "/livesim/vod1/V1/5.m4s", 14, rng="bytes=4-%d" % (len(full) + 100))
assert r.code == 206 and r.body == full[4:]
assert r.headers["Content-Range"] == "bytes 4-%d/%d" % (len(full) - 1, len(full)), r.headers
""")

seed("c25-range-404", "C25", [(WS, "        if status_code != 404:\n            if range_line", "        if status_code:\n            if range_line")],
     "a byte range of something that is not available", "The error text is delivered as partial content.", """
c = mk()
assert get(c, "/livesim/vod1/V1/50.m4s", 14, rng="bytes=0-3").code == 404
assert get(c, "/livesim/vod1/V1/5.m4s", 14, rng="bytes=0-3").code == 206
""")

seed("c23-first-flags", "C23", [(MSF, "        if flags & 0x4:\n            pos += 4  # First sample flags present\n        sample_duration_present", "        if flags & 0x404 == 0x404:\n            pos += 4  # First sample flags present\n        sample_duration_present")],
     "a track run with first-sample flags but without sample flags", "The duration in the index is computed from the wrong fields.", """
c = mk([track("video", 90000, ["V1"], fmt={"trun": 0x305})])
b = get(c, "/livesim/sidx_1/vod1/V1/5.m4s", 14).body
i = b.index(b"sidx")
assert int.from_bytes(b[i + 40:i + 44], "big") == 180000, b[i:i + 48]
""")

seed("c04-saio-multi", "C04", [(MSF, "            for i in range(entry_count):\n                offset = str_to_uint32(data[pos:pos + 4])\n                pos += 4\n                output += uint32_to_str(offset + delta_offset)\n",
                                     "            for i in range(entry_count):\n                offset = str_to_uint32(data[pos:pos + 4])\n                pos += 4\n                output += uint32_to_str(offset + (delta_offset if i == 0 else 0))\n")],
     "an encrypted fragment with two auxiliary-information offsets at a decode time above 2^32", "The second offset is not moved.", """
from dashlivesim.dashlib.mediasegmentfilter import MediaSegmentFilter
f = MediaSegmentFilter.__new__(MediaSegmentFilter)
f.size_change = 4
u = lambda x: x.to_bytes(4, "big")
box = u(24) + b"saio" + u(0) + u(2) + u(100) + u(200)
assert f.process_saio(box) == u(24) + b"saio" + u(0) + u(2) + u(104) + u(204)
""")

seed("c32-ato", "C32", [(P, "    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity\n        if now_float < seg_ast - cfg.availability_time_offset_in_s:\n", "    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity\n        if now_float < seg_ast - int(cfg.availability_time_offset_in_s):\n")],
     "a thumbnail with an availability time offset that is not a whole number of seconds", "The thumbnail is available too late.", """
c = mk([track("video", 90000, ["V1"]), track("image", 90000, ["T1"])])
for p in ("V1/5.m4s", "T1/5.jpg"):
    assert get(c, "/livesim/ato_1.5/vod1/" + p, 10.6).code == 200, p
    assert get(c, "/livesim/ato_1.5/vod1/" + p, 10.4).code == 404, p
""")

seed("c18-margin", "C18", [(WS, "                    sleep(time_until_available)\n                yield chunk\n", "                    sleep(min(time_until_available, 10))\n                yield chunk\n")],
     "chunks that are more than ten seconds away", "The chunk is sent before it exists.", """
c = mk(D=30, n=2, tsbd=60)
r = get(c, "/livesim/chunkdur_15/ato_29/vod1/V1/3.m4s", 92)
assert r.code == 200 and [t >= 90 + 15 * (i + 1) - 0.2 for i, (t, _) in enumerate(x for x in r.chunks if x[1])] == [True, True], [t for t, _ in r.chunks]
""")

seed("c27-query-mpd", "C27", [(WS, "            if query:\n                new_url += '?' + query\n", "            if url.query:\n                new_url += '?' + url.query\n")],
     "a server that passes the query outside of the request URI", "The redirect loses the query parameters.", """
c = mk()
m = app()
m.MAX_SESSION_LENGTH = 100
out = []
env = {"HTTP_HOST": "h", "VOD_CONF_DIR": c.conf, "CONTENT_ROOT": c.root, "wsgi.url_scheme": "http", "REQUEST_METHOD": "GET",
       "REQUEST_URI": "/livesim/vod1/Manifest.mpd", "QUERY_STRING": "a=b"}
list(m.application(env, lambda s, h, e=None: out.append((s, dict(h)))))
assert out[0][0].startswith("302") and out[0][1]["Location"].endswith("?a=b"), out
""")

seed("c05-advance-eq", "C05", [(CP, "                if now_int > aet - 2*self.minimum_update_period_in_s:\n", "                if now_int > aet - 2*max(self.minimum_update_period_in_s, 1):\n")],
     "several durations together with mup_0", "The end time advances before the announced time.", """
import re
c = mk()
t = get(c, "/livesim/start_1000/dur_40/dur_20/mup_0/vod1/Manifest.mpd", 1040).text
assert re.search('availabilityEndTime="([^"]*)"', t).group(1) == "1970-01-01T00:17:20Z", t
""")

seed("c11-first-nr", "C11", [(SEG, "        self.first_segment_number = cfg.vod_first_segment_in_loop\n", "        self.first_segment_number = min(cfg.vod_first_segment_in_loop, 1)\n")],
     "content whose first segment number is 2 or more", "The start number is too high.", """
import re
c = mk(first=5)
t = get(c, "/livesim/segtimelinenr_1/tsbd_4/vod1/Manifest.mpd", 806).text
found = re.findall(r'<SegmentTemplate ([^>]*)>.*?<S [^>]*t="(\\d+)"', t, re.S)
assert found
for a, tt in found:
    nr, ts = [int(re.search(x + '="(\\d+)"', a).group(1)) for x in ("startNumber", "timescale")]
    assert nr * 2 * ts == int(tt), (nr, ts, tt)
""")

seed("c10-single", "C10", [(SEG, "        if (start_tics_end < start_tics):\n", "        if (start_tics_end <= start_tics):\n")],
     "a timeline with one segment", "The timeline is empty.", """
c = mk(tsbd=30)
t = get(c, "/livesim/segtimeline_1/start_1000/vod1/Manifest.mpd", 1003).text
assert t.count("<S ") == 2, t
""")

seed("c13-https", "C13", [(MPR, "                BaseURLSegmented = BaseURLParts[0] + '//' + BaseURLParts[2]", "                BaseURLSegmented = 'http:' + '//' + BaseURLParts[2]")],
     "a manifest requested over https", "The callback goes to http.", """
c = mk()
t = get(c, "/livesim/periods_60/mpdcallback_30/vod1/Manifest.mpd", 1000, scheme="https").text
assert "https://example.com/livesim/mpdcallback/" in t and "http://example.com/livesim/mpdcallback" not in t
""")

seed("c22-segnr", "C22", [(TTM, r"CONTENT_PATTERN_SEGMENT = re.compile(rb'(?P<intro>Segment # )(?P<seg_nr>\d+)')", r"CONTENT_PATTERN_SEGMENT = re.compile(rb'(?P<intro>Segment # )(?P<seg_nr>\d{1,4})')")],
     "subtitles with a segment number of five digits or more in the text", "Some digits of the old number stay.", """
doc = '<tt><p begin="00:00:00.000" end="00:00:01.000">Segment # 12345</p></tt>'
c = mk([track("subtitles", 1000, ["S1"], per=1, docs=[doc], tid=3), track("video", 90000, ["V1"])])
b = get(c, "/livesim/vod1/S1/700.m4s", 1402).body
assert b"Segment # 700<" in b, b
""")

seed("c38-neg-snr", "C38", [(CP, "        if start_nr < -1:\n", "        if start_nr < -1 and len(value) < 3:\n")],
     "a start number below -1 with several digits", "An illegal start number is accepted.", """
c = mk()
for v in ("-2", "-10", "-9999"):
    assert get(c, "/livesim/snr_%s/vod1/Manifest.mpd" % v, 1000).code == 404, v
""")

seed("c38-modulo", "C38", [(CP, "            if modulo_period is not None:\n                raise ConfigProcessorError(\"Cannot have both", "            if modulo_period is not None and stop_time is None:\n                raise ConfigProcessorError(\"Cannot have both")],
     "a start and a stop time together with modulo", "A contradictory session is served.", """
c = mk()
for o in ("start_1000/modulo_10", "start_1000/stop_5000/modulo_10", "modulo_10/stop_5000/start_1000"):
    assert get(c, "/livesim/%s/vod1/Manifest.mpd" % o, 1300).code == 404, o
""")

seed("c38-fraction", "C38", [(MP, "        if one_xlinks_for_how_many_periods != int(one_xlinks_for_how_many_periods):", "        if one_xlinks_for_how_many_periods != round(one_xlinks_for_how_many_periods, 1):")],
     "numbers of remote periods whose quotient has one decimal", "A number of remote periods that does not fit is accepted.", """
c = mk()
for n, x in ((60, 7), (60, 40), (60, 25), (12, 5), (6, 5)):
    assert get(c, "/livesim/periods_%d/xlink_%d/vod1/Manifest.mpd" % (n, x), 100000).code == 404, (n, x)
""")


seed("c14-two-digits", "C14", [(MP, "int(x[1:]) % one_xlinks", "int(x[1:][-2:]) % one_xlinks")],
     "a number of periods per remote period that does not divide 100, and period numbers above 99",
     "Other periods than the ones of the period numbers are remote.", """
c = mk()
t = get(c, "/livesim/tsbd_10/periods_30/xlink_10/vod1/Manifest.mpd", 120 * 101 + 70).text   # p100 is not remote, p102 is
assert 'id="p100"' in t or 'id="p101"' in t, t
t = get(c, "/livesim/tsbd_200/periods_30/xlink_10/vod1/Manifest.mpd", 120 * 102 + 70).text
assert '+p102.period' in t and '+p100.period' not in t, t
""")

seed("c10-period-end", "C10", [(MPR, "end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)", "end_time = min(pdata['start_s'] + pdata['period_duration_s'], now)")],
     "several periods with timelines in a session that does not start at the epoch", "Timelines of other periods than the last one are cut.", """
from xml.etree import ElementTree as ET
c = mk()
N = "{urn:mpeg:dash:schema:mpd:2011}"
t = ET.fromstring(get(c, "/livesim/start_7200/tsbd_600/segtimeline_1/periods_60/vod1/Manifest.mpd", 7200 + 200).body)
for p in t.findall(N + "Period")[:-1]:
    n = sum(1 + int(s.get("r", 0)) for s in p.iter(N + "S"))
    assert n >= 2 * 29, (p.attrib, n)
""")

seed("c22-localtime", "C22", [(TTM, "time.gmtime(total_seconds)", "time.localtime(total_seconds)")],
     "a server whose time zone is not UTC", "The UTC time of the subtitles is local time.", """
import os, time
os.environ["TZ"] = "AAA-2"
time.tzset()
doc = '<tt><p begin="00:00:00.000" end="00:00:01.000">eng : 00:00:01.500</p></tt>'
c = mk([track("video", 90000, ["V1"], tid=1), track("subtitles", 1000, ["S1"], per=1, docs=[doc], tid=3)])
assert b"UTC = 1970-01-01T00:00:09Z" in get(c, "/livesim/vod1/S1/4.m4s", 11).body
""")

seed("c31-localtime", "C31", [(TFC, """    return time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(time_in_s))""", """    return time.strftime("%Y-%m-%dT%H:%M:%SZ", time.localtime(time_in_s))""")],
     "a server whose time zone is not UTC", "Time stamps marked as UTC are local times.", """
import os, time
os.environ["TZ"] = "AAA-2"
time.tzset()
from dashlivesim.dashlib.timeformatconversions import make_timestamp
assert make_timestamp(86400) == "1970-01-02T00:00:00Z"
""")

seed("c33-cont-end", "C33", [(CP, """        self.availability_start_time_in_s = quantize(now_int - seg_dur, seg_dur)
        self.availability_end_time = self.availability_start_time_in_s + 10800
""", """        self.availability_start_time_in_s = quantize(now_int - seg_dur, seg_dur)
        self.availability_end_time = quantize(now_int, seg_dur) + 10800
""")], "sessions that restart continuously", "The session ends one segment after its presentation duration.", """
import re
t = get(mk(), "/livesim/cont_1/vod1/Manifest.mpd", 100001).text
assert 'availabilityStartTime="1970-01-02T03:46:38Z"' in t
assert 'availabilityEndTime="1970-01-02T06:46:38Z"' in t
""")

seed("c37-ll-clock", "C37", [(MP, "        if len(mpd_proc_cfg['utc_timing_methods']) == 0:\n", "        if 'httpiso' not in mpd_proc_cfg['utc_timing_methods']:\n")],
     "low latency with a chosen clock source", "A clock source that was not asked for is announced.", """
t = get(mk(), "/livesim/chunkdur_1/ato_1/utc_head/vod1/Manifest.mpd", 100).text
end = t[t.rfind("</Period>"):]
assert "http-head" in end and "http-iso" not in end
""")

seed("c38-tfdt-cont", "C38", [(CP, """            if cont_update_flag:
                raise ConfigProcessorError("Cannot have continuous update with tfdt_32 (similar behavior)")
""", """            if cont_update_flag and start_time is None:
                raise ConfigProcessorError("Cannot have continuous update with tfdt_32 (similar behavior)")
""")], "both restart options together with a start time", "A contradictory combination is accepted.", """
c = mk()
assert get(c, "/livesim/start_1000/tfdt_32/cont_1/vod1/Manifest.mpd", 100000).code == 404
assert get(c, "/livesim/start_1000/tfdt_32/vod1/Manifest.mpd", 100000).code == 200
""")

seed("c27-5s-edge", "C27", [(WS, "        elif start_time > now + 5:  # Give some margin\n", "        elif start_time >= int(now) + 5:  # Give some margin\n")],
     "a session start at the very limit of the margin", "The margin for fast clocks is shorter than 5 s.", """
c = mk()
assert get(c, "/livesim/sts_1005/vod1/Manifest.mpd", 1000.5, maxlen=60).code == 200
assert get(c, "/livesim/sts_1006/vod1/Manifest.mpd", 1000.5, maxlen=60).code == 404
""")

seed("c17-drift", "C17", [(CHK, "            d1 += duration\n", "            d1 = d0 + duration\n")],
     "samples that do not divide the chunk duration", "The chunk boundaries drift, and there are fewer chunks than announced.", """
c = mk([track("video", 10, ["V1"], per=10)])     # 10 frames of 0.2 s per segment
r = get(c, "/livesim/chunkdur_0.5/vod1/V1/45.m4s", 100)
assert r.code == 200
n = [len(x.tracks[0].samples) for ch in r.chunks for x in frags(c, "V1", ch[1])]
assert n == [3, 2, 3, 2], n
""")

seed("c29-boundary", "C29", [(CC, "            if start_time <= i['start_time'] < end_time:\n", "            if start_time < i['start_time'] <= end_time:\n")],
     "a caption at the very start of a segment", "The caption is lost.", """
import dashlivesim.cc_inserter.cc_inserter as I
f = I.CCInsertFilter.__new__(I.CCInsertFilter)
f.scc_data = [{"start_time": t, "cea608": []} for t in (1.96, 2.0, 2.04)]
assert [x["start_time"] for x in f.get_scc_data(2.0, 2.04)] == [2.0]
""")

seed("c36-encoded", "C36", [(CP, "        rel_path_parts = url_parts[url_pos+1:-1]\n", "        rel_path_parts = [unquote(part) for part in url_parts[url_pos+1:-1]]\n"),
                            (CP, "from os.path import join, splitext\n", "from os.path import join, splitext\nfrom urllib.parse import unquote\n")],
     "percent-encoded separators in a request", "A request reaches files of another content.", """
import os, shutil
c = mk()
os.makedirs(c.root + "/vod2/V1")
shutil.copy(c.root + "/vod1/V1/init.mp4", c.root + "/vod2/V1/init.mp4")
assert get(c, "/livesim/vod1/V1/init.mp4", 100).code == 200
assert get(c, "/livesim/vod1/..%2fvod2/V1/init.mp4", 100).code == 404
""")

seed("c35-hours", "C35", [(ST, "        hours, time_ms = divmod(time_ms, 3600000)\n", "        hours, time_ms = divmod(time_ms % 86400000, 3600000)\n")],
     "more than 24 hours of generated subtitles", "The times of the subtitles wrap while the media times do not.", """
import sys, os, tempfile, contextlib, io, glob
sys.path += glob.glob("/opt/venv/lib/python3*/site-packages")
from dashlivesim.dashlib.stpp_generator.make_stpp_segments import SegmentCreator
with tempfile.TemporaryDirectory() as d:
    with contextlib.redirect_stdout(io.StringIO()):
        SegmentCreator(2, 90000000, 90000000, "%d", "eng", 3, d + "/x").create_segments()
    assert b'begin="25:00:00.000" end="50:00:00.000"' in open(d + "/x/2.m4s", "rb").read()
""")

seed("c24-plus", "C24", [(WS, "        env['REQUEST_URI'] = env['PATH_INFO']  # Set REQUEST_URI from PATH_INFO\n", "        env['REQUEST_URI'] = env['PATH_INFO'].replace('+', ' ')  # Set REQUEST_URI from PATH_INFO\n")],
     "the stand-alone server and a URL with a plus sign (remote periods)", "The remote periods are not found.", """
import dashlivesim.mod_wsgi.mod_dashlivesim as m, wsgiref.simple_server as ws
c = mk()
got = {}
class S:
    def __init__(self, *a): got["app"] = a[2]
    def serve_forever(self): pass
ws.make_server = S
sys.argv = ["x", "-d", c.conf, "-c", c.root]
with contextlib.redirect_stdout(io.StringIO()):
    m.main()
    NOW[0] = 7290
    out = []
    env = {"HTTP_HOST": "h", "wsgi.url_scheme": "http", "REQUEST_METHOD": "GET", "QUERY_STRING": "",
           "PATH_INFO": "/livesim/periods_30/xlink_30/vod1/Manifest.mpd+p60.period"}
    list(got["app"](env, lambda st, h, e=None: out.append(st)))
assert out[0].startswith("200"), out
""")

seed("c28-gap", "C28", [(AN, "            if numbers[i] != numbers[i-1] + 1:\n", "            if numbers[i] > numbers[i-1] + 2:\n")],
     "content where a single segment is missing", "The analyzer accepts the content, with a shorter loop.", """
import subprocess, tempfile, os, shutil, sys
c = mk(n=6)
d = tempfile.mkdtemp()
def run():
    return subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from dashlivesim.vodanalyzer.dashanalyzer import DashAnalyzer as D; D(%r, 0).analyze()" % (os.getcwd(), c.root + "/vod1/Manifest.mpd")], cwd=d, capture_output=True).returncode
try:
    assert run() == 0
    os.remove(c.root + "/vod1/V1/4.m4s")
    assert run() != 0
finally:
    shutil.rmtree(d)
""")

seed("c20-round", "C20", [(P, "    if dashProv.now < cfg.availability_start_time_in_s - cfg.init_seg_avail_offset:\n", "    if round(dashProv.now_float) < cfg.availability_start_time_in_s - cfg.init_seg_avail_offset:\n")],
     "a request less than half a second before the start", "The init segment comes too early.", """
c = mk()
assert get(c, "/livesim/start_1000/vod1/V1/init.mp4", 999.7).code == 404
assert get(c, "/livesim/start_1000/vod1/V1/init.mp4", 1000).code == 200
""")

seed("c36-default-type", "C36", [(CP, "                return content_type\n        return None\n", "                return content_type\n        return min(self.media_data, default=None)\n")],
     "a multiplexed name one part of which is a parent directory, and a file of that name outside of the content",
     "A file outside of the content is read.", """
c = mk()
import shutil
src = os.path.join(c.root, "content", "vod1", c.rep("V1")[1].get("dir", "V1"), "init.mp4")
src = src if os.path.exists(src) else [os.path.join(d, "init.mp4") for d, _, fs in os.walk(c.root) if "init.mp4" in fs][0]
top = src[:src.index("/vod1/")]
shutil.copy(src, os.path.join(top, "init.mp4"))
assert get(c, "/livesim/vod1/V1/init.mp4", 14).code == 200
assert get(c, "/livesim/vod1/V1__../init.mp4", 14).code == 404
""")

seed("c37-etp-order", "C37", [(CP, "                cfg.etp_periods_per_hour = int(value)\n", "                cfg.etp_periods_per_hour = int(value)\n                cfg.etp_duration = -1  # Half a period if nothing else is said\n")],
     "the duration of the early-terminated periods given before their number", "The default duration is used.", """
c = mk()
a = get(c, "/livesim/periods_10/etp_5/etpDuration_100/vod1/Manifest.mpd", 4400)
b = get(c, "/livesim/etpDuration_100/periods_10/etp_5/vod1/Manifest.mpd", 4400)
assert a.code == b.code == 200 and 'duration="PT100S"' in a.text and 'duration="PT100S"' in b.text
""")

seed("c03-number-zero", "C03", [(MSF, "        if self.seg_nr is None:\n", "        if not self.seg_nr:\n")],
     "segment number 0, in a session that has just started", "The segment keeps the sequence number of the VoD segment.", """
c = mk()
r = get(c, "/livesim/start_1000/vod1/V1/0.m4s", 1003)
assert r.code == 200
f = frags(c, "V1", r.body)[0]
assert f.seqno == 0, f.seqno
""")

seed("c32-early-whole", "C32", [(P, "    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity\n        if now_float < seg_ast - cfg.availability_time_offset_in_s:\n",
                                 "    if cfg.availability_time_offset_in_s != -1:  # -1 is infinity\n        if int(now_float) < int(seg_ast - cfg.availability_time_offset_in_s):\n")],
     "a thumbnail with a fractional availability time offset, less than a second too early", "The thumbnail is served too early.", """
c = mk([track("video", 90000, ["V1"]), {"type": "image", "ts": 1, "fd": 2, "fb": [0, 1, 2, 3, 4], "reps": [{"id": "thumbs", "tid": 1, "fmt": {}}]}])
assert get(c, "/livesim/ato_0.5/vod1/thumbs/5.jpg", 11.6).code == 200
assert get(c, "/livesim/ato_0.5/vod1/thumbs/5.jpg", 11.2).code == 404
""")

seed("c39-both-times", "C39", [(MPR, "                        remove_attribs(seg_template, ['duration'])\n                        seg_template.set('timescale'", "                        if content_type != 'subtitles':\n                            remove_attribs(seg_template, ['duration'])\n                        seg_template.set('timescale'")],
     "timelines of content with subtitles", "The segment template of the subtitles has both a duration and a timeline.", """
from xml.etree import ElementTree as ET
N = "{urn:mpeg:dash:schema:mpd:2011}"
doc = '<tt><p begin="00:00:00.000" end="00:00:01.000">x</p></tt>'
c = mk([track("video", 90000, ["V1"], tid=1), track("subtitles", 1000, ["S1"], per=1, docs=[doc], tid=3)])
for opt in ("segtimeline_1", "segtimelinenr_1"):
    for t in ET.fromstring(get(c, "/livesim/%s/vod1/Manifest.mpd" % opt, 1010).body).iter(N + "SegmentTemplate"):
        assert t.find(N + "SegmentTimeline") is None or t.get("duration") is None, (opt, t.attrib)
""")

seed("c39-rate-first", "C39", [(MPR, "        sd_elem.insert(1, pr_elem)\n", "        sd_elem.insert(0, pr_elem)\n")],
     "a low-latency session", "The playback rate precedes the latency, which the schema does not allow.", """
from xml.etree import ElementTree as ET
N = "{urn:mpeg:dash:schema:mpd:2011}"
c = mk()
sd = ET.fromstring(get(c, "/livesim/chunkdur_1/ato_1/vod1/Manifest.mpd", 1010).body).find(N + "ServiceDescription")
assert [x.tag.split("}")[1] for x in sd] == ["Latency", "PlaybackRate"], [x.tag for x in sd]
""")

seed("c40-lmsg-late", "C40", [(P, "    lmsg = seg_nr in cfg.last_segment_numbers\n    # print cfg.last_segment_numbers\n    timescale = 1", "    lmsg = seg_nr in cfg.last_segment_numbers and now_float >= cfg.availability_start_time_in_s + cfg.media_presentation_duration\n    # print cfg.last_segment_numbers\n    timescale = 1")],
     "the last segment of a session, requested before the end of the session with an availability time offset and again after it", "The last segment has another segment type before the end of the session than afterwards.", """
c = mk()
url = "/livesim/start_1000/dur_100/ato_1/vod1/V1/49.m4s"
a, b = get(c, url, 1099.5), get(c, url, 1101)
assert a.code == b.code == 200
assert a.body == b.body, (a.body[:32], b.body[:32])
""")

seed("c40-first-period", "C40", [(MPR, "                        if 'period_duration_s' in pdata:\n", "                        if 'period_duration_s' in pdata and period is not periods[0]:\n")],
     "timelines with several periods, when the oldest period has ended", "The timeline of the oldest period goes on into the next periods once it is the first one listed.", """
from xml.etree import ElementTree as ET
c = mk(tsbd=100)
N = "{urn:mpeg:dash:schema:mpd:2011}"
def count(now):
    for p in ET.fromstring(get(c, "/livesim/periods_60/segtimeline_1/vod1/Manifest.mpd", now).body).iter(N + "Period"):
        if p.get("id") == "p100":
            for s in p.iter(N + "S"):
                t = int(s.get("t", t if s.get("t") is None else 0)) + int(s.get("d")) * (int(s.get("r", 0)) + 1)
            return t
assert count(6100) == count(6130), (count(6100), count(6130))
""")
