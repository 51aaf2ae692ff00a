#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and the per-property part of MANIFEST.json.

Run from anywhere: regenerates properties.jsonl and MANIFEST.json deterministically.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "dashlivesim/dashlib/"
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, observe=None, note="", technique=""):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, observe=observe or ["HTTP responses of the WSGI application"], note=note,
                      technique=technique))


P("C01", "Segments are available exactly inside their wall-clock window",
  "A media segment request addressed by number succeeds if and only if the current time is at or after the segment's end "
  "minus availabilityTimeOffset and no later than one segment duration plus the time-shift buffer depth after its end, where "
  "segment end = availabilityStartTime + (number - first number + 1) * segment duration. "
  "Numbers below the first number always give 404, and with an infinite offset (ato_inf) every number from the first one is "
  "served as soon as availabilityStartTime is reached.",
  ["inputs", "configurations", "schedules"],
  "every content (segment duration, loop length), every request time, segment number, start_/tsbd_/ato_/snr_/timeoffset_ "
  "option value, with times on, just before and just after each window edge",
  "Tests request a couple of numbers at a couple of times; the window has two edges per segment that move with four options.",
  [D + "dash_proxy.py", D + "configprocessor.py"],
  [("early/late/first-number checks", D + "dash_proxy.py:get_media, process_media_segment"),
   ("AST quantisation, first number", D + "configprocessor.py:process_start_time, adjusted_start_number")],
  note="reference model of the availability rules; request times are multiples of 1/64 s",
  technique="property-based testing against an arithmetic reference model of segment availability, boundary-biased generation")

P("C02", "Live segments carry exactly the looped VoD segment's media data",
  "Live segment number k (counted from the first number, shifted by the session's media-time offset) carries the media "
  "payload and the sample tables of the VoD segment at position (media time / segment duration) modulo the number of "
  "segments in the loop, starting from the first segment in the loop. "
  "The media payload bytes and the per-sample durations, sizes, flags and composition offsets are those of that VoD "
  "segment, for every representation of the content.",
  ["inputs", "configurations"],
  "all contents (loop lengths, first loop number, codecs/box layouts, nested paths) and all live numbers including those many loops from the epoch",
  "The test content has only six segment files and 600 per loop; no test compares the payload of a mapped segment across the wrap.",
  [D + "dash_proxy.py", D + "mediasegmentfilter.py"],
  [("number to VoD mapping", D + "dash_proxy.py:process_media_segment"), ("segment rewriting", D + "mediasegmentfilter.py")],
  note="synthetic contents with per-sample unique payloads; independent MP4 reader",
  technique="property-based testing: generated contents, independent MP4 parser as oracle")

P("C03", "Media timeline is continuous across segments and loops",
  "The decode time of each served segment is the VoD segment's decode time plus the number of completed loops times the loop "
  "duration in the track timescale, so the end of every segment equals the start of the next one, also across the loop "
  "wrap and when the value passes 2^32. "
  "The fragment sequence number equals the requested segment number.",
  ["inputs", "configurations", "histories"],
  "all pairs of consecutive segments of any session, any track timescale, 32- and 64-bit source decode times, and numbers chosen around the 2^32 crossing",
  "Tests check one decode time at a time; continuity is a relation between neighbouring responses and the 32/64-bit switch happens at one specific number per track.",
  [D + "mediasegmentfilter.py", D + "dash_proxy.py"],
  [("decode-time rewriting and 64-bit upgrade", D + "mediasegmentfilter.py:process_tfdt"),
   ("sequence number", D + "mediasegmentfilter.py:process_mfhd"),
   ("loop offset", D + "dash_proxy.py:process_media_segment")],
  note="two consecutive responses compared with each other and with the content specification",
  technique="property-based testing: metamorphic relation between consecutive segments plus reference timeline")

P("C04", "Rewritten segments stay structurally valid and otherwise unchanged",
  "Every served media segment is a well-formed box sequence whose sizes add up, whose sample data offsets point at the "
  "sample data, and whose auxiliary-information (encryption) offsets point at the same auxiliary bytes as in the VoD segment, "
  "whatever rewriting (64-bit decode time, brand changes, inserted boxes) took place. "
  "Boxes other than the segment type, sequence number, decode time, removed segment index and the offsets that must follow "
  "are byte-identical to the VoD segment.",
  ["inputs", "configurations"],
  "all box layouts a VoD segment may have: optional styp/sidx/emsg/free boxes, all tfhd and trun flag combinations, tfdt version 0/1, saiz/saio/senc version 0/1, several movie fragments per segment",
  "One encrypted and one clear layout exist in the tests; the offset fix-ups depend on flag combinations and on crossing 2^32.",
  [D + "mediasegmentfilter.py", D + "mp4filter.py"],
  [("box walk and size fix-up", D + "mp4filter.py:filter, filter_box"),
   ("trun/saio offset adjustment", D + "mediasegmentfilter.py:process_trun, process_saio"),
   ("styp brands", D + "mediasegmentfilter.py:process_styp")],
  note="independent MP4 parser; samples located through the served offsets",
  technique="property-based testing: structural invariants over generated box layouts with an independent MP4 parser")

P("C05", "Time-limited sessions start and end where their options say",
  "With start_S the availability start is S rounded down to a segment boundary; with one or more dur_D the MPD announces an "
  "availabilityEndTime and a mediaPresentationDuration at all times, which move to the next duration two minimum-update-periods before the "
  "announced end, and with stop_E the presentation ends at E rounded up to a segment boundary and the MPD turns static after it. "
  "No segment that lies beyond the end is served, all segments up to the end are served while in their window and no later than 60 s after the end, and with dur_D exactly the last segment "
  "carries the lmsg brand; "
  "the first and last number shift together with the chosen start number.",
  ["inputs", "configurations", "schedules"],
  "all start/stop/dur (one to three) values, aligned or not, update periods, start numbers, and request times before, inside and after the session",
  "Tests look at one MPD per mode at one time; the end behaviour is a function of time over the whole session.",
  [D + "configprocessor.py", D + "dash_proxy.py", D + "mpd_proxy.py"],
  [("end-time selection", D + "configprocessor.py:process_start_time, update_with_aet"),
   ("end-of-session checks and lmsg", D + "dash_proxy.py:process_media_segment"),
   ("static switch", D + "mpd_proxy.py:generate_dynamic_mpd")],
  note="reference model of sessions; every request time compared",
  technique="property-based testing against a session reference model over generated times")

P("C06", "Modulo sessions follow the documented periodic pattern",
  "With modulo_x (x a divisor of 60) the availability start time, media presentation duration and update period follow the "
  "documented table of 0-10-30-50-90-100 % of the x-minute interval. "
  "Segments beyond the announced presentation are refused, those inside it are served when available, and the segment that "
  "ends at the announced presentation end is the only one that carries the lmsg brand.",
  ["inputs", "schedules", "configurations"],
  "every divisor x, every second of the interval, every segment of the session, segment durations that divide the interval steps",
  "Tests evaluate the period calculator at a few instants and never request a segment near the end of a modulo session.",
  [D + "moduloperiod.py", D + "configprocessor.py"],
  [("period arithmetic", D + "moduloperiod.py"), ("session set-up", D + "configprocessor.py:update_with_modulo_period")],
  note="table of the documentation re-implemented with exact integers",
  technique="property-based testing against the documented table")

P("C07", "The chosen start number only renumbers, never shifts, the content",
  "For any start number snr_N (and snr_-1, meaning an implicit 1), the segment N+k has the same media data and decode time and "
  "the same availability as segment k of the session with start number 0, and the MPD announces N (or omits it for the implicit 1), so "
  "that all timing is independent of N. "
  "This holds for number-based, SegmentTimeline-with-number, SegmentTimeline-with-time and multi-period manifests.",
  ["inputs", "configurations"],
  "all start numbers, session kinds, addressing modes and request times",
  "Tests check the number shown in one MPD and one availability error message.",
  [D + "configprocessor.py", D + "dash_proxy.py", D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("first number", D + "configprocessor.py:adjusted_start_number"), ("segment lookup", D + "dash_proxy.py:process_media_segment"),
   ("period start numbers", D + "mpd_proxy.py:generate_period_data")],
  note="metamorphic: two sessions differing only in snr_ are compared response by response",
  technique="metamorphic property-based testing (snr_N against snr_0)")

P("C08", "The live MPD states the session's timing in valid attributes",
  "Every MPD is well-formed, is dynamic unless its stop time has passed, and its availabilityStartTime, timeShiftBufferDepth, "
  "minimumUpdatePeriod, maxSegmentDuration, suggestedPresentationDelay, publishTime and mediaPresentationDuration have the values that the options (or "
  "documented defaults) and current time imply, in valid XML-Schema dateTime and duration syntax. "
  "Any VoD presentation duration is removed, the VoD adaptation sets and representations are kept unchanged in "
  "every period, and the BaseURL carries the availabilityTimeOffset exactly when it is positive.",
  ["inputs", "configurations"],
  "all combinations of tsbd_/mup_/spd_/start_/dur_/ato_ values and times, including values that are whole days, hours and zero",
  "Tests parse a handful of MPDs; the attribute formatting depends on the value (whole days, zero) and on option combinations.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py", D + "timeformatconversions.py"],
  [("attribute computation", D + "mpd_proxy.py:generate_dynamic_mpd"), ("attribute writing", D + "mpdprocessor.py:process_mpd"),
   ("duration formatting", D + "timeformatconversions.py")],
  note="expected values computed by the reference model and compared after independent lexical validation",
  technique="property-based testing: reference values plus XSD lexical oracle")

P("C09", "Whatever a number-based MPD announces can be fetched with the right time",
  "A client that follows any number-based MPD (BaseURL, templates, start number, presentation time offset, period starts, "
  "availability start, duration and offset) finds every initialization segment and every announced segment inside the time-shift "
  "buffer available, with media time equal to the announced presentation time, and finds the first not-yet-ended segment and segments before the first number unavailable. "
  "This holds for plain, start_, start-over (startrel_/stoprel_, timeoffset_), continuous, tfdt_32, modulo and multi-period sessions.",
  ["inputs", "configurations", "histories"],
  "all session kinds and option combinations, contents and request times; all segments in the buffer of each MPD",
  "Tests check MPDs and segments separately; no test derives URLs from an MPD and fetches them.",
  [D + "mpd_proxy.py", D + "dash_proxy.py", D + "mpdprocessor.py", D + "configprocessor.py"],
  [("MPD generation", D + "mpd_proxy.py"), ("segment serving", D + "dash_proxy.py")],
  note="client simulator interprets MPDs independently of the server's own arithmetic",
  technique="property-based testing with a DASH client model as oracle (MPD/segment consistency)")

P("C10", "SegmentTimeline lists exactly the segments in the window",
  "With SegmentTimeline options, the timeline of each track lists consecutive, gap-free entries whose start times and "
  "durations are those of the looped VoD segments in the track timescale, beginning with the latest segment that starts at or before "
  "the window start (now, or a stop time that has passed, minus buffer depth; or period or session start if later, never before the session's first segment) and ending with the latest segment that ends by now (or period or session "
  "end). "
  "The listing depends only on the content, options and time: it is correct for any run-length pattern of segment durations and for "
  "windows that span any number of loop wraps, at any time from the availability start on.",
  ["inputs", "configurations", "schedules"],
  "all segment-duration patterns (single run, several runs, alternating), loop lengths, buffer depths shorter and longer than the loop, request times including exact segment boundaries",
  "The test content has a 3600 s loop and a fixed pattern; windows crossing wraps are covered for two instants.",
  [D + "segtimeline.py", D + "mpdprocessor.py"],
  [("timeline generation", D + "segtimeline.py:create_segtimeline"), ("window computation", D + "mpdprocessor.py:update_periods")],
  note="reference timeline enumerated from the content specification",
  technique="property-based testing against an enumerating reference model")

P("C11", "SegmentTimeline entries are addressable by time and by number",
  "Every entry of a SegmentTimeline MPD can be fetched, both by $Time$ and by $Number$ templates, for every representation "
  "(also in nested directories), as long as it is listed and no more than 60 s after an availability end time, and the served segment's decode time equals the entry's start time exactly. "
  "Number-addressed timelines announce the number of their first entry.",
  ["inputs", "configurations", "schedules"],
  "all contents with segment boundaries deviating less than half a second from the nominal grid, all timescales, all listed entries",
  "Tests request one time-addressed segment; rounding of time to number depends on the deviation pattern.",
  [D + "dash_proxy.py", D + "segtimeline.py", D + "mpdprocessor.py"],
  [("time to number", D + "dash_proxy.py:process_media_segment"), ("template rewriting", D + "mpdprocessor.py:update_periods")],
  note="every listed entry is fetched; decode time compared",
  technique="property-based testing: MPD entries fetched back and compared (round trip)")

P("C12", "Multi-period manifests partition the media timeline on the hour grid",
  "With periods_n the MPD lists consecutive, abutting periods on an n-per-hour grid from the one containing the oldest buffered segment to the one that starts within "
  "half a period ahead, with ids and start times that are stable over time, start numbers and presentation time offsets that keep the media timeline aligned, "
  "and an update period of half a period minus 5 s. "
  "periods_0 gives a single period that starts 1000 hours after the availability start, peroff_1 moves the offset to the period level without changing it, and continuous_1 links every adaptation set to the "
  "preceding period.",
  ["inputs", "configurations", "schedules"],
  "all allowed n, all times relative to the grid, segment durations dividing the period, all buffer depths",
  "Tests look at periods for one n and one time; stability over time needs two MPDs.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("period generation", D + "mpd_proxy.py:generate_period_data"), ("period writing", D + "mpdprocessor.py:update_periods")],
  note="reference grid; two request times compared",
  technique="property-based testing against a grid model plus metamorphic comparison over time")

P("C13", "Early-terminated periods and MPD callbacks appear on exactly their periods",
  "With etp_m, exactly the periods whose index is a multiple of n/m carry a duration, equal to etpDuration or half a period by "
  "default; with mpdcallback_m exactly the corresponding periods carry one callback event stream with the callback URL of the requested host. "
  "With multiple periods, combinations where m does not divide n or the early-terminated duration exceeds the period are refused.",
  ["inputs", "configurations"],
  "all allowed (n, m, duration) combinations and times",
  "Tests cover one n, m pair.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("etp and callback flags", D + "mpd_proxy.py:generate_period_data, get_mpd"), ("event stream", D + "mpdprocessor.py:update_periods")],
  note="", technique="property-based testing against a reference model over all divisor pairs")

P("C14", "Remote (xlink) periods resolve to the period they replace",
  "With xlink_m, exactly the periods whose index is a multiple of n/m are replaced by remote references, all others are left unchanged, and fetching a reference returns "
  "exactly the replaced period element with the same id, start and content. "
  "With insertad_k the references point at the documented ad for k, the first such period is not replaced, remaining periods carry an asset identifier, and "
  "periods preceding a replaced one carry their duration.",
  ["inputs", "configurations"],
  "all allowed (n, m, k) combinations and times, period numbers that are prefixes of one another, other content in the MPD resembling period ids",
  "Tests cover one n, m pair at one time; the implementation edits the MPD as text, so correctness depends on what else the text contains.",
  [D + "mpd_proxy.py"],
  [("xlink rewriting", D + "mpd_proxy.py:generate_response_with_xlink")],
  note="metamorphic: MPD with and without xlink compared after resolving the references",
  technique="metamorphic property-based testing (resolve references, compare with the non-xlink MPD)")

P("C15", "UTCTiming, BaseURL and Location follow the request URL",
  "The MPD's BaseURL (or Location for relative start/stop) reproduces scheme, host and all option parts of the request in order, so that "
  "segments fetched through it see the same options; Location replaces relative times by the absolute ones it resolved to and "
  "yields the same session later. "
  "Each requested utc_ method gives one UTCTiming element of the documented scheme in the requested order, with the head URL on the "
  "requested host and scheme and the direct value equal to the current time; unknown methods are refused.",
  ["inputs", "configurations", "schedules"],
  "all hosts, schemes, option orders, utc method lists, relative times",
  "Tests use one host and a few option lists.",
  [D + "dash_proxy.py", D + "mpdprocessor.py", D + "configprocessor.py"],
  [("base URL", D + "dash_proxy.py:DashProvider"), ("UTCTiming/Location/BaseURL writing", D + "mpdprocessor.py:process_mpd_children")],
  note="", technique="property-based testing with a URL reference model and a resolve-later metamorphic relation")

P("C16", "Lossy base URLs follow their up/down schedule",
  "With baseurl_uX_dY or baseurl_dX_uY one BaseURL per option is announced, and media segments fetched through it are refused exactly during its down intervals "
  "in the repeating schedule anchored at each full minute, and served as without the option otherwise. "
  "A segment requested in the last second before a down interval of an up-first schedule carries an in-band event before the movie fragment, and with "
  "segmentloss signalling (segtimelineloss_1) and an up-first schedule the timeline freezes during down intervals, the event stream is announced in that last second and the simple "
  "profile is replaced by the main one.",
  ["inputs", "configurations", "schedules"],
  "all X, Y, one or several base URLs, every second of the minute, number and timeline addressing",
  "Tests check four instants for one schedule.",
  [D + "dash_proxy.py", D + "mpd_proxy.py", D + "mpdprocessor.py", D + "mediasegmentfilter.py"],
  [("segment loss", D + "dash_proxy.py:get_media"), ("timeline loss", D + "mpd_proxy.py:get_mpd"), ("BaseURL list", D + "mpdprocessor.py:process_mpd_children")],
  note="", technique="property-based testing against a schedule model, differential against the loss-free URL")

P("C17", "Low-latency chunks carry the same samples as the whole segment",
  "With chunkdur_d the concatenated response is a sequence of self-contained chunks (one movie fragment and its media data each, the segment's type and event messages before the first) whose samples, in order, have "
  "the same data, durations, decode times, sync flags and composition offsets as the segment served without the option. "
  "Every chunk states its own decode time and the segment's sequence number and track, and chunk i ends with the first sample (after those of the chunk before) at which the duration "
  "from the segment start reaches i chunk durations.",
  ["inputs", "configurations"],
  "all layouts of unencrypted segments (one or more fragments and track runs, defaults in the fragment or in the init segment, all trun flags, signed composition offsets), all chunk durations of at least one tick",
  "One content and one chunk duration are tested and only the number of chunks is looked at.",
  [D + "chunker.py", D + "boxes.py", D + "mp4.py", D + "dash_proxy.py"],
  [("chunking", D + "chunker.py:decode_fragment, partition, chunk"), ("box writing", D + "boxes.py:create_moof, TRUNBox"), ("box reading", D + "mp4.py:trun_box, tfhd_box")],
  note="differential: chunked against non-chunked response through an independent MP4 parser",
  technique="differential property-based testing (chunked vs. whole segment)")

P("C18", "Low-latency chunks are paced in real time and signalled in the MPD",
  "With chunkdur_d, chunk i of a segment (i = 1, 2, ...) is never sent more than 0.1 s before segment start + i*d (or the segment end, if that is earlier) and is sent without further delay once that time is reached, so a finished "
  "segment is delivered without any waiting, for every session start. "
  "The MPD then signals availabilityTimeOffset and availabilityTimeComplete=false on the segment templates, the low-latency profile, a service description, a producer "
  "reference time per adaptation set that relates media time to its wall-clock time, and a UTCTiming method.",
  ["inputs", "schedules", "configurations"],
  "all chunk durations, offsets, session starts and request times between the early availability and long after the segment",
  "The pacing loop is not tested at all; the tests call the chunker directly.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py", D + "dash_proxy.py", D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("pacing", "dashlivesim/mod_wsgi/mod_dashlivesim.py:application"), ("signalling", D + "mpd_proxy.py:generate_dynamic_mpd")],
  note="virtual clock: sleeping advances it; send times recorded",
  technique="property-based testing on a virtual clock against a pacing model")

P("C19", "On-the-fly multiplexing preserves both tracks",
  "A request for A__B returns an init segment with both tracks and both track-extends defaults, and media segments with one movie fragment in which each track's samples "
  "(data located through the fragment's offsets, durations, flags, decode time) are exactly those of the separately served segments. "
  "The order follows the URL, and availability rules are those of the unmultiplexed segments.",
  ["inputs", "configurations"],
  "all pairs of tracks and unencrypted layouts of one fragment with one track run, including decode times that need 64 bits in one or both tracks",
  "One muxed pair is compared by size in the tests.",
  [D + "segmentmuxer.py", D + "dash_proxy.py"],
  [("sample-level multiplexing", D + "segmentmuxer.py:MultiplexMediaSegments"), ("init multiplexing", D + "segmentmuxer.py:MultiplexInits")],
  note="", technique="differential property-based testing (muxed vs. separately served tracks)")

P("C20", "Init segments are live versions of the VoD ones, available from their time",
  "An initialization segment is served if and only if the current time is at or after availabilityStartTime minus the init_ offset. "
  "It equals the VoD one byte for byte except that the movie, track and media durations are zero, for all box versions.",
  ["inputs", "configurations"],
  "all init layouts (version 0/1 headers, extra boxes), start_ and init_ values and times",
  "One init segment is tested.",
  [D + "initsegmentfilter.py", D + "dash_proxy.py"],
  [("duration zeroing", D + "initsegmentfilter.py:InitLiveFilter"), ("availability", D + "dash_proxy.py:get_init")],
  note="", technique="property-based testing: byte-level reference transformation")

P("C21", "SCTE-35 cues announce the documented ad breaks",
  "With scte35_n (n = 1, 2, 3) each ad break at the set seconds of the minute of media time (10; 10 and 40; 10, 36 and 46) is announced by event messages in exactly those video segments "
  "whose interval (both ends included) contains the instant 8 s or 6 s before the break, and no other segment or non-video track carries one. "
  "Each message is a well-formed event box after the segment type whose presentation time (segment start plus delta), splice time (modulo 2^33) and duration are those of the break, "
  "repeated announcements of a break share one id, and the MPD announces the event stream on video only.",
  ["inputs", "configurations"],
  "all segment durations up to 30 s (several breaks in one segment), content with segment type boxes, all segment numbers (positions within the minute), session starts and start numbers",
  "Tests check three segments of one content with 6 s segments.",
  [D + "mediasegmentfilter.py", D + "scte35.py", D + "emsg.py", D + "mpdprocessor.py"],
  [("cue placement", D + "mediasegmentfilter.py:create_scte35box"), ("message", D + "scte35.py"), ("event box", D + "emsg.py")],
  note="", technique="property-based testing against a break schedule model, independent emsg/XML parser")

P("C22", "Live TTML subtitles are shifted to live time",
  "A served TTML segment equals the VoD one except that every begin and end time is shifted by the loop offset with milliseconds kept, the language clock lines show that time as UTC, the shown segment number "
  "is the live number, and sizes in the boxes follow. "
  "All other text, markup and characters are unchanged.",
  ["inputs", "configurations"],
  "all TTML documents with such times (in double or single quotes, also hours above 99), UTF-8 text, all loop offsets",
  "One stpp segment is tested.",
  [D + "ttml_timing_offset.py", D + "mediasegmentfilter.py"],
  [("text shifting", D + "ttml_timing_offset.py"), ("size fix-up", D + "mediasegmentfilter.py:update_ttml_mdat, process_tfhd")],
  note="", technique="property-based testing: structured TTML generator, reference renderer as oracle")

P("C23", "Inserted segment index boxes describe the segment",
  "With sidx_1 exactly one segment index is inserted directly before the first movie fragment, with the track timescale, the segment's decode time as earliest presentation time, "
  "the size of the movie fragments with their media data and what stands between them, and the segment's total sample duration. "
  "Everything else in the segment is as without the option, and without the option no segment index is present.",
  ["inputs", "configurations"],
  "all layouts (one or more fragments and track runs; durations per sample, fragment default or init default), tracks and numbers",
  "Tests check one segment's sidx.",
  [D + "mediasegmentfilter.py"],
  [("sidx creation", D + "mediasegmentfilter.py:create_sidx, finalize, process_trun")],
  note="", technique="differential property-based testing (sidx_1 vs. plain) with independent parser")

P("C24", "HTTP responses have the right status, type and headers",
  "Available resources give 200 with the MIME type of their kind, unavailable ones give 404 as plain text with a non-empty explanation, every response carries the CORS, no-cache "
  "and simulator headers, and the Content-Length (when present) equals the body length. "
  "Query strings are ignored, no header of one response shows up in another, and the stand-alone web server sends the same answers over the network, also to requests without a Host header.",
  ["inputs", "configurations"],
  "all resource kinds, option sets, hosts, query strings and times",
  "Tests mostly bypass the HTTP layer.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py"],
  [("reply construction", "dashlivesim/mod_wsgi/mod_dashlivesim.py:application, start_reply, get_mime_type"),
   ("stand-alone server", "dashlivesim/mod_wsgi/mod_dashlivesim.py:main")],
  note="", technique="property-based testing of the WSGI entry point against an HTTP contract oracle")

P("C25", "Byte-range requests return exactly the requested bytes",
  "A satisfiable single byte range (first-last, first-, or -suffix) on any resource that is sent as a whole (not in low-latency chunks) returns 206 with exactly those bytes of the full response and a matching Content-Range. "
  "Any other Range header (malformed, multiple, other unit, unsatisfiable) is ignored and the full response is returned with 200; "
  "concatenating adjacent ranges reproduces the resource.",
  ["inputs"],
  "all range specifications relative to the resource length, including ones past the end, longer suffixes than the resource, and garbage",
  "No existing test sends a Range header.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py"],
  [("range handling", "dashlivesim/mod_wsgi/mod_dashlivesim.py:handle_byte_range")],
  note="", technique="property-based testing and grammar fuzzing of Range headers against RFC 7233 semantics")

P("C26", "The server is stateless and never fails or modifies its content",
  "Any request, valid or garbage, gets a complete HTTP response with a proper status and never raises out of the application. "
  "The response to a request depends only on the request, the content and the current time: it is the same whatever requests came before, in any order, "
  "also after the content was replaced in between, and the content and configuration files are never modified.",
  ["inputs", "histories", "configurations"],
  "random histories of mixed requests (valid, mutated, garbage) at varying times against fresh-process answers",
  "Tests run single requests; leaking state between requests needs a history.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py", D + "dash_proxy.py", D + "configprocessor.py", D + "mpd_proxy.py"],
  [("error containment", "dashlivesim/mod_wsgi/mod_dashlivesim.py:application"), ("per-request state", D + "configprocessor.py:Config")],
  note="", technique="stateful property-based testing (request histories) and URL grammar fuzzing")

P("C27", "Session time limits redirect, admit and expire correctly",
  "With a maximum session length configured, a manifest request without session start is redirected (302) to the same URL with the current time and a session id inserted after the "
  "service name, query kept, and following the redirect gives the manifest. "
  "Requests with a session start are answered normally until the maximum length has passed (410 afterwards) and refused (404) if it is more than 5 s in the future; "
  "media requests without one are refused (404).",
  ["inputs", "schedules", "histories"],
  "all session lengths, times relative to the limits, URLs, schemes and query strings",
  "The session-limit mode has no test.",
  ["dashlivesim/mod_wsgi/mod_dashlivesim.py", D + "sessionid.py"],
  [("session limiting", "dashlivesim/mod_wsgi/mod_dashlivesim.py:application")],
  note="", technique="property-based testing against a session-limit model, redirect followed")

P("C28", "The VoD analyzer produces a configuration that matches the content",
  "Analyzing VoD content writes a configuration whose segment range, segment duration, representations, timescales, total durations and segment-time table describe the media files exactly, "
  "for all duration patterns within the drift tolerance; content with missing segments or too much drift is refused, and representations of different length are cut to the common loop. "
  "Serving the content with the written configuration gives segments and timelines consistent with the media files, and the table checker reports exactly the entries "
  "that do not follow on the one before.",
  ["inputs", "programs", "configurations"],
  "all contents: number of segments, first number, duration patterns, timescales, header versions, several representations",
  "The analyzer has no test.",
  ["dashlivesim/vodanalyzer/dashanalyzer.py", "dashlivesim/vodanalyzer/mpdprocessor.py", D + "configprocessor.py", D + "initsegmentfilter.py", D + "mediasegmentfilter.py"],
  [("analysis", "dashlivesim/vodanalyzer/dashanalyzer.py:DashAnalyzer"), ("config writing", D + "configprocessor.py:write_config"), ("config reading", D + "configprocessor.py:read_config")],
  observe=["files written by the analyzer", "HTTP responses using them"],
  note="", technique="property-based testing: generated content analysed, output compared with the generator's specification")

P("C29", "The caption inserter adds exactly the given captions",
  "Inserting CEA-608 captions into clear AVC video puts each caption line of the SCC file, converted to video time, into the one video sample whose interval contains it, as SEI units that decode to the "
  "given byte pairs on the chosen field, before the first picture unit. "
  "All other bytes, sample times and flags are unchanged, and sample sizes and box sizes follow so the segment stays valid. "
  "Files in the directories that are no segments are ignored, and a missing segment is reported.",
  ["inputs", "programs"],
  "all SCC files (non-drop-frame times, line lengths above one unit's capacity), segment limits, NAL layouts, trun flags, sample counts",
  "The inserter has no test.",
  ["dashlivesim/cc_inserter/cc_inserter.py", "dashlivesim/cc_inserter/mpdprocessor.py"],
  [("SEI generation", "dashlivesim/cc_inserter/cc_inserter.py:generate_data"), ("insertion", "dashlivesim/cc_inserter/cc_inserter.py:CCInsertFilter"),
   ("SCC parsing", "dashlivesim/cc_inserter/cc_inserter.py:SCCParser")],
  observe=["segments written by the tool"],
  note="", technique="property-based testing: extract-back round trip with independent SEI decoder")

P("C30", "Box and bit writers and readers agree",
  "Bits and exp-Golomb codes written are read back unchanged, and the MP4 box writers produce boxes whose declared size equals their length and which the box reader parses back "
  "to the written values (movie fragments, track runs, decode times, sample data, event messages, init headers, encryption and sample-group data, cues). Boxes laid out as the "
  "standard says, in every version and with every choice of optional fields, are read as the values they hold, and a search finds exactly the boxes under its path.",
  ["inputs", "programs"],
  "all bit widths and values; all field values including maxima and negative offsets; box versions, optional fields, box trees",
  "The bit and box utilities have no direct tests.",
  [D + "bitreader.py", D + "bitwriter.py", D + "boxes.py", D + "mp4.py", D + "emsg.py", D + "structops.py"],
  [("bit IO", D + "bitreader.py, bitwriter.py"), ("box writers", D + "boxes.py"), ("box readers", D + "mp4.py")],
  observe=["library API: bitreader, bitwriter, boxes, mp4, emsg"],
  note="", technique="property-based round-trip testing, cross-checked with an independent parser")

P("C31", "Durations and timestamps convert without loss",
  "Any non-negative number of seconds is formatted as a valid XML-Schema duration denoting that number (at most the fraction of a second is lost), durations of the hour-minute-second form are read as the number of "
  "whole seconds they denote, and timestamps denote the given UTC second.",
  ["inputs"],
  "all integers up to many years, including multiples of a day, hour and minute",
  "No direct tests.",
  [D + "timeformatconversions.py"],
  [("conversions", D + "timeformatconversions.py")],
  observe=["library API", "MPD attributes"],
  note="", technique="property-based round-trip testing with an independent duration parser")

P("C32", "Thumbnail images follow the media timeline",
  "Thumbnail number k is served unmodified from the looped VoD images exactly like a media segment with that number: same mapping, same availability window, same first and last number, 404 otherwise.",
  ["inputs", "configurations", "schedules"],
  "all contents with an image track, numbers, times and session options",
  "No test requests a thumbnail.",
  [D + "dash_proxy.py"],
  [("thumbnail lookup", D + "dash_proxy.py:process_thumbnail")],
  note="", technique="property-based testing against the segment availability and mapping model")

P("C33", "Restarting sessions (tfdt_32, cont_1) stay in a bounded, consistent timeline",
  "With tfdt_32 the session restarts on every 3-hour boundary of the epoch and with cont_1 it restarts at the last whole segment before the request, with availability start, end (3 h later) and presentation duration "
  "announced accordingly, and media times counted from the restart so that they fit in 32 bits for tracks with timescales up to 90 kHz. "
  "Combining the two is refused.",
  ["inputs", "schedules", "configurations"],
  "all times relative to the 3-hour grid, contents and numbers",
  "Tests check one MPD.",
  [D + "configprocessor.py", D + "dash_proxy.py"],
  [("session restart", D + "configprocessor.py:update_for_tfdt32, update_for_cont_update")],
  note="", technique="property-based testing against a session reference model")

P("C34", "A media-time offset shifts numbers and times together",
  "With start_S and timeoffset_T the first segment number is (S - T) / segment duration (plus the start number), the first segment's media time equals S - T within the loop timeline, and the MPD's presentation time "
  "offset equals that media time, so presentation still starts at the period start. "
  "With timeoffset_0 the segments are the same as those of the epoch-anchored session at the same wall-clock time.",
  ["inputs", "configurations"],
  "all starts and offsets (aligned to segments), contents, times",
  "One start-over test exists for one instant.",
  [D + "configprocessor.py", D + "dash_proxy.py", D + "mpd_proxy.py"],
  [("number and time shift", D + "configprocessor.py:adjusted_start_number, adjusted_pto")],
  note="", technique="property-based testing: metamorphic relation between offset and epoch sessions")

P("C35", "Generated TTML test segments form valid, timed subtitle content",
  "The subtitle segment generator writes an init segment and consecutive media segments in which track id, timescale, language, decode time, duration and sample size match the request and the sample is the well-formed TTML "
  "document for that segment, so that the server can serve them as subtitle content.",
  ["inputs", "programs"],
  "all languages, track ids, segment durations, subtitle intervals, counts and file name formats",
  "The generator has no test.",
  [D + "stpp_generator/make_stpp_segments.py", D + "stpp_generator/stpp_creator.py"],
  [("segment creation", D + "stpp_generator/stpp_creator.py"), ("document creation", D + "stpp_generator/make_stpp_segments.py")],
  observe=["files written by the tool"],
  note="", technique="property-based testing: generated segments parsed back with an independent MP4 parser")
P("C36", "Requests only reach the files of the content they name",
  "Whatever the URL, the server only ever reads media and manifest files below the directory of the content that the URL names, "
  "inside the configured content root, and its configuration files. "
  "A path that leads out of that directory, with parent-directory parts or with an absolute path, is answered with 404.",
  ["inputs"],
  "all URL paths, with parent-directory, empty, current-directory and encoded parts in all positions, for all kinds of resources, "
  "and trees with files of the same names in other places",
  "Tests only use well-formed paths.",
  [D + "configprocessor.py", D + "dash_proxy.py", D + "mpd_proxy.py"],
  [("path parts", D + "configprocessor.py:update_with_filedata"), ("file names", D + "dash_proxy.py:process_init_segment, process_media_segment, process_thumbnail"),
   ("manifest file name", D + "mpd_proxy.py:get_mpd")],
  observe=["HTTP responses of the WSGI application", "files opened while a request is served (audit hook)"],
  note="every tree is a scratch directory; files outside of it are not part of the oracle",
  technique="property-based testing: generated paths over decoy trees, with an audit hook recording the opened files")

P("C37", "Options combine without interfering, in any order",
  "Documented options that do not exclude each other can be combined freely: the manifest is served, and adding an option to any others changes only the part of it that the option concerns, "
  "which is the same as when the option is used alone (clock sources, presentation delay, ad signalling, low-latency description) or follows from its own rule. "
  "Options that only concern the manifest (update period, delay, clock sources, periods, remote periods, callbacks, timelines, loss signalling, session ids, early init segments) never change a "
  "media segment or whether it is served. The order of different options in the URL makes no difference except in URLs that repeat them.",
  ["inputs", "configurations"],
  "all sets of documented options with values in their documented ranges on all kinds of sessions and times from the start of the session, in all orders",
  "Tests use one or two options at a time; that features do not break each other is a statement about all combinations.",
  [D + "configprocessor.py", D + "mpd_proxy.py", D + "mpdprocessor.py", D + "dash_proxy.py"],
  [("option parsing", D + "configprocessor.py:process_url"), ("manifest generation", D + "mpd_proxy.py:get_mpd, generate_dynamic_mpd"),
   ("manifest writing", D + "mpdprocessor.py:process_mpd, process_mpd_children, update_periods")],
  note="metamorphic: with and without an option, permuted, and segments with and without manifest options",
  technique="property-based testing with metamorphic relations over generated option sets")

P("C38", "Options that cannot be honoured are refused, never silently ignored",
  "A request with an option that is unknown, has no value, or has a value that is not a whole number where one is needed, with a start number below -1, or with session kinds that exclude each other "
  "(start time and modulo, 32-bit restarts and continuous updates) gets 404 for manifests, init segments and media segments; a manifest with an unknown clock source, a number of periods that does not divide the hour, "
  "remote, callback or early-terminated periods that do not fit the periods, or ads without remote periods gets 404. "
  "Switches set to 0, and chunk durations and availability time offsets that are not positive numbers, are as if the option were absent.",
  ["inputs", "configurations"],
  "all options with values that are not numbers, all numbers of periods, remote, callback and early-terminated periods, all exclusive pairs, among all sets of valid options on all kinds of sessions",
  "Tests try one or two bad values alone.",
  [D + "configprocessor.py", D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("option parsing", D + "configprocessor.py:process_url, interpret_start_nr"), ("period options", D + "mpd_proxy.py:get_mpd, generate_period_data"),
   ("clock sources", D + "mpdprocessor.py:insert_utc_timings")],
  note="metamorphic: the same request without the bad option is served; with a switched-off option it is the same",
  technique="property-based testing over generated invalid option values among valid ones")

P("C39", "Live manifests are valid by the DASH schema",
  "For every content whose own manifest is valid and every combination of options that is served, the live manifest and each remote period "
  "it refers to are valid by the schema of DASH manifests: known elements in the prescribed order, required attributes present, and values of the declared types. "
  "A dynamic manifest has an availability start and a publish time, a static one no update period and no time-shift buffer depth; the end is given by a duration or left open by an update period; "
  "period ids are unique, periods start in increasing order and do not overlap. "
  "Within a period the ids of adaptation sets and representations are unique, each segment template has either a segment duration or a timeline of entries with positive durations, "
  "and its media name has a number, or a time only if there is a timeline.",
  ["inputs", "configurations", "schedules"],
  "all contents (manifests with protection, roles, metrics, properties, service descriptions, nested BaseURLs), all kinds of sessions with all combinations of options, at all times",
  "Tests look for the presence of single elements of one manifest per option.",
  [D + "mpdprocessor.py", D + "mpd_proxy.py", D + "segtimeline.py", D + "configprocessor.py"],
  [("insertion of elements", D + "mpdprocessor.py:process_mpd_children, update_periods"), ("remote periods and ads", D + "mpd_proxy.py:generate_response_with_xlink"),
   ("manifest attributes", D + "mpd_proxy.py:generate_dynamic_mpd, generate_period_data")],
  note="hand-written table of the schema, with the rules of the standard that the schema does not express",
  technique="property-based testing: validity invariant over generated contents and option sets")


P("C40", "Successive manifests and segments of a session agree",
  "As a session goes on, nothing that a manifest has announced is taken back: the availability start, the profiles, the base URLs, clock sources and other elements outside the periods, "
  "a period's id, start, presentation time offset, adaptation sets and templates, and the number, start and duration of each listed segment are the same in every later manifest that still lists them (clock values and the change to an ended session apart). "
  "The windows of periods and of timeline entries only move forwards, without dropping or adding an entry in what two manifests both cover, and publish times do not go back. "
  "A media, init or thumbnail segment has the same bytes whenever it is fetched (lossy sessions apart), whole or in low-latency chunks, and once no longer available it does not come back in that session.",
  ["histories", "schedules", "configurations"],
  "all kinds of sessions with all combinations of options, up to five manifests and segment requests of one session at increasing times from fractions of a second to hours apart, restarts of sessions in between",
  "Tests never compare the answers to one URL at two times.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py", D + "segtimeline.py", D + "configprocessor.py", D + "dash_proxy.py"],
  [("periods", D + "mpd_proxy.py:generate_period_data"), ("timelines", D + "segtimeline.py:create_segtimeline"), ("segments", D + "dash_proxy.py:process_media_segment")],
  note="metamorphic relation between the answers to one URL at several times; no model of the values",
  technique="property-based testing: metamorphic relation over histories of manifest updates and segment requests")


NOT_APPLICABLE = []


def props_lines():
    for p in PROPS:
        yield json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}})


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for line in props_lines():
            f.write(line + "\n")
    na = {pid for pid, _ in NOT_APPLICABLE}
    checks = []
    nas = [{"property": a, "reason": b} for a, b in NOT_APPLICABLE]
    for p in PROPS:
        if p["id"] in na:
            continue
        modpath = os.path.join(HERE, "checks", p["id"].lower() + ".py")
        if not os.path.exists(modpath):
            nas.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["id"],
                       "quick_cmd": "./run_check %s" % p["id"],
                       "thorough_cmd": "./run_check %s --thorough" % p["id"],
                       "technique": p["technique"], "level": "exploration",
                       "level_note": "Generated-input search with an explicit oracle; absence of violations is shown only for "
                                     "the generated cases (counts in the evidence file). " +
                                     (("Basis: " + p["note"] + ". ") if p["note"] else "") +
                                     "Trusts the independent MP4/MPD readers and models in vlib/, Hypothesis, and a virtual clock substituted for time.time/time.sleep."})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nas}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
