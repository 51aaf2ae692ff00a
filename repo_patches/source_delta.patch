From a8b3fafdd2611d7796fb77feb4f14fb7f97d2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 001/102] fix: count the implicit start number (snr_-1) as 1
 also with time offset and stop time

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 dashlivesim/dashlib/dash_proxy.py      | 2 +-
 dashlivesim/dashlib/mpd_proxy.py       | 2 ++
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..8f3bca8 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -229,7 +229,7 @@ class Config(object):
 
     @property
     def adjusted_start_number(self):
-        start_nr = self.start_nr
+        start_nr = 1 if self.start_nr == -1 else self.start_nr  # -1 is an implicit 1
         if self.timeoffset is not None:
             start_nr += ((self.availability_start_time_in_s - self.timeoffset)
                          // self.seg_duration)
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..baa90fb 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -233,7 +233,7 @@ def process_media_segment(dashProv, now_float, chunk):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..c0ef20c 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -215,6 +215,8 @@ def generate_period_data(mpd_data, now, cfg):
     if nr_periods_per_hour == -1:  # Just one period starting at at time start relative AST
         start = 0
         start_number = mpd_data['startNumber'] + start // seg_dur
+        if cfg.start_nr == -1 and start_number == 1:
+            start_number = -1  # Implicit value, not to be written in the MPD
         data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': str(start_number),
                 'duration': seg_dur, 'presentationTimeOffset': "%d" % mpd_data['presentationTimeOffset'],
                 'start_s': start}
-- 
2.43.0


From 55a46f0230e35916f3bdc8ab9028aee3498f8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 002/102] fix: keep mediaPresentationDuration in the MPD close
 to and after the end of a dur_ session

---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 8f3bca8..9dfd4a3 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -178,6 +178,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From 910c368275837346b1b9bce51c5755a6828d4e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 003/102] fix: enforce the end (and lmsg) of modulo_ sessions
 and of dur_ sessions with a start number or time offset

---
 dashlivesim/dashlib/configprocessor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 9dfd4a3..f890ea2 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -170,7 +170,7 @@ class Config(object):
         self.availability_start_time_in_s = modulo_period.availability_start_time
         self.media_presentation_duration = modulo_period.media_presentation_duration
         self.availability_end_time = modulo_period.availability_end_time
-        self.last_segment_numbers.append(modulo_period.calc_last_segment_number(seg_dur))
+        self.last_segment_numbers.append(int(self.media_presentation_duration)//seg_dur - 1)
 
     def update_with_aet(self, now_int, availability_end_times, media_presentation_durations):
         "Find the proper availabilityEndTime and mediaPresentation duration for now and set in cfg."
@@ -228,6 +228,10 @@ class Config(object):
     def set_timeoffset(self, new_offset):
         self.timeoffset = new_offset
 
+    def shift_last_segment_numbers(self):
+        "Make the last segment numbers, calculated as if the first segment was 0, relative to the first segment."
+        self.last_segment_numbers = [nr + self.adjusted_start_number for nr in self.last_segment_numbers]
+
     @property
     def adjusted_start_number(self):
         start_nr = 1 if self.start_nr == -1 else self.start_nr  # -1 is an implicit 1
@@ -518,6 +522,7 @@ class ConfigProcessor(object):
             cfg.do_add_location()
         if timeoffset is not None:
             cfg.set_timeoffset(timeoffset)
+        cfg.shift_last_segment_numbers()
 
     # pylint: disable=no-self-use
 
-- 
2.43.0


From 110a2650c0de830a8a0a1ac5afeac7afad0cb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 004/102] fix: allow mup_0 together with a start time

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index f890ea2..b738816 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -220,7 +220,7 @@ class Config(object):
         """The publishTime to be written in the MPD. Changed according to the rules:
             if availabilityStartTimeInS == DEFAULT_AVAILABILITY_STARTTIME_IN_S."""
         if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S:
-            publish_time = quantize(now_int, self.minimum_update_period_in_s)
+            publish_time = quantize(now_int, max(self.minimum_update_period_in_s, 1))
         else:
             publish_time = DEFAULT_AVAILABILITY_STARTTIME_IN_S
         self.publish_time = publish_time
-- 
2.43.0


From f829b4aa81e05f37e60355481caac0628eec4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 005/102] fix: segment timelines that span one or more loop
 wraps

---
 dashlivesim/dashlib/segtimeline.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..12ef078 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -119,7 +119,7 @@ class SegmentTimeLineGenerator(object):
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
             # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
+            if repeat_index == end_index and nr_wraps == end_wraps:
                 s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
             else:
                 s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
@@ -131,11 +131,8 @@ class SegmentTimeLineGenerator(object):
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
+        if start_index != end_index or start_wraps != end_wraps:
             nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
         else:  # There was only one entry which was repeated
             nr_repeats = end_repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
-- 
2.43.0


From 36df400939e97eae5e1b47191bd5b79ed54d86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 006/102] fix: segment timeline starts with the segment that
 starts exactly at the window start

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 12ef078..7c6d81e 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -166,7 +166,7 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         accumulated_end_time = seg_data.start_time + seg_data.duration
-        while accumulated_end_time < rel_time:
+        while accumulated_end_time <= rel_time:
             accumulated_end_time += seg_data.duration
             repeats += 1
         return index, repeats, nr_wraps
-- 
2.43.0


From 8fd8c8a84770d919f37d26b6dfbfcbcbb7d21101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 007/102] fix: closest segment start after the last repeat is
 the first one of the next entry

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 7c6d81e..0e29834 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -193,7 +193,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From 771d9378d7ae9a353d95a0f7078374b2e24794ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 008/102] fix: empty segment timeline instead of an error
 before the first segment has ended

---
 dashlivesim/dashlib/segtimeline.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 0e29834..f77dc88 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -95,8 +95,6 @@ class SegmentTimeLineGenerator(object):
                 end_wraps -= 1
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
-                if (end_wraps < 0):
-                    return (None, None, None)
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
-- 
2.43.0


From 4d6bb42192576e117f134215c505fccd6b11548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 009/102] fix: segment timelines for content with subtitles or
 without audio or video

---
 dashlivesim/dashlib/mpdprocessor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..829c965 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -310,9 +310,10 @@ class MpdProcessor(object):
                                                elem_id=None, messageData=BaseURLSegmented)
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
-            for content_type in ('video', 'audio'):
-                segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
-                                                                                self.cfg)
+            for content_type in ('video', 'audio', 'subtitles'):
+                if content_type in self.cfg.media_data:
+                    segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
+                                                                                    self.cfg)
         periods = mpd.findall(add_ns('Period'))
         BaseURL = mpd.findall(add_ns('BaseURL'))
         if len(BaseURL) > 0:
-- 
2.43.0


From 9e4c30db356fd2be3f54524a0113bcb2780e3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:46 +0000
Subject: [PATCH 010/102] fix: segment timelines of sessions with time offset
 or an end list the session's own segments

---
 dashlivesim/dashlib/configprocessor.py | 10 ++++++++++
 dashlivesim/dashlib/mpdprocessor.py    | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index b738816..52f367b 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -254,6 +254,16 @@ class Config(object):
         start = self.adjusted_start_number
         return start + self.media_presentation_duration // self.seg_duration
 
+    @property
+    def session_end_time(self):
+        "The end time of the last segment, or None if there is no last segment."
+        if self.stop_time is not None:
+            return self.stop_time
+        if self.last_segment_numbers:
+            nr_segments = self.last_segment_numbers[-1] - self.adjusted_start_number + 1
+            return self.availability_start_time_in_s + nr_segments * self.seg_duration
+        return None
+
 
 class VodConfig(object):
     "Configuration of the actual content."
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 829c965..b20bd71 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -378,13 +378,16 @@ class MpdProcessor(object):
                             end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
                         else:
                             end_time = now
-                        start_time -= self.cfg.availability_start_time_in_s
-                        end_time -= self.cfg.availability_start_time_in_s
-                        use_closest = False
-                        if self.cfg.stop_time and self.cfg.timeoffset == 0:
-                            start_time = self.cfg.start_time
-                            end_time = min(now, self.cfg.stop_time)
-                            use_closest = True
+                        session_end = self.cfg.session_end_time
+                        if session_end is not None:
+                            end_time = min(end_time, session_end)
+                        if self.cfg.stop_time:  # List the whole session
+                            start_time = ast + pdata['start_s']
+                        # Go from wall-clock time to media time
+                        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
+                        start_time += media_time_at_ast - ast
+                        end_time += media_time_at_ast - ast
+                        use_closest = start_time == media_time_at_ast  # At the first segment of the session
                         seg_timeline = segtime_gen.create_segtimeline(
                             start_time, end_time, use_closest)
                         remove_attribs(seg_template, ['duration'])
-- 
2.43.0


From 1db39fbfa98956d9247168bba54cfe46a2afc3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 011/102] fix: valid startNumber for an empty segment timeline

---
 dashlivesim/dashlib/segtimeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index f77dc88..b62776c 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -106,6 +106,8 @@ class SegmentTimeLineGenerator(object):
             result = self.find_latest_starting_before(start)
         (start_index, start_repeats, start_wraps) = result
         # print("start %d %d %d" % (start_index, start_repeats, start_wraps))
+        self.start_number = self.get_seg_number(start_wraps, start_index,
+                                                start_repeats)
         start_tics = self.get_seg_starttime(start_wraps, start_index, start_repeats)
         start_tics_end = self.get_seg_starttime(end_wraps, end_index, end_repeats)
         if (start_tics_end < start_tics):
@@ -135,8 +137,6 @@ class SegmentTimeLineGenerator(object):
             nr_repeats = end_repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
         seg_timeline.insert(0, s_elem)
-        self.start_number = self.get_seg_number(nr_wraps, start_index,
-                                                start_repeats)
         return seg_timeline
 
     def get_seg_starttime(self, nr_wraps, index, repeats):
-- 
2.43.0


From ea8971da22072f1375ebe0f024872ebd492919c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 012/102] fix: apply the start number (snr_) to segment
 timelines, time addressing and multi-period manifests

---
 dashlivesim/dashlib/configprocessor.py | 7 ++++++-
 dashlivesim/dashlib/dash_proxy.py      | 2 +-
 dashlivesim/dashlib/mpd_proxy.py       | 5 +++--
 dashlivesim/dashlib/mpdprocessor.py    | 3 ++-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 52f367b..e85e9b7 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -232,9 +232,14 @@ class Config(object):
         "Make the last segment numbers, calculated as if the first segment was 0, relative to the first segment."
         self.last_segment_numbers = [nr + self.adjusted_start_number for nr in self.last_segment_numbers]
 
+    @property
+    def number_at_media_start(self):
+        "The number of the segment with media time 0."
+        return 1 if self.start_nr == -1 else self.start_nr  # -1 is an implicit 1
+
     @property
     def adjusted_start_number(self):
-        start_nr = 1 if self.start_nr == -1 else self.start_nr  # -1 is an implicit 1
+        start_nr = self.number_at_media_start
         if self.timeoffset is not None:
             start_nr += ((self.availability_start_time_in_s - self.timeoffset)
                          // self.seg_duration)
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index baa90fb..df3276f 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -230,7 +230,7 @@ def process_media_segment(dashProv, now_float, chunk):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.number_at_media_start
     else:
         seg_nr = int(seg_base)
     seg_start_nr = cfg.adjusted_start_number
diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index c0ef20c..f4f91ff 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -223,7 +223,8 @@ def generate_period_data(mpd_data, now, cfg):
         period_data.append(data)
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
-        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (start // seg_dur),
+        start_number = mpd_data['startNumber'] + start // seg_dur
+        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % start_number,
                 'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
@@ -242,7 +243,7 @@ def generate_period_data(mpd_data, now, cfg):
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
-                    'startNumber': "%d" % (start_time//seg_dur), 'duration': seg_dur,
+                    'startNumber': "%d" % (mpd_data['startNumber'] + start_time//seg_dur), 'duration': seg_dur,
                     'presentationTimeOffset': period_nr*period_duration,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index b20bd71..12581be 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -404,7 +404,8 @@ class MpdProcessor(object):
                             # Set number to the first number listed
                             set_attribs(seg_template,
                                         ('startNumber',),
-                                        {'startNumber': segtime_gen.start_number})
+                                        {'startNumber': (segtime_gen.start_number +
+                                                         self.cfg.number_at_media_start)})
                         seg_template.set('media', media_template)
                         seg_template.text = "\n"
                         seg_template.insert(0, seg_timeline)
-- 
2.43.0


From 97b9ebfe10fe1b0ad23c319bdc1a25f594133dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 013/102] fix: time-addressed segments of representations in
 nested directories

---
 dashlivesim/dashlib/dash_proxy.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index df3276f..5ed964d 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -214,20 +214,11 @@ def process_media_segment(dashProv, now_float, chunk):
 
     # pylint: disable=too-many-locals
 
-    def get_timescale(cfg):
-        "Get timescale for the current representation."
-        timescale = None
-        curr_rep_id = cfg.rel_path
-        for rep in cfg.reps:
-            if rep['id'] == curr_rep_id:
-                timescale = rep['timescale']
-                break
-        return timescale
     cfg = dashProv.cfg
     seg_dur = cfg.seg_duration
     seg_name = cfg.filename
     seg_base, seg_ext = splitext(seg_name)
-    timescale = get_timescale(cfg)
+    timescale = cfg.reps[0]['timescale']
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.number_at_media_start
-- 
2.43.0


From d4c0ed030ccb2d0f76bb8be706a9f1db7f9422f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 014/102] fix: durations of whole days must not end with an
 empty time part (P1DT)

---
 dashlivesim/dashlib/timeformatconversions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..56c2e5e 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -57,12 +57,13 @@ def iso_duration_to_seconds(duration):
 def seconds_to_iso_duration(nr_secs):
     "Make interval string in format PT... from time in seconds."
     days, rest = divmod(nr_secs, 3600*24)
-    hours, rest = divmod(rest, 3600)
-    minutes, seconds = divmod(rest, 60)
+    hours, minutes_and_seconds = divmod(rest, 3600)
+    minutes, seconds = divmod(minutes_and_seconds, 60)
     period = "P"
     if days > 0:
         period += "%dD" % days
-    period += "T"
+    if rest > 0 or days == 0:
+        period += "T"
     if hours > 0:
         period += "%dH" % hours
     if minutes > 0:
-- 
2.43.0


From ef298acb1844ab7a26d8fc0cd781510b60faab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 015/102] fix: read durations with fractional seconds instead
 of dropping their seconds

---
 dashlivesim/dashlib/timeformatconversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index 56c2e5e..8456e42 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -32,7 +32,7 @@
 import time
 import re
 
-RE_DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)S)?")
+RE_DURATION = re.compile(r"PT((?P<hours>\d+)H)?((?P<minutes>\d+)M)?((?P<seconds>\d+)(\.\d*)?S)?")
 
 
 class TimeFormatConversionError(Exception):
-- 
2.43.0


From 5f4f334b68a48f4eb8013b8c83bd5a0cf9839a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 016/102] fix: do not remove 'ns0:' from text content of the
 MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 12581be..37f3231 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -37,11 +37,13 @@ import time
 
 from dashlivesim.dashlib.timeformatconversions import make_timestamp
 from dashlivesim.dashlib.segtimeline import SegmentTimeLineGenerator
-from dashlivesim.dashlib.dash_namespace import add_ns
+from dashlivesim.dashlib.dash_namespace import add_ns, DASH_NAMESPACE
 from dashlivesim.dashlib import scte35
 
 SET_BASEURL = True
 
+ElementTree.register_namespace('', DASH_NAMESPACE.strip("{}"))  # Write DASH elements without prefix
+
 UTC_TIMING_NTP_SERVER = '1.de.pool.ntp.org'
 UTC_TIMING_SNTP_SERVER = 'time.kfki.hu'
 UTC_TIMING_HTTP_SERVER = 'http://time.akamai.com/?iso'
@@ -457,12 +459,10 @@ class MpdProcessor(object):
             pos += 1
         return pos
 
-    def get_full_xml(self, clean=True):
-        "Get a string of all XML cleaned (no ns0 namespace)"
+    def get_full_xml(self):
+        "Get a string of all XML with DASH as default namespace (no ns0 prefix)"
         ofh = StringIO()
         self.tree.write(ofh, encoding="unicode")
         value = ofh.getvalue()
-        if clean:
-            value = value.replace("ns0:", "").replace("xmlns:ns0=", "xmlns=")
         xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         return xml_intro + value
-- 
2.43.0


From 514086e85d442e99a3415a77aebaae35ad819147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 017/102] fix: allow a relative start without a relative stop
 in the Location URL

---
 dashlivesim/dashlib/mpdprocessor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 37f3231..f79ae03 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -185,10 +185,11 @@ class MpdProcessor(object):
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
                 pos += 1
         if self.cfg and self.cfg.add_location and self.full_url is not None:
-            loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
-                             self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            loc_url = self.full_url
+            if self.cfg.start_time is not None:
+                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" % self.cfg.start_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" % self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 571a1518c6dcc938de36a2b60f7e3f4fb87449e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 018/102] fix: xlink finds periods by their id attribute, not
 by the first text that looks like it

---
 dashlivesim/dashlib/mpd_proxy.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index f4f91ff..fb483f4 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -1,4 +1,4 @@
-from re import findall
+from re import escape, findall, search
 from math import ceil
 from xml.etree import ElementTree as ET
 
@@ -137,7 +137,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-            start_pos_period = response.find(period_id) - 12
+            start_pos_period = find_period_start(response, period_id)
             # Find the position in the string file of the period that has be replaced
             end_pos_period = response.find("</Period>", start_pos_period) + 9
             # End position of the corresponding period.
@@ -184,7 +184,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-        start_pos_period = response.find(filename[:-7]) - 12
+        start_pos_period = find_period_start(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
@@ -294,6 +294,14 @@ def generate_period_data(mpd_data, now, cfg):
     return period_data
 
 
+def find_period_start(response, period_id):
+    "Find the position of the start tag of the period."
+    match_obj = search(r'<Period(?=\s)[^>]*\sid="%s"' % escape(period_id), response)
+    if match_obj is None:
+        raise Exception("No period %s in the manifest" % period_id)
+    return match_obj.start()
+
+
 def insert_asset_identifier(response, start_pos_period):
     ad_pos = response.find(">", start_pos_period) + 1
     response = response[:ad_pos] + "\n<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
-- 
2.43.0


From 40c4d7e27f535c2383f663dc65ab53ae835ab88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 019/102] fix: xlink periods together with several base URLs or
 base URL attributes

---
 dashlivesim/dashlib/mpd_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index fb483f4..bf18fa2 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -133,7 +133,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL>([^"]*)</BaseURL>', response)
+        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-- 
2.43.0


From ce421a961a2c26dba1ea910d607b8d0e716ead52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 020/102] fix: base URLs of baseurl_ options must put the
 option before the content and keep the URL valid

---
 dashlivesim/dashlib/mpdprocessor.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index f79ae03..82ee2d3 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -165,21 +165,10 @@ class MpdProcessor(object):
         elif ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
-                url_parts = url_body.split('/')
-                i = -1
-                for part in url_parts:
-                    i += 1
-                    if part.find("_") < 0:  # Not a configuration
-                        continue
-                    cfg_parts = part.split("_", 1)
-                    key, _ = cfg_parts
-                    if key == "baseurl":
-                        url_parts[i] = ""  # Remove all the baseurl elements
-                url_parts = [p for p in url_parts if p is not None]
-                for url in data['urls']:
-                    url_parts.insert(-1, "baseurl_" + url)
-                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-                    del url_parts[-2]
+                url_parts = [part for part in url_body.split('/') if not part.startswith("baseurl_")]
+                for url in data['urls']:  # One URL per baseurl option, which is put last before the content
+                    parts = url_parts[:-2] + ["baseurl_" + url] + url_parts[-2:]
+                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(parts), ato, atc)
                     pos += 1
             else:
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
-- 
2.43.0


From e225ca1c41447efed8c627acd2100ba1c204b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 021/102] fix: availabilityTimeOffset and baseurl_ options also
 for content whose MPD has a BaseURL

---
 dashlivesim/dashlib/mpdprocessor.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 82ee2d3..0099604 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -156,13 +156,9 @@ class MpdProcessor(object):
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+        if next_child.tag == add_ns('BaseURL'):  # Replace it by the live one
+            self.root.remove(next_child)
+        if 'BaseURL' in data and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = [part for part in url_body.split('/') if not part.startswith("baseurl_")]
@@ -213,10 +209,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0


From 070f0b3c4c2ca394f7a70a3c992019b6cd9a4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 022/102] fix: byte ranges with long suffixes, past the end,
 malformed or multiple

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..940627f 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -32,6 +32,7 @@
 # Note that VOD_CONF_DIR and CONTENT_ROOT directories must be set in environment
 # For Apache mod_wsgi, this is done using setEnv
 
+import re
 import traceback
 from os.path import splitext
 from urllib.parse import urlparse, parse_qs
@@ -242,17 +243,15 @@ def get_mime_type(ext):
 def handle_byte_range(payload, range_line):
     """Handle byte range and return data and range-header value.
     If range is strange, return empty string."""
-    range_parts = range_line.split("=")[-1]
-    ranges = range_parts.split(",")
-    if len(ranges) > 1:
-        return (payload, None)
+    match = re.match(r"^bytes=\s*([0-9]{0,18})-([0-9]{0,18})\s*$", range_line.strip(), re.IGNORECASE)
+    if not match:  # Malformed, multiple ranges or other unit
+        return (payload, "")
     length = len(payload)
-    range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
+    range_start, range_end = match.groups()
     bad_range = False
     if range_start == "" and range_end != "":
         # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
+        range_start = max(length - int(range_end), 0)
         range_end = length - 1
     elif range_start != "":
         range_start = int(range_start)
@@ -262,9 +261,7 @@ def handle_byte_range(payload, range_line):
             range_end = length-1
     else:
         bad_range = True
-    if range_end < range_start:
-        bad_range = True
-    if bad_range:
+    if bad_range or range_end < range_start or range_start >= length:
         return (payload, "")
     ranged_payload = payload[range_start: range_end+1]
     range_response = "bytes %d-%d/%d" % (range_start, range_end, len(payload))
-- 
2.43.0


From 372a5259a9bb41d57696eeae4e0a5bd16b54ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 023/102] fix: MIME type of thumbnail images

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 940627f..8b55506 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -236,6 +236,8 @@ def get_mime_type(ext):
         return "video/iso.segment"
     elif ext == ".mp4":
         return "video/mp4"
+    elif ext == ".jpg":
+        return "image/jpeg"
 
     return "text/plain"
 
-- 
2.43.0


From 821610d3b5f4f9e2493941a4a32188a8577504c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 024/102] fix: thumbnails follow the numbering, end and
 media-time offset of the session

---
 dashlivesim/dashlib/dash_proxy.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 5ed964d..d05f510 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -326,7 +326,7 @@ def process_thumbnail(dashProv, now_float):
         timescale = None
         curr_rep_id = cfg.rel_path
         for rep in cfg.reps:
-            if rep['id'] == curr_rep_id:
+            if rep['id'] == curr_rep_id.split("/")[-1]:
                 timescale = rep['timescale']
                 break
         return timescale
@@ -338,16 +338,19 @@ def process_thumbnail(dashProv, now_float):
     timescale = get_timescale(cfg)
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
-        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale)) + cfg.number_at_media_start
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
@@ -355,14 +358,16 @@ def process_thumbnail(dashProv, now_float):
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+        # If stop_number is not None, the manifest will become static
+        if ((now_float > seg_ast + seg_dur +
+                cfg.timeshift_buffer_depth_in_s) and not stop_number):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
+    media_time = seg_time - cfg.availability_start_time_in_s + cfg.adjusted_pto(0, 1)
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-    nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
+    nr_loops_done, time_in_loop = divmod(media_time, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
     vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
     assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
-- 
2.43.0


From 4aa62bd9bfe91876d2f2032bde4389e742bb9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 025/102] fix: answer 404 instead of raising for URLs that
 cannot be parsed

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 8b55506..ea9408b 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -91,7 +91,11 @@ def application(environment, start_response):
     "WSGI Entrypoint"
 
     hostname = environment['HTTP_HOST']
-    url = urlparse(environment['REQUEST_URI'])
+    try:
+        url = urlparse(environment['REQUEST_URI'])
+    except ValueError as exc:
+        yield from full_reply(404, start_response, ("Bad URL: %s" % exc).encode('utf-8'), {})
+        return
     vod_conf_dir = environment['VOD_CONF_DIR']
     content_root = environment['CONTENT_ROOT']
     is_https = environment.get('wsgi.url_scheme', False) and environment['wsgi.url_scheme'] == 'https'
-- 
2.43.0


From db5d6814608c9f892cc6b222ff35198a7ebe4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 026/102] fix: keep the sync-sample information of the samples
 in low-latency chunks

---
 dashlivesim/dashlib/chunker.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..e7a7440 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -55,15 +55,21 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
+    for nr, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+        if trun.has_sample_flags:
+            flags = int(entry['flags'], 16)
+        elif nr == 0 and trun.has_first_sample_flags:
+            flags = trun.first_sample_flags
+        else:
+            flags = default_sample_flags
+        sync = not flags & 0x00010000  # sample_is_non_sync_sample
         time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
         begin, end = end, end + size
         data = root.fmap[base_data_offset+data_offset:][begin:end]
         t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+        yield Sample(data, t0, duration, sync, time_offset)
 
 
 def partition(samples, duration):
-- 
2.43.0


From 26052d9d718e7b62ebc1df2e469a4494822c40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 027/102] fix: write negative composition offsets in a version
 1 trun box

---
 dashlivesim/dashlib/boxes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9b30936..913ac93 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -968,6 +968,8 @@ class TRUNBox(Box):
         flags = 0x000001 | 0x000100 | 0x000200 | 0x000400
         if self.use_comp_off:
             flags |= 0x000800
+            if any(sample.offset < 0 for sample in self.samples):
+                flags |= 0x01000000  # version 1, signed offsets
 
         yield serialize_u32(self.size())
         yield serialize_name(b'trun')
-- 
2.43.0


From 44b93f41be4a6e54473f5cd31c7df6bc4652416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 028/102] fix: low-latency chunks from all track runs and movie
 fragments of the segment

---
 dashlivesim/dashlib/chunker.py | 45 ++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index e7a7440..dafffec 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -38,38 +38,45 @@ from dashlivesim.dashlib.boxes import create_moof, create_mdat, Sample
 def decode_fragment(data, trex):
     "Extract samples from a segment."
     root = mp4(data)
-    moof = root.find(b'moof')
+    for moof in root.find_all(b'moof'):
+        yield from decode_moof(root, moof, trex)
+
+
+def decode_moof(root, moof, trex):
+    "Extract samples from a movie fragment."
     tfhd = moof.find(b'traf.tfhd')
     tfdt = moof.find(b'traf.tfdt')
-    trun = moof.find(b'traf.trun')
+    truns = moof.find_all(b'traf.trun')
 
     base_data_offset = tfhd.base_data_offset if tfhd.has_base_data_offset else moof.offset
-    data_offset = trun.data_offset if trun.has_data_offset else 0
     base_media_decode_time = tfdt.decode_time
 
     t0, t1 = base_media_decode_time, base_media_decode_time
-    begin, end = 0, 0
+    begin, end = 0, base_data_offset
     default_sample_duration = (tfhd.default_sample_duration if tfhd.has_default_sample_duration else
                                trex.default_sample_duration)
     default_sample_size = (tfhd.default_sample_size if tfhd.has_default_sample_size else
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for nr, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
-        duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
-        size = entry['size'] if trun.has_sample_size else default_sample_size
-        if trun.has_sample_flags:
-            flags = int(entry['flags'], 16)
-        elif nr == 0 and trun.has_first_sample_flags:
-            flags = trun.first_sample_flags
-        else:
-            flags = default_sample_flags
-        sync = not flags & 0x00010000  # sample_is_non_sync_sample
-        time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
-        begin, end = end, end + size
-        data = root.fmap[base_data_offset+data_offset:][begin:end]
-        t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, sync, time_offset)
+    for trun in truns:
+        if trun.has_data_offset:
+            end = base_data_offset + trun.data_offset
+        for nr, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
+            duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
+            size = entry['size'] if trun.has_sample_size else default_sample_size
+            if trun.has_sample_flags:
+                flags = int(entry['flags'], 16)
+            elif nr == 0 and trun.has_first_sample_flags:
+                flags = trun.first_sample_flags
+            else:
+                flags = default_sample_flags
+            sync = not flags & 0x00010000  # sample_is_non_sync_sample
+            time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
+            begin, end = end, end + size
+            data = root.fmap[begin:end]
+            t0, t1 = t1, t1 + duration
+            yield Sample(data, t0, duration, sync, time_offset)
 
 
 def partition(samples, duration):
-- 
2.43.0


From b21083874e57ba377b513a0d22925a408af30ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 029/102] fix: pace low-latency chunks relative to the start of
 the session

---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index d05f510..4bba599 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -263,11 +263,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return seg_start (when the segment start to be produced)
+            # and then each chunk should be delivered at seg_start + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
-- 
2.43.0


From a210cab8b90d4166c593df2ee4d092dfb337f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 030/102] fix: infinite availabilityTimeOffset in low-latency
 segment templates

---
 dashlivesim/dashlib/mpdprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0099604..343cc6f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -345,6 +345,8 @@ class MpdProcessor(object):
                 for seg_template in seg_templates:
                     set_attribs(seg_template, segmenttemplate_attribs, pdata)
                     if ll_data:
+                        if float(ll_data['availabilityTimeOffset']) == -1:
+                            ll_data['availabilityTimeOffset'] = 'INF'
                         set_attribs(seg_template,
                                     ('availabilityTimeOffset', 'availabilityTimeComplete'),
                                     ll_data)
-- 
2.43.0


From b5f9a34f42a88c5881de34201852c3e65b92d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 031/102] fix: producer reference time of sessions that do not
 start at the epoch

---
 dashlivesim/dashlib/mpdprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 343cc6f..ce92207 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -242,7 +242,8 @@ class MpdProcessor(object):
         prt_elem = ElementTree.Element(add_ns('ProducerReferenceTime'))
         prt_elem.set("id", "0")
         prt_elem.set("type", "encoder")
-        prt_elem.set("wallClockTime", "1970-01-01T00:00:00")
+        media_time_zero = self.cfg.availability_start_time_in_s - self.cfg.adjusted_pto(0, 1)
+        prt_elem.set("wallClockTime", make_timestamp(media_time_zero))
         prt_elem.set("presentationTime", "0")
         utc_elem = self.create_descriptor_elem('UTCTiming', 'urn:mpeg:dash:utc:http-iso:2014',
                                                UTC_TIMING_HTTP_SERVER)
-- 
2.43.0


From b5582d064ee6cffd0d66dfc7a2d94239fa51bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 032/102] fix: do not delay the last, shorter low-latency chunk
 beyond the end of the segment

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index ea9408b..77e7607 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -223,7 +223,8 @@ def application(environment, start_response):
             margin = 0.1  # Make available 100ms before the formal time
             for i, chunk in enumerate(payload_out.chunks, start=1):
                 now_float = time()  # Update time
-                chunk_availability_time = seg_start + i * chunk_dur - margin
+                # The last chunk can be shorter, but is available at the latest when the segment ends
+                chunk_availability_time = seg_start + min(i * chunk_dur, cfg.seg_duration) - margin
                 time_until_available = chunk_availability_time - now_float
                 # print("%d time_until_available %.3f" % (i, time_until_available))
                 if time_until_available > 0:
-- 
2.43.0


From 7a51e5a619b2a9a3c2ee2e9f7875a6f81d00edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 033/102] fix: data offsets when muxing fragments that have
 other boxes than mfhd and traf

---
 dashlivesim/dashlib/segmentmuxer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index c4bca6d..5490505 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -209,12 +209,12 @@ class MultiplexMediaSegments(object):
             offset = mstruct.trun_data_offset_in_traf
             return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
 
-        delta_offset1 = len(self.mstruct2.traf)
-        delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8
+        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
+        delta_offset1 = moof_size - len(self.mstruct1.moof)
+        delta_offset2 = moof_size - len(self.mstruct2.moof) + len(self.mstruct1.mdat) - 8
         traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1)
         traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2)
 
-        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
-- 
2.43.0


From c3c0314b35d12ee67e1371d0ab8bd320e76b212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 034/102] fix: multiplex segments without a styp box

---
 dashlivesim/dashlib/segmentmuxer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 5490505..b1cb0a7 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -190,7 +190,8 @@ class MultiplexMediaSegments(object):
     def mux_on_fragment_level(self):
         "Multiplex on frgment level."
         data = []
-        data.append(self.mstruct1.styp)
+        if self.mstruct1.styp is not None:
+            data.append(self.mstruct1.styp)
         data.append(self.mstruct1.moof)
         data.append(self.mstruct1.mdat)
         data.append(self.mstruct2.moof)
@@ -218,7 +219,8 @@ class MultiplexMediaSegments(object):
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
-        data.append(self.mstruct1.styp)
+        if self.mstruct1.styp is not None:
+            data.append(self.mstruct1.styp)
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
-- 
2.43.0


From cee5025ed7290b7f1f4d611fc1a896f32b69bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 035/102] fix: SCTE-35 cues follow the media time, not the
 segment number

---
 dashlivesim/dashlib/dash_proxy.py         | 3 ++-
 dashlivesim/dashlib/mediasegmentfilter.py | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4bba599..a8b3d7f 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -303,12 +303,13 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
     scte35_per_minute = (rep['content_type'] == 'video') and cfg.scte35_per_minute or 0
     is_ttml = rep['content_type'] == 'subtitles'
     default_sample_duration = trex_data.default_sample_duration if trex_data is not None else None
+    seg_start_time = offset_at_loop_start + (vod_nr - cfg.vod_first_segment_in_loop) * cfg.seg_duration
     seg_filter = MediaSegmentFilter(media_seg_file, seg_nr, cfg.seg_duration, offset_at_loop_start, lmsg, timescale,
                                     scte35_per_minute, rel_path,
                                     is_ttml,
                                     default_sample_duration,
                                     insert_sidx=cfg.insert_sidx, emsg_last_seg=cfg.emsg_last_seg,
-                                    now=dashProv.now)
+                                    now=dashProv.now, seg_start_time=seg_start_time)
     seg_content = seg_filter.filter()
     dashProv.new_tfdt_value = seg_filter.get_tfdt_value()  # Why set this in dashProv?? TODO
     return seg_content
diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..527b897 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -52,7 +52,8 @@ class MediaSegmentFilter(MP4Filter):
     # pylint: disable=too-many-instance-attributes, too-many-arguments
     def __init__(self, file_name, seg_nr=None, seg_duration=1, offset=0, lmsg=False, track_timescale=None,
                  scte35_per_minute=0, rel_path=None, is_ttml=False,
-                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False):
+                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False,
+                 seg_start_time=None):
         MP4Filter.__init__(self, file_name)
         self.top_level_boxes_to_parse = [b'styp', b'sidx', b'moof', b'mdat']
         self.composite_boxes_to_parse = [b'moof', b'traf']
@@ -73,6 +74,7 @@ class MediaSegmentFilter(MP4Filter):
         self.ttml_size = None
         self.emsg_last_seg = emsg_last_seg
         self.now = now
+        self.seg_start_time = seg_start_time  # Media time in seconds, independent of how segments are numbered
         if self.is_ttml:
             self.data = self.find_and_process_mdat(self.data)
 
@@ -351,7 +353,9 @@ class MediaSegmentFilter(MP4Filter):
         ad_duration = 10
         if self.scte35_per_minute < 1 or self.scte35_per_minute > 8:
             return b""
-        seg_starttime = self.seg_nr*self.seg_duration  # StartTime in seconds
+        seg_starttime = self.seg_start_time  # StartTime in seconds
+        if seg_starttime is None:
+            seg_starttime = self.seg_nr*self.seg_duration
         sec_modulo_minute = seg_starttime % 60
         minute_start = seg_starttime - sec_modulo_minute
         splice_insert_times = [minute_start + 10]
-- 
2.43.0


From 50c2d3356aab6f83bc441756a43c418c7052c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 036/102] fix: announce the first SCTE-35 splice of the next
 minute in segments that cross the minute

---
 dashlivesim/dashlib/mediasegmentfilter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 527b897..916f300 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -367,6 +367,7 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
+        splice_insert_times.append(minute_start+70)  # First one of next minute
         found_splice_time = -1
         splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
-- 
2.43.0


From 8e55ebe2db10e50456bc1a7194ce016567aa8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 037/102] fix: total duration of segments with more than one
 trun

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 916f300..c43fc0e 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -192,7 +192,7 @@ class MediaSegmentFilter(MP4Filter):
                 pos += 4
             if sample_comp_time_present:
                 pos += 4
-        self.duration = duration
+        self.duration = (self.duration or 0) + duration  # There may be more than one trun
 
         # Modify data_offset
         output = data[:16]
-- 
2.43.0


From c0e8af1186e4c7b33aa3e9c71819f32a207ffc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 038/102] fix: duration in inserted sidx when the sample
 duration is only given in the init segment

---
 dashlivesim/dashlib/dash_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index a8b3d7f..86fa048 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -269,8 +269,9 @@ def process_media_segment(dashProv, now_float, chunk):
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
             return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
+            trex_data = get_trex_data(dashProv, rel_path) if cfg.insert_sidx else None  # May be needed for duration
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg)
+                                               offset_at_loop_start, lmsg, trex_data)
     else:
         rel_path_parts = rel_path.split("/")
         common_path_parts = rel_path_parts[:-1]
-- 
2.43.0


From 030c2303886c34ac01d055c9de3d454c7bf5af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 039/102] fix: sidx, event and start time of segments with
 several movie fragments

The inserted sidx and emsg boxes must come before the first movie fragment,
and the start time of the segment is the one of its first fragment.
---
 dashlivesim/dashlib/mediasegmentfilter.py | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index c43fc0e..a98ed6a 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -79,31 +79,29 @@ class MediaSegmentFilter(MP4Filter):
             self.data = self.find_and_process_mdat(self.data)
 
     def finalize(self):
+        moof_start = self.first_moof_start()
         if self.insert_sidx:
             seg_size = 0
-            pos = 0
-            moof_start = 0
             for size, box in self.output_top_level_boxes:
-                if box == b'moof':
-                    moof_start = pos
+                if box in (b'moof', b'mdat'):
                     seg_size += size
-                elif box == b'mdat':
-                    seg_size += size
-                pos += size
             sidx = self.create_sidx(seg_size)
             self.output = (self.output[:moof_start] + sidx +
                            self.output[moof_start:])
         if self.emsg_last_seg:
-            pos = 0
-            moof_start = 0
-            for size, box in self.output_top_level_boxes:
-                if box == b'moof':
-                    moof_start = pos
-                pos += size
             emsg_box = self.create_emsg()
             self.output = (self.output[:moof_start] + emsg_box +
                            self.output[moof_start:])
 
+    def first_moof_start(self):
+        "Position in the output of the first moof box."
+        pos = 0
+        for size, box in self.output_top_level_boxes:
+            if box == b'moof':
+                return pos
+            pos += size
+        return 0
+
     # pylint: disable=no-self-use
 
     def process_styp(self, data):
@@ -298,7 +296,8 @@ class MediaSegmentFilter(MP4Filter):
             base_media_decode_time = str_to_uint64(data[12:20])
         new_base_media_decode_time = base_media_decode_time + tfdt_offset
         output += uint64_to_str(new_base_media_decode_time)
-        self.tfdt_value = new_base_media_decode_time
+        if self.tfdt_value is None:  # The segment starts with its first movie fragment
+            self.tfdt_value = new_base_media_decode_time
         return output
 
     def process_tfdt(self, data):
@@ -330,7 +329,8 @@ class MediaSegmentFilter(MP4Filter):
             base_media_decode_time = str_to_uint64(data[12:20])
             new_base_media_decode_time = base_media_decode_time + tfdt_offset
             output += uint64_to_str(new_base_media_decode_time)
-        self.tfdt_value = new_base_media_decode_time
+        if self.tfdt_value is None:  # The segment starts with its first movie fragment
+            self.tfdt_value = new_base_media_decode_time
         return output
 
     def get_tfdt_value(self):
-- 
2.43.0


From bbd24e99556d52df151637432e03dd16ba865a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:12 +0000
Subject: [PATCH 040/102] fix: track timescale of version 1 mdhd boxes

---
 dashlivesim/dashlib/initsegmentfilter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..f5b047c 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,10 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        if data[8] == 1:  # version 1 has 64-bit creation and modification times
+            self._track_timescale = str_to_uint32(data[28:32])
+        else:
+            self._track_timescale = str_to_uint32(data[20:24])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From 1d29141e811303dbd68cf12df6c0b4a7e728231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 041/102] fix: default value of startNumber in the VoD analyzer

---
 dashlivesim/vodanalyzer/mpdprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/vodanalyzer/mpdprocessor.py b/dashlivesim/vodanalyzer/mpdprocessor.py
index 30dc313..25bafa8 100644
--- a/dashlivesim/vodanalyzer/mpdprocessor.py
+++ b/dashlivesim/vodanalyzer/mpdprocessor.py
@@ -162,8 +162,8 @@ class AdaptationSet(MpdElement):
 
     @property
     def start_number(self):
-        "StartNumber for segments (from SegmentTemplate)."
-        return int(self.attribs['startNumber'])
+        "StartNumber for segments (from SegmentTemplate). The default value is 1."
+        return int(self.attribs['startNumber'] or 1)
 
     @property
     def timescale(self):
-- 
2.43.0


From 9e1424e129c186e52273d232535ed8aaace50765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 042/102] fix: configuration of subtitles in the VoD analyzer

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..c810fc5 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -251,7 +251,7 @@ class DashAnalyzer(object):
         cfg_data = {'version' : '1.1', 'first_segment_in_loop' : self.firstSegmentInLoop,
                     'nr_segments_in_loop' : self.nrSegmentsInLoop, 'segment_duration_s' : self.segDuration}
         media_data = {}
-        for content_type in ('video', 'audio'):
+        for content_type in ('video', 'audio', 'subtitles'):
             if content_type in self.as_data:
                 mdata = self.as_data[content_type]
                 media_data[content_type] = {'representations' : [rep['id'] for rep in mdata['reps']],
-- 
2.43.0


From 5858d53bb86b01849fb37cdc1f8ca0857926071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 043/102] fix: loop the segments which all representations have
 in the VoD analyzer

The written durations covered all segments of the first representation of
each media type, also when the loop is shorter since segments are missing
in other media or representations.
---
 dashlivesim/vodanalyzer/dashanalyzer.py | 141 ++++++++++++------------
 1 file changed, 68 insertions(+), 73 deletions(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index c810fc5..3c35d3d 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -151,11 +151,6 @@ class DashAnalyzer(object):
 
         print("Checking all the media segment durations for deviations.")
 
-        def writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount):
-            data = pack(configprocessor.SEGTIMEFORMAT, firstSegmentInRepeat, repeatCount,
-                        firstStartTimeInRepeat, duration)
-            ofh.write(data)
-
         for content_type in self.as_data.keys():
             as_data = self.as_data[content_type]
             as_data['datFile'] = "%s_%s.dat" % (self.base_name, content_type)
@@ -168,84 +163,84 @@ class DashAnalyzer(object):
 
             track_timescale = as_data['track_timescale']
 
-            with open(as_data['datFile'], "wb") as ofh:
-                for (rep_nr, rep_data) in enumerate(as_data['reps']):
-                    rep_id = rep_data['id']
-                    rep_data['endNr'] = None
-                    rep_data['startTick'] = None
-                    rep_data['endTick'] = None
-                    if self.firstSegmentInLoop >= 0:
-                        assert rep_data['firstNumber'] == self.firstSegmentInLoop
-                    else:
-                        self.firstSegmentInLoop = rep_data['firstNumber']
-                    if self.mpdSegStartNr >= 0:
-                        assert adaptation_set.start_number == self.mpdSegStartNr
-                    else:
-                        self.mpdSegStartNr = adaptation_set.start_number
-                    segTicks = self.segDuration*track_timescale
-                    maxDiffInTicks = int(track_timescale*0.1) # Max 100ms
-                    segNr = rep_data['firstNumber']
-                    repeatCount = -1
-                    firstSegmentInRepeat = -1
-                    firstStartTimeInRepeat = -1
-                    lastDuration = 0
-                    while (True):
-                        segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
-                            if self.verbose:
-                                print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
-                                      rep_id, rep_data['endNr'], rep_data['endTime'],
-                                      rep_data['endTime']-rep_data['startTime']))
-                            break
-                        msf = mediasegmentfilter.MediaSegmentFilter(
-                            segmentPath, default_sample_duration = rep_data[
-                                'default_sample_duration'])
-                        msf.filter()
-                        tfdt = msf.get_tfdt_value()
-                        duration = msf.get_duration()
-                        print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
-                        if duration == lastDuration:
-                            repeatCount += 1
-                        else:
-                            if lastDuration != 0 and rep_nr == 0:
-                                writeSegTiming(ofh, firstSegmentInRepeat,
-                                               firstStartTimeInRepeat,
-                                               lastDuration, repeatCount)
-                            repeatCount = 0
-                            lastDuration = duration
-                            firstSegmentInRepeat = segNr
-                            firstStartTimeInRepeat = tfdt
-                        if rep_data['startTick'] is None:
-                            rep_data['startTick'] = tfdt
-                            rep_data['startTime'] = rep_data['startTick']/float(track_timescale)
-                            print("First %s segment is %d starting at time %.3fs" % (rep_id, segNr,
-                                                                                     rep_data['startTime']))
-                        # Check that there is not too much drift. We want to end with at most maxDiffInTicks
-                        endTick = tfdt + duration
-                        idealTicks = (segNr - rep_data['firstNumber'] + 1)*segTicks + rep_data['startTick']
-                        absDiffInTicks = abs(idealTicks - endTick)
-                        if absDiffInTicks < maxDiffInTicks:
-                            # This is a good wrap point
-                            rep_data['endTick'] = tfdt + duration
-                            rep_data['endTime'] = rep_data['endTick']/float(track_timescale)
-                            rep_data['endNr'] = segNr
-                        else:
-                            raise DashAnalyzerError("Too much drift in the duration of the segments")
-                        segNr += 1
+            as_data['segments'] = []  # Number, start and duration of the segments of the first representation
+            for (rep_nr, rep_data) in enumerate(as_data['reps']):
+                rep_id = rep_data['id']
+                rep_data['endNr'] = None
+                rep_data['startTick'] = None
+                rep_data['endTick'] = None
+                if self.firstSegmentInLoop >= 0:
+                    assert rep_data['firstNumber'] == self.firstSegmentInLoop
+                else:
+                    self.firstSegmentInLoop = rep_data['firstNumber']
+                if self.mpdSegStartNr >= 0:
+                    assert adaptation_set.start_number == self.mpdSegStartNr
+                else:
+                    self.mpdSegStartNr = adaptation_set.start_number
+                segTicks = self.segDuration*track_timescale
+                maxDiffInTicks = int(track_timescale*0.1) # Max 100ms
+                segNr = rep_data['firstNumber']
+                while (True):
+                    segmentPath = rep_data['absMediaPath'] % segNr
+                    if not os.path.exists(segmentPath):
                         if self.verbose:
-                            sys.stdout.write(".")
+                            print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
+                                  rep_id, rep_data['endNr'], rep_data['endTime'],
+                                  rep_data['endTime']-rep_data['startTime']))
+                        break
+                    msf = mediasegmentfilter.MediaSegmentFilter(
+                        segmentPath, default_sample_duration = rep_data[
+                            'default_sample_duration'])
+                    msf.filter()
+                    tfdt = msf.get_tfdt_value()
+                    duration = msf.get_duration()
+                    print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
                     if rep_nr == 0:
-                        writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount)
-                        lastGoodSegments.append(rep_data['endNr'])
-                        as_data['totalTicks'] = rep_data['endTick'] - rep_data['startTick']
+                        as_data['segments'].append((segNr, tfdt, duration))
+                    if rep_data['startTick'] is None:
+                        rep_data['startTick'] = tfdt
+                        rep_data['startTime'] = rep_data['startTick']/float(track_timescale)
+                        print("First %s segment is %d starting at time %.3fs" % (rep_id, segNr,
+                                                                                 rep_data['startTime']))
+                    # Check that there is not too much drift. We want to end with at most maxDiffInTicks
+                    endTick = tfdt + duration
+                    idealTicks = (segNr - rep_data['firstNumber'] + 1)*segTicks + rep_data['startTick']
+                    absDiffInTicks = abs(idealTicks - endTick)
+                    if absDiffInTicks < maxDiffInTicks:
+                        # This is a good wrap point
+                        rep_data['endTick'] = tfdt + duration
+                        rep_data['endTime'] = rep_data['endTick']/float(track_timescale)
+                        rep_data['endNr'] = segNr
+                    else:
+                        raise DashAnalyzerError("Too much drift in the duration of the segments")
+                    segNr += 1
+                    if self.verbose:
+                        sys.stdout.write(".")
+                lastGoodSegments.append(rep_data['endNr'])
         self.lastSegmentInLoop = min(lastGoodSegments)
         self.nrSegmentsInLoop = self.lastSegmentInLoop-self.firstSegmentInLoop+1
+        self.writeSegTimings()
         self.loopTime = self.nrSegmentsInLoop*self.segDuration
         if self.verbose:
             print("")
         print("Will loop segments %d-%d with loop time %ds" % (self.firstSegmentInLoop, self.lastSegmentInLoop,
                                                                self.loopTime))
 
+    def writeSegTimings(self):
+        "Write the timing of the segments in the loop, which are the ones that all representations have."
+        for as_data in self.as_data.values():
+            segments = as_data['segments'][:self.nrSegmentsInLoop]
+            with open(as_data['datFile'], "wb") as ofh:
+                pos = 0
+                while pos < len(segments):
+                    nr, start, duration = segments[pos]
+                    end = pos + 1
+                    while end < len(segments) and segments[end][2] == duration:
+                        end += 1
+                    ofh.write(pack(configprocessor.SEGTIMEFORMAT, nr, end - pos - 1, start, duration))
+                    pos = end
+            as_data['totalTicks'] = segments[-1][1] + segments[-1][2] - segments[0][1]
+
     def write_config(self, config_file):
         """Write a config file for the analyzed content, that can then be used to serve it efficiently."""
         cfg_data = {'version' : '1.1', 'first_segment_in_loop' : self.firstSegmentInLoop,
-- 
2.43.0


From 7ebe8b0a7c18431a946b46400628428477e8a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 044/102] fix: only files with the full segment name are
 segments in the VoD analyzer

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 3c35d3d..97a88a8 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -128,7 +128,7 @@ class DashAnalyzer(object):
         "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
         rep_id = rep_data['id']
         mediaDir, mediaName = os.path.split(rep_data['absMediaPath'])
-        mediaRegexp = mediaName.replace("%d", "(\d+)").replace(".", "\.")
+        mediaRegexp = re.escape(mediaName).replace("%d", r"(\d+)") + "$"
         mediaReg = re.compile(mediaRegexp)
         files = os.listdir(mediaDir)
         numbers = []
-- 
2.43.0


From d50b96cbf73da3626969be6710280a7e2ac539ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 045/102] fix: keep first_sample_flags of track runs when
 inserting captions

---
 dashlivesim/cc_inserter/cc_inserter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index a64f107..2c45306 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -122,6 +122,7 @@ class CCInsertFilter(MP4Filter):
             output += uint32_to_str(self.trun_offset)
             pos += 4
         if flags & 0x4:
+            output += data[pos:pos+4]
             pos += 4  # First sample flags present
 
         sample_duration_present = flags & 0x100
-- 
2.43.0


From 8bb70af9bec54e92b1b57bb2cddf26677cd468fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 046/102] fix: insert captions in samples with default
 durations

---
 dashlivesim/cc_inserter/cc_inserter.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 2c45306..d2dd4d7 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -95,7 +95,8 @@ def generate_data(scc_data, field=1):
 
 class CCInsertFilter(MP4Filter):
     """CC Insert filter"""
-    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field):
+    # pylint: disable=too-many-arguments
+    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field, default_sample_duration=None):
         MP4Filter.__init__(self, segmentFile)
         self.top_level_boxes_to_parse = [b"styp", b"sidx", b"moof", b"mdat"]
         self.composite_boxes_to_parse = [b"moof", b"traf"]
@@ -103,9 +104,18 @@ class CCInsertFilter(MP4Filter):
         self.time_scale = time_scale
         self.tfdt = tfdt
         self.field = field
+        self.default_sample_duration = default_sample_duration or 0
         self.trun_offset = 0
         self.scc_map = []
 
+    def process_tfhd(self, data):
+        """Get the default sample duration, if present."""
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        if flags & 0x08:
+            pos = 16 + 8*(flags & 0x1) + 2*(flags & 0x2)
+            self.default_sample_duration = str_to_uint32(data[pos:pos+4])
+        return data
+
     def process_trun(self, data):
         """Process trun box."""
         # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -134,7 +144,7 @@ class CCInsertFilter(MP4Filter):
         orig_sample_pos = 0
 
         for i in range(sample_count):
-            duration = 0
+            duration = self.default_sample_duration
             size = 0
             flags = 0
             comp_time = 0
@@ -372,6 +382,7 @@ class CCInserter(object):
                 init_filter = initsegmentfilter.InitFilter(rep_data['absInitPath'])
                 init_filter.filter()
                 rep_data['trackID'] = init_filter.track_id
+                rep_data['default_sample_duration'] = init_filter.default_sample_duration
                 print("%s trackID = %d" % (content_type, rep_data['trackID']))
                 rep_data['relMediaPath'] = rep.get_media_path()
                 rep_data['absMediaPath'] = os.path.join(self.base_path, rep.get_media_path())
@@ -446,7 +457,8 @@ class CCInserter(object):
                                       rep_data['endTime']-rep_data['startTime']))
                             break
                         # print "Parsing segment: " + segment_path
-                        msf = mediasegmentfilter.MediaSegmentFilter(segment_path)
+                        msf = mediasegmentfilter.MediaSegmentFilter(
+                            segment_path, default_sample_duration=rep_data['default_sample_duration'])
                         msf.filter()
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
@@ -457,7 +469,7 @@ class CCInserter(object):
                         if len(scc_data_for_segment):
                             # Insert cc data into segment
                             cc_filter = CCInsertFilter(segment_path, scc_data_for_segment, track_timescale,
-                                                       tfdt, self.field)
+                                                       tfdt, self.field, rep_data['default_sample_duration'])
                             output = cc_filter.filter()
 
                             print(os.path.join(self.out_path, "%d.m4s" % seg_nr))
-- 
2.43.0


From 08b025df95e101c7897ca49b9a64deeba39b3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 047/102] fix: insert captions in fragments with more than one
 track run and segments with more than one fragment

---
 dashlivesim/cc_inserter/cc_inserter.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index d2dd4d7..ac46f90 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -105,7 +105,8 @@ class CCInsertFilter(MP4Filter):
         self.tfdt = tfdt
         self.field = field
         self.default_sample_duration = default_sample_duration or 0
-        self.trun_offset = 0
+        self.trun_offset = None  # Offset of the first trun in the moof
+        self.next_sample_pos = 0  # Relative to the samples of the first trun in the moof
         self.scc_map = []
 
     def process_tfhd(self, data):
@@ -128,9 +129,15 @@ class CCInsertFilter(MP4Filter):
 
         if flags & 0x1:  # Data offset present
             # data_offset_present = True
-            self.trun_offset = str_to_uint32(data[16:20])
-            output += uint32_to_str(self.trun_offset)
+            trun_offset = str_to_uint32(data[16:20])
+            if self.trun_offset is None:  # First trun in moof
+                self.trun_offset = trun_offset
+            orig_sample_pos = trun_offset - self.trun_offset
+            inserted_size = sum(len(scc_data['scc_nalu']) for scc_data in self.scc_map)
+            output += uint32_to_str(trun_offset + inserted_size)
             pos += 4
+        else:
+            orig_sample_pos = self.next_sample_pos
         if flags & 0x4:
             output += data[pos:pos+4]
             pos += 4  # First sample flags present
@@ -141,8 +148,6 @@ class CCInsertFilter(MP4Filter):
         sample_comp_time_present = flags & 0x800
         sample_time_tfdt = self.tfdt
 
-        orig_sample_pos = 0
-
         for i in range(sample_count):
             duration = self.default_sample_duration
             size = 0
@@ -195,6 +200,8 @@ class CCInsertFilter(MP4Filter):
                 output += uint32_to_str(comp_time)
             sample_time_tfdt += duration
             orig_sample_pos += size
+        self.tfdt = sample_time_tfdt  # Start of the samples that follow
+        self.next_sample_pos = orig_sample_pos
         return output
 
     def process_mdat(self, data):
@@ -234,6 +241,8 @@ class CCInsertFilter(MP4Filter):
             offset = end
         if offset < mdat_end:
             output += data[offset:]
+        self.trun_offset = None
+        self.scc_map = []
         return output
 
     def get_scc_data(self, start_time, end_time):
-- 
2.43.0


From ad7ca12a0412c6bdddab6bbfbf69d6888d1a56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 048/102] fix: default sample duration of track fragments
 without their own when inserting captions

---
 dashlivesim/cc_inserter/cc_inserter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index ac46f90..45b57d1 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -104,7 +104,8 @@ class CCInsertFilter(MP4Filter):
         self.time_scale = time_scale
         self.tfdt = tfdt
         self.field = field
-        self.default_sample_duration = default_sample_duration or 0
+        self.trex_default_sample_duration = default_sample_duration or 0
+        self.default_sample_duration = self.trex_default_sample_duration
         self.trun_offset = None  # Offset of the first trun in the moof
         self.next_sample_pos = 0  # Relative to the samples of the first trun in the moof
         self.scc_map = []
@@ -115,6 +116,8 @@ class CCInsertFilter(MP4Filter):
         if flags & 0x08:
             pos = 16 + 8*(flags & 0x1) + 2*(flags & 0x2)
             self.default_sample_duration = str_to_uint32(data[pos:pos+4])
+        else:
+            self.default_sample_duration = self.trex_default_sample_duration
         return data
 
     def process_trun(self, data):
-- 
2.43.0


From 04608affb97f3e050c185b5bae8cf118e8b15002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 049/102] fix: process no more than the maximum number of
 segments when inserting captions

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 45b57d1..0472747 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -507,7 +507,7 @@ class CCInserter(object):
                         seg_nr += 1
                         if self.verbose:
                             sys.stdout.write(".")
-                        if seg_nr - rep_data['firstNumber'] > self.max_nr_segments > 0:
+                        if seg_nr - rep_data['firstNumber'] >= self.max_nr_segments > 0:
                             print("Reached max nr segments")
                             break
 
-- 
2.43.0


From 118f2746779f2a8721f7d3d8ca98ddf73b4ed548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 050/102] fix: default value of startNumber in the caption
 inserter

---
 dashlivesim/cc_inserter/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/mpdprocessor.py b/dashlivesim/cc_inserter/mpdprocessor.py
index 8957e8c..d5b46c0 100644
--- a/dashlivesim/cc_inserter/mpdprocessor.py
+++ b/dashlivesim/cc_inserter/mpdprocessor.py
@@ -163,7 +163,7 @@ class AdaptationSet(MpdElement):
     @property
     def start_number(self):
         "StartNumber for segments (from SegmentTemplate)."
-        return int(self.attribs['startNumber'])
+        return int(self.attribs['startNumber'] or 1)
 
     @property
     def timescale(self):
-- 
2.43.0


From 32569a46312afdea911df758434b3bd2187529e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 051/102] fix: SCC files with tabs between time and data

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 0472747..72f45f5 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -528,7 +528,7 @@ class SCCParser(object):
             for line in lines:
                 line = line.rstrip()
                 if len(line) > 0 and line.find(':') > 0:
-                    parts = line.split(' ')
+                    parts = line.split()
                     start_time = convert_time(parts[0])
                     chunked_data = list(chunks(parts[1:], 31))
                     for cun in chunked_data:
-- 
2.43.0


From a4c9c331ac23699bf74078faabdbffabbe43f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 052/102] fix: missing import for writing hvcC boxes

---
 dashlivesim/dashlib/boxes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 913ac93..b53c333 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -9,6 +9,8 @@ from itertools import chain
 import logging
 import struct
 
+from dashlivesim.dashlib import bitwriter
+
 MOVIE_TIMESCALE = 90000
 
 
-- 
2.43.0


From 79b43767323f4b44c06cbca14d4dc308ed3cafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 053/102] fix: reading of dac3 and dec3 boxes

---
 dashlivesim/dashlib/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 8670996..ffaec54 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -45,7 +45,7 @@ import itertools
 from struct import Struct
 import struct
 
-from dashlivesim.dashlib import bitreader
+from dashlivesim.dashlib.bitreader import bitreader
 
 REGISTERED_BOXES = {}
 CONTAINER_BOXES = set([b'root',
-- 
2.43.0


From f9f0904320d28ec7a9ec7cdce1c3001819514555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 054/102] fix: message of emsg boxes

---
 dashlivesim/dashlib/mp4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index ffaec54..34321a2 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -2253,7 +2253,7 @@ class emsg_box(full_box):
 
     @property
     def message(self):
-        return self.message_data.hex()
+        return bytes(self.message_data).hex()
 
 
 REGISTERED_BOXES = {key: box for key, box in globals().items()
-- 
2.43.0


From 6844c39a4ae5ad8ca062b71f33b3dde1dda0fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 055/102] fix: size of emsg boxes with other than ASCII
 characters

---
 dashlivesim/dashlib/emsg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/emsg.py b/dashlivesim/dashlib/emsg.py
index e653826..7318eac 100644
--- a/dashlivesim/dashlib/emsg.py
+++ b/dashlivesim/dashlib/emsg.py
@@ -65,18 +65,21 @@ class Emsg(object):
 
     def get_box(self):
         "Return emsg box as string."
-        size = 12 + 4*4 + len(self.scheme_id_uri) + 1 + len(self.value) + 1 + len(self.messagedata)
+        scheme_id_uri = self.scheme_id_uri.encode("utf-8") + b"\x00"
+        value = self.value.encode("utf-8") + b"\x00"
+        messagedata = self.messagedata.encode("utf-8")
+        size = 12 + 4*4 + len(scheme_id_uri) + len(value) + len(messagedata)
         parts = []
         parts.append(uint32_to_str(size))
         parts.append(b"emsg")
         parts.append(b"\x00\x00\x00\x00")
-        parts.append(self.scheme_id_uri.encode("utf-8") + b"\x00")
-        parts.append(self.value.encode('utf-8') + b"\x00")
+        parts.append(scheme_id_uri)
+        parts.append(value)
         parts.append(uint32_to_str(self.timescale))
         parts.append(uint32_to_str(self.presentation_time_delta))
         parts.append(uint32_to_str(self.event_duration))
         parts.append(uint32_to_str(self.emsg_id))
-        parts.append(self.messagedata.encode("utf-8"))
+        parts.append(messagedata)
         return b"".join(parts)
 
     def get_messagedata(self):
-- 
2.43.0


From 012dc42c7541da50a266f48f1c6df2d4e959f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 056/102] fix: stpp segment generator on Python 3

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 dashlivesim/dashlib/stpp_generator/stpp_creator.py       | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index 1a148b8..f1c9120 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -33,7 +33,7 @@ import os
 from argparse import ArgumentParser
 from jinja2 import Template
 
-from stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
+from dashlivesim.dashlib.stpp_generator.stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
 
 BODY_TEMPLATE = '''
     <div region="r0">
diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 26858c9..203d1e8 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -35,7 +35,7 @@ from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str
 
 
-TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
+TTML_MEDIA_TMPL = b'\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
 \x00\x00\x00\x00\x00\x01\x00\x00\x00Htraf\x00\x00\x00\x18tfhd\x00\x02\x00\x18\x00\x00\x00\x03\x00\x00\x03\xe8\x00\
 \x00\x00\t\x00\x00\x00\x14tfdt\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x14trun\x00\x00\x00\
 \x01\x00\x00\x00\x01\x00\x00\x00h\x00\x00\x00\x08mdat'
@@ -43,7 +43,7 @@ TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`
 TIMESCALE = 1000  # This is the units for tfdt time and durations.
 TRACK_ID = 3
 # The init has sample_time_scale and trackID according to the values above
-TTML_INIT = '\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
+TTML_INIT = b'\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc8\x00\x00\x00\x00\x00\x01\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00@\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\
@@ -146,7 +146,7 @@ class StppMediaFilter(MP4Filter):
 
     def process_tfdt(self, data):
         "Process a tfdt box and set the baseMediaDecodeTime."
-        version = ord(data[8])
+        version = data[8]
         assert version == 1, "Can only handle tfdt version 1 (64-bit tfdt)."
         output = data[:12]
         output += uint64_to_str(self.tfdt_time)
@@ -228,7 +228,8 @@ class StppInitFilter(MP4Filter):
         hdlr_name = data[32:-1]  # Actually UTF-8 encoded
         print("Found hdlr %s: %s" % (hdlr, hdlr_name))
         if self.handler_name:
-            output = uint32_to_str(len(self.handler_name) + 33) + data[4:32] + self.handler_name + '\x00'
+            handler_name = self.handler_name.encode('utf-8')
+            output = uint32_to_str(len(handler_name) + 33) + data[4:32] + handler_name + b'\x00'
             print("Wrote hdlr %s" % self.handler_name)
         else:
             output = data
-- 
2.43.0


From 1a1f52a1245b649d611cd9ca588c0cd7d3c5c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 057/102] fix: timescale of generated stpp init segments

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index f1c9120..7e2385b 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -80,7 +80,7 @@ class SegmentCreator(object):
         # Create init segment
         init_segment_path = os.path.join(self.output_path, "init.mp4")
         with open(init_segment_path, 'wb') as iof:
-            initfilter = StppInitFilter(self.language, self.trackid, self.resolution)
+            initfilter = StppInitFilter(self.language, self.trackid)  # All times are in milliseconds
             initseg = initfilter.filter()
             iof.write(initseg)
 
-- 
2.43.0


From b1d2760159bc0d068bfc500e0d812efae52f2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 058/102] fix: generated stpp subtitles end no later than their
 segment

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index 7e2385b..d0f973d 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -99,7 +99,7 @@ class SegmentCreator(object):
             pars = []
             for rel_time in range(0, self.segment_duration, self.resolution):
                 start_time = self.create_time_string(time + rel_time)
-                end_time = self.create_time_string(time + rel_time + self.resolution)
+                end_time = self.create_time_string(time + min(rel_time + self.resolution, self.segment_duration))
 
                 id_str = "sub%05d" % (time+rel_time)
 
-- 
2.43.0


From c11131611f6ca003b53f940c51c2fd22fb309210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 059/102] fix: track ID of the trex box in generated stpp init
 segments

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 203d1e8..f4d76fb 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -171,7 +171,7 @@ class StppInitFilter(MP4Filter):
         self.creation_modfication_time = creation_modfication_time  # Measured from 1904-01-01 in seconds
         self.handler_name = hdlr_name
         self.top_level_boxes_to_parse = [b'moov']
-        self.composite_boxes_to_parse = [b'moov', b'trak', b'mdia', b'minf', b'dinf']
+        self.composite_boxes_to_parse = [b'moov', b'mvex', b'trak', b'mdia', b'minf', b'dinf']
 
     def process_mvhd(self, data):
         "Set nextTrackId and time and movie timescale."
@@ -181,6 +181,10 @@ class StppInitFilter(MP4Filter):
         output += uint32_to_str(self.track_id + 1)  # next_track_ID
         return output
 
+    def process_trex(self, data):
+        "Set trackID."
+        return data[:12] + uint32_to_str(self.track_id) + data[16:]
+
     def process_tkhd(self, data):
         "Set trackID and time."
         version = data[8]
-- 
2.43.0


From 546b3f3795ba06db3e384c80dec8ace46f01eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 060/102] fix: default sample duration of movie fragments
 without their own after one with its own

---
 dashlivesim/dashlib/mediasegmentfilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index a98ed6a..15f6779 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -66,6 +66,7 @@ class MediaSegmentFilter(MP4Filter):
         self.size_change = 0
         self.new_saio_value = None
         self.tfdt_value = None  # For testing
+        self.trex_default_sample_duration = default_sample_duration
         self.default_sample_duration = default_sample_duration
         self.insert_sidx = insert_sidx
         self.duration = None
@@ -140,6 +141,8 @@ class MediaSegmentFilter(MP4Filter):
             pos += 4
         elif self.ttml_size:
             raise MediaSegmentFilterError("Cannot handle ttml segments with default_sample_duration absent")
+        else:  # Do not use the value of a previous movie fragment
+            self.default_sample_duration = self.trex_default_sample_duration
         output = data[:pos]
         if self.ttml_size:
             if tf_flags & 0x10:
-- 
2.43.0


From cd9c636416c85cc38f4986fd2a66f002db0e47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 061/102] fix: duration of the period before an ad with xlink_x
 for x above 60

---
 dashlivesim/dashlib/mpd_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index bf18fa2..cd5b87c 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -210,7 +210,7 @@ def generate_period_data(mpd_data, now, cfg):
     period_data = []
     ad_frequency = -1
     if mpd_data['insertAd'] > 0:
-        ad_frequency = nr_periods_per_hour // mpd_data['xlinkPeriodsPerHour']
+        ad_frequency = nr_periods_per_hour // min(mpd_data['xlinkPeriodsPerHour'], 60)
 
     if nr_periods_per_hour == -1:  # Just one period starting at at time start relative AST
         start = 0
-- 
2.43.0


From 9c55c5ae3490c901cbb54c4beaa6bcdf7264ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 062/102] fix: MPD of a session with a known duration and no
 stop time states its time-shift buffer depth

---
 dashlivesim/dashlib/mpd_proxy.py    | 3 ++-
 dashlivesim/dashlib/mpdprocessor.py | 1 -
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index cd5b87c..abcab43 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -69,7 +69,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         mpd_data['minimumUpdatePeriod'] = DEFAULT_MINIMUM_UPDATE_PERIOD
     if cfg.media_presentation_duration is not None:
         mpd_data['mediaPresentationDuration'] = seconds_to_iso_duration(cfg.media_presentation_duration)
-    mpd_data['timeShiftBufferDepth'] = seconds_to_iso_duration(cfg.timeshift_buffer_depth_in_s)
+    if cfg.stop_time is None:  # Otherwise, all segments of the session stay available
+        mpd_data['timeShiftBufferDepth'] = seconds_to_iso_duration(cfg.timeshift_buffer_depth_in_s)
     mpd_data['timeShiftBufferDepthInS'] = cfg.timeshift_buffer_depth_in_s
     mpd_data['startNumber'] = cfg.adjusted_start_number
     mpd_data['publishTime'] = '%s' % make_timestamp(in_data['publishTime'])
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index ce92207..9599426 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -121,7 +121,6 @@ class MpdProcessor(object):
                     'mediaPresentationDuration', 'suggestedPresentationDelay']
         if mpd_data.get('type', 'dynamic') == 'static':
             key_list.remove('minimumUpdatePeriod')
-        if (mpd_data.get('type', 'dynamic') == 'static' or mpd_data.get('mediaPresentationDuration')):
             key_list.remove('timeShiftBufferDepth')
         set_values_from_dict(mpd, key_list, mpd_data)
         if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data:
-- 
2.43.0


From 851d896869310a0126437f19fe930dbc6ea9b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 063/102] fix: requests whose path leads out of the content
 directory

---
 dashlivesim/dashlib/configprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index e85e9b7..7aedc4e 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -124,6 +124,8 @@ class Config(object):
         self.content_name = url_parts[url_pos]
         self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
         rel_path_parts = url_parts[url_pos+1:-1]
+        if '..' in rel_path_parts or rel_path_parts[:1] == ['']:
+            raise ConfigProcessorError("Path outside of content %s" % self.content_name)
         self.rel_path = "/".join(rel_path_parts)
         self.filename = url_parts[-1]
         self.ext = splitext(self.filename)[1]
-- 
2.43.0


From c70ee3a8fdf88e43e6951ec90da8d1d88882944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 064/102] fix: sessions that stop when they start have no
 segments

---
 dashlivesim/dashlib/dash_proxy.py   | 8 ++++----
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 86fa048..cf438fe 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -228,7 +228,7 @@ def process_media_segment(dashProv, now_float, chunk):
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
-    if stop_number and seg_nr >= stop_number:
+    if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
@@ -246,7 +246,7 @@ def process_media_segment(dashProv, now_float, chunk):
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         # If stop_number is not None, the manifest will become static
         if ((now_float > seg_ast + seg_dur +
-                cfg.timeshift_buffer_depth_in_s) and not stop_number):
+                cfg.timeshift_buffer_depth_in_s) and stop_number is None):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
@@ -347,7 +347,7 @@ def process_thumbnail(dashProv, now_float):
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
-    if stop_number and seg_nr >= stop_number:
+    if stop_number is not None and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
@@ -363,7 +363,7 @@ def process_thumbnail(dashProv, now_float):
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         # If stop_number is not None, the manifest will become static
         if ((now_float > seg_ast + seg_dur +
-                cfg.timeshift_buffer_depth_in_s) and not stop_number):
+                cfg.timeshift_buffer_depth_in_s) and stop_number is None):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 9599426..c3ecc18 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -367,7 +367,7 @@ class MpdProcessor(object):
                         session_end = self.cfg.session_end_time
                         if session_end is not None:
                             end_time = min(end_time, session_end)
-                        if self.cfg.stop_time:  # List the whole session
+                        if self.cfg.stop_time is not None:  # List the whole session
                             start_time = ast + pdata['start_s']
                         # Go from wall-clock time to media time
                         media_time_at_ast = self.cfg.adjusted_pto(0, 1)
-- 
2.43.0


From 5ee9d87cb9f4d0d89785bbf0447dacf0d256dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 065/102] fix: multi-period manifests of sessions that do not
 start at the epoch

---
 dashlivesim/dashlib/mpd_proxy.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index abcab43..9dbd814 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -226,7 +226,8 @@ def generate_period_data(mpd_data, now, cfg):
         start = 3600 * 1000
         start_number = mpd_data['startNumber'] + start // seg_dur
         data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % start_number,
-                'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
+                'duration': seg_dur, 'presentationTimeOffset': "%d" % (mpd_data['presentationTimeOffset'] + start),
+                'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
         period_duration = 3600 // nr_periods_per_hour
@@ -237,15 +238,22 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
-        last_period_nr = (now + half_period_duration) // period_duration
+        # Periods start relative to the availability start and inside the presentation
+        session_time = now - cfg.availability_start_time_in_s
+        session_dur = cfg.media_presentation_duration
+        if session_dur is not None:
+            session_time = min(session_time, int(session_dur))
+        last_period_nr = max((session_time + half_period_duration) // period_duration, 0)
+        if session_dur is not None:
+            last_period_nr = min(last_period_nr, max(int(session_dur) - 1, 0) // period_duration)
         # this_period_start = this_period_nr * period_duration
-        first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration
+        first_period_nr = max((session_time - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration, 0)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
                     'startNumber': "%d" % (mpd_data['startNumber'] + start_time//seg_dur), 'duration': seg_dur,
-                    'presentationTimeOffset': period_nr*period_duration,
+                    'presentationTimeOffset': mpd_data['presentationTimeOffset'] + start_time,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
                 # Check whether the early terminated feature is enabled or not.
-- 
2.43.0


From b262529ae9d84bb357ff293fdb97d234b2554d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 066/102] fix: callback events in manifests of sessions with
 relative times

Their MPD has a Location but no BaseURL, and the request failed.
---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index c3ecc18..b6ff220 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -299,7 +299,7 @@ class MpdProcessor(object):
                     segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
                                                                                     self.cfg)
         periods = mpd.findall(add_ns('Period'))
-        BaseURL = mpd.findall(add_ns('BaseURL'))
+        BaseURL = mpd.findall(add_ns('BaseURL')) or mpd.findall(add_ns('Location'))
         if len(BaseURL) > 0:
             BaseURLParts = BaseURL[0].text.split('/')
             if len(BaseURLParts) > 3:
-- 
2.43.0


From 860dfb21d6e0df2323426e11357e3e142c1f3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 067/102] fix: remote periods in manifests of sessions with
 relative times

Their MPD has a Location but no BaseURL, and the request failed.
---
 dashlivesim/dashlib/mpd_proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 9dbd814..4f855e2 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -135,6 +135,8 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
         base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
+        if not base_url:  # There is a Location instead, with the name of the MPD last
+            base_url = findall('<Location>([^<]*/)[^</]*</Location>', response)
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-- 
2.43.0


From 7bd7c5eb95b172ab1b79a742705aa6697a591012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 068/102] fix: manifest with loss signalling that goes down
 before the session starts

The timeline froze at a time before the start of the session, and the
request failed.
---
 dashlivesim/dashlib/mpd_proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4f855e2..158f9ca 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -45,6 +45,8 @@ def get_mpd(dashProv):
                     # Generate and provide mpd with the latest up time, so that last generated segment is shown
                     # and no new S element added to SegmentTimeline.
                     latestUptime = dashProv.now - now_mod_60 + (i * total_dur + dur1)
+                    # There is no timeline before the start of the session
+                    latestUptime = min(max(latestUptime, cfg.availability_start_time_in_s), dashProv.now)
                     response = generate_dynamic_mpd(dashProv, mpd_filename, mpd_input_data, latestUptime)
                     break
                 elif now_mod_60 == i * total_dur + dur1:
-- 
2.43.0


From b85d0062e57129a88d07d92886af26a5fca1ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 069/102] fix: event messages and segment type in chunked
 segments

---
 dashlivesim/dashlib/chunker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index dafffec..23daaa5 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -114,6 +114,10 @@ def chunk(data, duration, trex_box):
     chunks = []
     for moof, mdat in fragments:
         chunks.append(moof.serialize() + mdat.serialize())
+    if chunks:  # The segment type and the event messages of the segment come before its first fragment
+        first_moof = root.find(b'moof')
+        chunks[0] = b''.join(box.raw_data for box in root.children
+                             if box.offset < first_moof.offset and box.type in (b'styp', b'emsg')) + chunks[0]
     return chunks
 
 
-- 
2.43.0


From a5a2c1aa8877e9d71f2c80269bfb3aeb6864095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 070/102] fix: chunker command line tool

---
 dashlivesim/dashlib/chunker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 23daaa5..63a774d 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -154,6 +154,6 @@ if __name__ == '__main__':
     media = open(args.media, 'rb').read()
 
     with open(args.outfile, 'wb') as ofh:
-        for chunk_data in chunk(media, duration, init_data=init):
+        for chunk_data in chunk(media, duration, mp4(init).find(b'moov.mvex.trex')):
             ofh.write(chunk_data)
             ofh.flush()
-- 
2.43.0


From 1385818d238adb56f34b3055c646cacff62046e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 071/102] fix: availability time offsets that are not numbers
 or are infinite

---
 dashlivesim/dashlib/configprocessor.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 7aedc4e..5842519 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -486,14 +486,16 @@ class ConfigProcessor(object):
             elif key == "snr":  # Segment startNumber
                 cfg.start_nr = self.interpret_start_nr(value)
             elif key == "ato":  # availabilityTimeOffset
-                if value == "inf":
-                    cfg.availability_time_offset_in_s = -1  # Signal that the value is infinite
-                else:
-                    try:
-                        float(value)  # ignore the setting when the value is negative
-                        cfg.availability_time_offset_in_s = max(float(value), 0)
-                    except ValueError:  # wrong setting
+                try:
+                    ato = float(value)
+                    if ato == float("inf"):
+                        cfg.availability_time_offset_in_s = -1  # Signal that the value is infinite
+                    elif ato > 0:
+                        cfg.availability_time_offset_in_s = ato
+                    else:  # ignore the setting when the value is negative or not a number
                         cfg.availability_time_offset_in_s = 0
+                except ValueError:  # wrong setting
+                    cfg.availability_time_offset_in_s = 0
             elif key == "spd":  # suggestedPresentationDelay
                 cfg.suggested_presentation_delay_in_s = int(value)
             elif key == "sidx":  # Insert sidx
-- 
2.43.0


From e164d1e7f77dbb33e25df74358fed49fd95d3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 072/102] fix: period duration of the VoD manifest kept in live
 periods

---
 dashlivesim/dashlib/mpdprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index b6ff220..f1d3465 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -307,6 +307,7 @@ class MpdProcessor(object):
         # From the Base URL
         last_period_id = '-1'
         for (period, pdata) in zip(periods, period_data):
+            remove_attribs(period, ['duration'])  # The one of the VoD content
             set_attribs(period, ('id', 'start'), pdata)
             if 'etpDuration' in pdata:
                 period.set('duration', "PT%dS" % pdata['etpDuration'])
-- 
2.43.0


From 8590b54e09c87365fabd95c84b4ec23a59051cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 073/102] fix: period offsets with a VoD template that has a
 timescale

---
 dashlivesim/dashlib/mpdprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index f1d3465..205f56d 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -344,6 +344,9 @@ class MpdProcessor(object):
                     self.insert_producer_reference(ad_set, ad_pos)
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
+                    if 'timescale' in seg_template.attrib:  # All values are set in seconds
+                        seg_template.set('duration', str(pdata['duration']))
+                        remove_attribs(seg_template, ['timescale'])
                     set_attribs(seg_template, segmenttemplate_attribs, pdata)
                     if ll_data:
                         if float(ll_data['availabilityTimeOffset']) == -1:
-- 
2.43.0


From 991832ba350483b73c60b1a7ca087b3cd8e96e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 074/102] fix: offset of period-level offsets together with a
 segment timeline

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 205f56d..cf78da7 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -382,7 +382,7 @@ class MpdProcessor(object):
                             start_time, end_time, use_closest)
                         remove_attribs(seg_template, ['duration'])
                         seg_template.set('timescale', str(self.cfg.media_data[content_type]['timescale']))
-                        if pto != "0" and not offset_at_period_level:
+                        if pto != "0":  # An offset at period level has another timescale
                             # rescale presentationTimeOffset based on the local timescale
                             seg_template.set('presentationTimeOffset',
                                              str(int(pto) * int(self.cfg.media_data[content_type]['timescale'])))
-- 
2.43.0


From 8a2ca7b2c02c71b5b6249b733018d0170b4c63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 075/102] fix: namespaces of remote periods

---
 dashlivesim/dashlib/mpd_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 158f9ca..42fff4d 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -187,14 +187,14 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Start manipulating the original period so that it looks like .period in the static xlink file.
         filename = filename.split('+')[1]
         # Second part of string has the period id.
-        start_pos_xmlns = response.find("xmlns=")
-        end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
+        mpd_tag = response[response.find("<MPD"):]
+        namespaces = findall(r'xmlns(?::[^=\s]+)?="[^"]*"', mpd_tag[:mpd_tag.find(">")])  # All are declared there
         start_pos_period = find_period_start(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
         original_period = response[start_pos_period:end_pos_period]
-        original_period = original_period.replace('">', '" ' + response[start_pos_xmlns:end_pos_xmlns] + '>', 1)
+        original_period = original_period.replace('">', '" ' + " ".join(namespaces) + '>', 1)
         # xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         # response = xml_intro + original_period
         response = original_period
-- 
2.43.0


From 303f65bee256f87a2ac6492d0af760ce70648ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 076/102] fix: segment timelines with thumbnails

---
 dashlivesim/dashlib/mpdprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index cf78da7..908b36d 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -357,7 +357,8 @@ class MpdProcessor(object):
                     if pdata.get('startNumber') == '-1':  # Default to 1
                         remove_attribs(seg_template, ['startNumber'])
 
-                    if self.segtimeline or self.segtimeline_nr:
+                    # Thumbnails (image) have no timing information, and stay described by numbers.
+                    if (self.segtimeline or self.segtimeline_nr) and content_type in segtimeline_generators:
                         # add SegmentTimeline block in SegmentTemplate with timescale and window.
                         segtime_gen = segtimeline_generators[content_type]
                         now = self.mpd_proc_cfg['now']
-- 
2.43.0


From e554ba4728e1b7ecaf94e7ead16cec537982fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 077/102] fix: requests without Host header

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 77e7607..e1d724b 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -90,7 +90,9 @@ def full_reply(status_code, response, body=b"", headers={}):
 def application(environment, start_response):
     "WSGI Entrypoint"
 
-    hostname = environment['HTTP_HOST']
+    hostname = environment.get('HTTP_HOST')
+    if not hostname:  # HTTP/1.0 requests need not have any Host header
+        hostname = "%s:%s" % (environment.get('SERVER_NAME', ''), environment.get('SERVER_PORT', '80'))
     try:
         url = urlparse(environment['REQUEST_URI'])
     except ValueError as exc:
-- 
2.43.0


From 384642dc1d41f900da19e0fe6f4bc725cbd27fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 078/102] fix: segment file names of the caption inserter

---
 dashlivesim/cc_inserter/cc_inserter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 72f45f5..12db11a 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -318,7 +318,7 @@ def get_segment_range(rep_data):
     "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
     rep_id = rep_data['id']
     media_dir, media_name = os.path.split(rep_data['absMediaPath'])
-    media_regexp = media_name.replace("%d", r"(\d+)").replace(".", r"\.")
+    media_regexp = re.escape(media_name).replace("%d", r"(\d+)") + "$"
     media_reg = re.compile(media_regexp)
     files = os.listdir(media_dir)
     numbers = []
@@ -330,7 +330,7 @@ def get_segment_range(rep_data):
     numbers.sort()
     for i in range(1, len(numbers)):
         if numbers[i] != numbers[i-1] + 1:
-            raise CCInserterError("%s segment missing between %d and %d" % rep_id, numbers[i], numbers[i-1])
+            raise CCInserterError("%s segment missing between %d and %d" % (rep_id, numbers[i-1], numbers[i]))
     print("Found %s segments %d - %d" % (rep_id, numbers[0], numbers[-1]))
     rep_data['firstNumber'] = numbers[0]
     rep_data['lastNumber'] = numbers[-1]
-- 
2.43.0


From 5e337d314b79974f6dc65165bad1ad30f81f1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 079/102] fix: several ad breaks announced by one segment

---
 dashlivesim/dashlib/mediasegmentfilter.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 15f6779..6a17a57 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -370,26 +370,24 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
-        splice_insert_times.append(minute_start+70)  # First one of next minute
-        found_splice_time = -1
+        splice_insert_times += [time + 60 for time in splice_insert_times]  # The ones of next minute
+        found_splice_times = []
         splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
         for splice_time in splice_insert_times:
             # Assume that there are events 8s and 6s before the actual splice
             for pre_warning_time in (splice_time - 6, splice_time-8):
                 if seg_starttime <= pre_warning_time <= seg_endtime:
-                    found_splice_time = splice_time
+                    found_splice_times.append(splice_time)
                     break
-            if found_splice_time >= 0:
-                break
-        if found_splice_time < 0:
-            return b""  # Nothing for this segment
         timescale = 90000  # Timescale
-        emsg_id = splice_id = splice_time//10
-        emsg = scte35.create_scte35_emsg(timescale, seg_starttime*timescale, found_splice_time*timescale,
-                                         ad_duration*timescale, emsg_id, splice_id)
+        emsgs = b""
+        for splice_time in found_splice_times:
+            emsg_id = splice_id = splice_time//10
+            emsgs += scte35.create_scte35_emsg(timescale, seg_starttime*timescale, splice_time*timescale,
+                                               ad_duration*timescale, emsg_id, splice_id)
         # print "Made scte35 emsg %d" % len(emsg)
-        return emsg
+        return emsgs
 
     def find_and_process_mdat(self, data):
         "Change the ttml part of mdat and update mdat size. Return full new data."
-- 
2.43.0


From 89e093ea680b5cfafc0a814cd02440558bf2a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 080/102] fix: single-quoted times of subtitles

---
 dashlivesim/dashlib/ttml_timing_offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/ttml_timing_offset.py b/dashlivesim/dashlib/ttml_timing_offset.py
index 99eeb34..2f13899 100644
--- a/dashlivesim/dashlib/ttml_timing_offset.py
+++ b/dashlivesim/dashlib/ttml_timing_offset.py
@@ -32,7 +32,7 @@
 import re
 import time
 
-TIME_PATTERN_S = re.compile(rb'(?P<attr>(begin|end))="(?P<hours>\d\d):(?P<minutes>\d\d):(?P<seconds>\d\d)')
+TIME_PATTERN_S = re.compile(rb'(?P<attr>(begin|end)\s*=\s*["\'])(?P<hours>\d\d+):(?P<minutes>\d\d):(?P<seconds>\d\d)')
 CONTENT_PATTERN_S = re.compile(rb'(?P<lang>\w+) : (?P<hours>\d\d):(?P<minutes>\d\d):(?P<seconds>\d\d)(\.\d+)?')
 CONTENT_PATTERN_SEGMENT = re.compile(rb'(?P<intro>Segment # )(?P<seg_nr>\d+)')
 
@@ -50,7 +50,7 @@ def adjust_ttml_content(xml_str, offset_in_s, output_seg_nr):
         total_seconds = seconds + 60 * minutes + 3600 * hours + offset_in_s
         hours, seconds = divmod(total_seconds, 3600)
         minutes, seconds = divmod(seconds, 60)
-        return b'%s="%02d:%02d:%02d' % (attr, hours, minutes, seconds)
+        return b'%s%02d:%02d:%02d' % (attr, hours, minutes, seconds)
 
     def replace_content(match_obj):
         "Match and replace time with UTC time in lang time pattern."
-- 
2.43.0


From d7d8968c37b616cb362bc2f2802496ab778a8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 081/102] fix: grouping type of the sample-to-group box

---
 dashlivesim/dashlib/boxes.py | 8 +++++---
 dashlivesim/dashlib/mp4.py   | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index b53c333..7d33e51 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -1089,7 +1089,8 @@ class SBGPBox(Box):
     """ Sample to Group box
     """
 
-    def __init__(self):
+    def __init__(self, grouping_type=0x73656967):  # seig
+        self.grouping_type = grouping_type
         self.groups = []
 
     def add_group(self, sample_count, group_description_index):
@@ -1099,6 +1100,7 @@ class SBGPBox(Box):
         yield serialize_u32(self.size())
         yield serialize_name(b'sbgp')
         yield serialize_u32(0x00)  # version and flags
+        yield serialize_u32(self.grouping_type)  # grouping_type
         yield serialize_u32(len(self.groups))  # entry_count
 
         for group in self.groups:
@@ -1106,9 +1108,9 @@ class SBGPBox(Box):
             yield serialize_u32(group.group_description_index)
 
     def size(self):
-        # 16 is the base size of the 'sbgp' box
+        # 20 is the base size of the 'sbgp' box
         # each entry is 8 bytes long
-        return 16 + 8 * len(self.groups)
+        return 20 + 8 * len(self.groups)
 
 
 class SGPDBox(Box):
diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 34321a2..da601f0 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -473,8 +473,9 @@ class sbgp_box(full_box):
 
     @property
     def entries(self):
-        return struct.unpack('>I', self.fmap[self.offset + 16:
-                                             self.offset + 20])[0]
+        o = (self.version and 4 or 0)
+        return struct.unpack('>I', self.fmap[self.offset + o + 16:
+                                             self.offset + o + 20])[0]
 
     def group_entry(self, index):
         base_offset = 20 + (self.version and 4 or 0)
-- 
2.43.0


From 67d428d76ef4393bc15449607d32a9367f5533ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 082/102] fix: size of sample encryption boxes with some
 subsamples

---
 dashlivesim/dashlib/boxes.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 7d33e51..a57f4c8 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -1155,18 +1155,11 @@ class SENCBox(Box):
         self.flags = 0
         self.samples = []
 
-        # self.sz is the size of the box
-        # Base size of the 'senc' box is 16 bytes
-        self.sz = 16
-
     def add_sample(self, iv, subsamples):
-        self.samples.append(SENCSample(iv, subsamples))
-        self.sz += self.iv_size
+        self.samples.append(SENCSample(iv, subsamples or []))
 
         if subsamples:
             self.flags = 0x000002
-            self.sz += (self._subsample_count_size +
-                        len(subsamples) * self._subsample_size)
 
     def __iter__(self):
         yield serialize_u32(self.size())
@@ -1184,7 +1177,13 @@ class SENCBox(Box):
                     yield serialize_u32(subsample.enc_bytes)
 
     def size(self):
-        return self.sz
+        # 16 is the base size of the 'senc' box
+        size = 16 + len(self.samples) * self.iv_size
+        if self.flags == 0x000002:  # every sample has a subsample count
+            size += sum(self._subsample_count_size +
+                        len(sample.subsamples) * self._subsample_size
+                        for sample in self.samples)
+        return size
 
 
 class SIDXBox(Box):
-- 
2.43.0


From cfa88be5307fffc9c7c3b1adca2b5010374bacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 083/102] fix: 64-bit offsets of auxiliary information

---
 dashlivesim/dashlib/mp4.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index da601f0..f421f32 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -454,6 +454,7 @@ class saio_box(full_box):
         offset = 16
         if self.flags and 1:
             offset += 8
+        if self.version:
             offset += index * 8
             return struct.unpack('>Q', self.fmap[self.offset + offset:
                                                  self.offset + offset + 8])[0]
-- 
2.43.0


From 9d68b822c3a006ae26c624b4c8814213d4e32cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 084/102] fix: negative composition offsets of sample tables

---
 dashlivesim/dashlib/mp4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index f421f32..9c25b0d 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -1614,7 +1614,9 @@ class ctts_box(full_box):
         last_entry = None
         sample_index = 1
 
-        struct = Struct(f'>{2 * self.entry_count}I')
+        # Offsets are signed in version 1
+        offset_format = 'Ii' if self.version else 'II'
+        struct = Struct(f'>{offset_format * self.entry_count}')
         data = iter(struct.unpack(self.fmap[self.offset + 16:
                                             self.offset + 16 + struct.size]))
 
-- 
2.43.0


From e347dc09658ad23afb8679bbf5a2697257299bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:49 +0000
Subject: [PATCH 085/102] fix: containers without boxes

---
 dashlivesim/dashlib/mp4.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/mp4.py b/dashlivesim/dashlib/mp4.py
index 9c25b0d..9fa4c33 100755
--- a/dashlivesim/dashlib/mp4.py
+++ b/dashlivesim/dashlib/mp4.py
@@ -145,7 +145,8 @@ class box:
 
     @property
     def is_unparsed(self):
-        return self.is_container and not self.children and self.size >= 16
+        return (self.is_container and not self.children and
+                self.endpos >= self.childpos + 8)
 
     @property
     def root(self):
@@ -172,8 +173,7 @@ class box:
     def find(self, path, return_first=True):
         # unrolled lookup for most common use-case
         if len(path) == 4:
-            if (not self.children and self.size >= 16 and (
-                    self.type in CONTAINER_BOXES or self.__class__ == mp4)):
+            if self.is_unparsed:
                 self.parse_children(recurse=False)
 
             if return_first:
@@ -229,7 +229,7 @@ class box:
         next_offset = self.childpos
         end_offset = self.offset + self.size
 
-        while True:
+        while next_offset + 8 <= end_offset:
             box_class = box
             size, box_type = UNPACK_SIZE_TYPE(self.fmap[next_offset:
                                                         next_offset + 8])
@@ -270,9 +270,6 @@ class box:
                 if stop(new_box):
                     return
 
-            if next_offset >= end_offset:
-                break
-
     def __str__(self):
         old = object.__str__(self)
         replacement = f"{self.path}' [{self.offset}:{self.size}] object at"
-- 
2.43.0


From 991caa70e8397148e8fb1591da9b5bf5aa42505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:15 +0000
Subject: [PATCH 086/102] fix: verbose caption insertion without a good end

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 12db11a..d7d5f0b 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -463,7 +463,7 @@ class CCInserter(object):
                     while True:
                         segment_path = rep_data['absMediaPath'] % seg_nr
                         if not os.path.exists(segment_path):
-                            if self.verbose:
+                            if self.verbose and rep_data['endNr'] is not None:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
                                       rep_data['endTime']-rep_data['startTime']))
-- 
2.43.0


From 4029d1c38b206578ca59eca8ac6eba27ed4ac47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 087/102] fix: multiplexed segments of several fragments or
 track runs

---
 dashlivesim/dashlib/segmentmuxer.py | 97 ++++++++++++++++-------------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index b1cb0a7..7bb787e 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -30,6 +30,8 @@
 #  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 #  POSSIBILITY OF SUCH DAMAGE.
 
+from itertools import zip_longest
+
 from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32
 
@@ -120,43 +122,49 @@ class MultiplexInits(object):
         return b"".join(data)
 
 
+class MediaFragment(object):
+    "Holds the boxes of a movie fragment."
+    # pylint: disable=too-few-public-methods
+
+    def __init__(self, moof):
+        self.moof = moof
+        self.mfhd = None
+        self.traf = None
+        self.traf_start = None
+        self.trun_data_offsets = []  # (position in traf, data_offset)
+        self.mdat = None
+
+
 class MediaSegmentStructure(MP4Filter):
     "Holds the box structure of a media segment."
-    # pylint: disable=too-many-instance-attributes
 
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
         self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
-        self.trun_data_offset = None
-        self.trun_data_offset_in_traf = None
-        self.traf_start = None
         self.styp = None
-        self.mfhd = None
-        self.traf = None
-        self.moof = None
-        self.mdat = None
+        self.fragments = []
 
     def parse_trun(self, data, pos):
         "Parse trun box and find position of data_offset."
         flags = str_to_uint32(data[8:12]) & 0xffffff
         data_offset_present = flags & 1
         if data_offset_present:
-            self.trun_data_offset = str_to_uint32(data[16:20])
-            self.trun_data_offset_in_traf = pos + 16 - self.traf_start
+            fragment = self.fragments[-1]
+            fragment.trun_data_offsets.append((pos + 16 - fragment.traf_start, str_to_uint32(data[16:20])))
 
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
         if boxtype == b"styp":
             self.styp = data
         elif boxtype == b"moof":
-            self.moof = data
+            self.fragments.append(MediaFragment(data))
         elif boxtype == b"mdat":
-            self.mdat = data
+            self.fragments[-1].mdat = data
         elif boxtype == b"mfhd":
-            self.mfhd = data
+            self.fragments[-1].mfhd = data
         elif boxtype == b"traf":
-            self.traf = data
-            self.traf_start = file_pos
+            self.fragments[-1].traf = data
+            self.fragments[-1].traf_start = file_pos
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
         if path == b"":
@@ -187,48 +195,47 @@ class MultiplexMediaSegments(object):
         self.mstruct2 = MediaSegmentStructure(filename2, data2)
         self.mstruct2.filter()
 
+    def fragment_groups(self):
+        "The fragments that belong together: one of each segment as long as both have any."
+        for group in zip_longest(self.mstruct1.fragments, self.mstruct2.fragments):
+            yield [fragment for fragment in group if fragment is not None]
+
     def mux_on_fragment_level(self):
         "Multiplex on frgment level."
         data = []
         if self.mstruct1.styp is not None:
             data.append(self.mstruct1.styp)
-        data.append(self.mstruct1.moof)
-        data.append(self.mstruct1.mdat)
-        data.append(self.mstruct2.moof)
-        data.append(self.mstruct2.mdat)
+        for group in self.fragment_groups():
+            for fragment in group:
+                data.append(fragment.moof)
+                data.append(fragment.mdat)
         return b"".join(data)
 
     def mux_on_sample_level(self):
-        "Mux media samples into one mdata. This is done by simple concatenation."
-
-        def get_traf_with_mod_offset(mstruct, delta_offset):
-            "Get a traf box but with modified offset."
-            if mstruct.trun_data_offset is None:
-                return mstruct.traf
-            new_data_offset = mstruct.trun_data_offset + delta_offset
-            traf = mstruct.traf
-            offset = mstruct.trun_data_offset_in_traf
-            return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
-
-        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
-        delta_offset1 = moof_size - len(self.mstruct1.moof)
-        delta_offset2 = moof_size - len(self.mstruct2.moof) + len(self.mstruct1.mdat) - 8
-        traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1)
-        traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2)
+        "Mux media samples into one mdat per group of fragments. This is done by simple concatenation."
 
-        mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
+        def get_traf_with_mod_offset(fragment, delta_offset):
+            "Get a traf box but with modified offsets."
+            traf = fragment.traf
+            for pos, data_offset in fragment.trun_data_offsets:
+                new_data_offset = (data_offset + delta_offset) & 0xffffffff  # Signed
+                traf = traf[:pos] + uint32_to_str(new_data_offset) + traf[pos+4:]
+            return traf
 
         data = []
         if self.mstruct1.styp is not None:
             data.append(self.mstruct1.styp)
-        data.append(uint32_to_str(moof_size))
-        data.append(b'moof')
-        data.append(self.mstruct1.mfhd)
-        data.append(traf1)
-        data.append(traf2)
-        data.append(uint32_to_str(mdat_size))
-        data.append(b'mdat')
-        data.append(self.mstruct1.mdat[8:])
-        data.append(self.mstruct2.mdat[8:])
+        for group in self.fragment_groups():
+            mfhd = group[0].mfhd
+            moof_size = 8 + len(mfhd) + sum(len(fragment.traf) for fragment in group)
+            trafs = []
+            media = []
+            media_size = 0
+            for fragment in group:
+                trafs.append(get_traf_with_mod_offset(fragment, moof_size - len(fragment.moof) + media_size))
+                media.append(fragment.mdat[8:])
+                media_size += len(fragment.mdat) - 8
+            data += [uint32_to_str(moof_size), b'moof', mfhd] + trafs
+            data += [uint32_to_str(media_size + 8), b'mdat'] + media
 
         return b"".join(data)
-- 
2.43.0


From 94473d2c03bfbfa5dd3884f798b0869f568f7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 088/102] fix: XLink addresses from a BaseURL inside a period

In a relative session there is no BaseURL at the MPD level, so that the first
BaseURL of an AdaptationSet or Representation of the content was taken.
---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 42fff4d..100b299 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -136,7 +136,8 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
+        mpd_head = response[:response.find('<Period')]  # There may be other BaseURLs in the periods
+        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', mpd_head)
         if not base_url:  # There is a Location instead, with the name of the MPD last
             base_url = findall('<Location>([^<]*/)[^</]*</Location>', response)
         counter = 0
-- 
2.43.0


From 0908f612a8da7c32eb43e02c5016a049d3b09752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 089/102] fix: size in an inserted segment index with boxes
 between the fragments

Boxes like prft, styp and emsg between the movie fragments were not counted
in the referenced size.
---
 dashlivesim/dashlib/mediasegmentfilter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 6a17a57..ab32f1e 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -82,11 +82,12 @@ class MediaSegmentFilter(MP4Filter):
     def finalize(self):
         moof_start = self.first_moof_start()
         if self.insert_sidx:
-            seg_size = 0
+            pos = end_pos = 0
             for size, box in self.output_top_level_boxes:
+                pos += size
                 if box in (b'moof', b'mdat'):
-                    seg_size += size
-            sidx = self.create_sidx(seg_size)
+                    end_pos = pos
+            sidx = self.create_sidx(end_pos - moof_start)  # Including boxes between the fragments
             self.output = (self.output[:moof_start] + sidx +
                            self.output[moof_start:])
         if self.emsg_last_seg:
-- 
2.43.0


From 4703c8406436e03cfd23b18db74139f141170365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 090/102] fix: offsets in movie fragments after one whose
 decode time got longer

---
 dashlivesim/dashlib/mediasegmentfilter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index ab32f1e..9ecd48e 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -161,6 +161,7 @@ class MediaSegmentFilter(MP4Filter):
 
     def process_mfhd(self, data):
         "Process mfhd box and set segmentNumber if requested."
+        self.size_change = 0  # The boxes of an earlier movie fragment do not move the data of this one
         if self.seg_nr is None:
             return data
         else:
-- 
2.43.0


From d894150f32cfb05cfd72c3f0359c1f35daeed681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:58 +0000
Subject: [PATCH 091/102] fix: SCTE-35 events repeated in segments with a
 segment type box per chunk

---
 dashlivesim/dashlib/mediasegmentfilter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 9ecd48e..5033d68 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -63,6 +63,7 @@ class MediaSegmentFilter(MP4Filter):
         self.track_timescale = track_timescale
         self.rel_path = rel_path
         self.lmsg = lmsg
+        self.styp_found = False
         self.size_change = 0
         self.new_saio_value = None
         self.tfdt_value = None  # For testing
@@ -125,8 +126,10 @@ class MediaSegmentFilter(MP4Filter):
         output += b"styp"
         for brand in brands:
             output += brand
-        scte35box = self.create_scte35box()
-        output += scte35box
+        if not self.styp_found:  # Segments of several chunks may have one in front of each of them
+            self.styp_found = True
+            scte35box = self.create_scte35box()
+            output += scte35box
         return output
 
     def process_tfhd(self, data):
-- 
2.43.0


From 0d6089c5ac6a44b2e81a82293fc5c202dba4327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:13 +0000
Subject: [PATCH 092/102] fix: event messages between the fragments of a
 segment lost in chunks

---
 dashlivesim/dashlib/chunker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 63a774d..014b90e 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -117,7 +117,8 @@ def chunk(data, duration, trex_box):
     if chunks:  # The segment type and the event messages of the segment come before its first fragment
         first_moof = root.find(b'moof')
         chunks[0] = b''.join(box.raw_data for box in root.children
-                             if box.offset < first_moof.offset and box.type in (b'styp', b'emsg')) + chunks[0]
+                             if box.type == b'emsg' or
+                             (box.type == b'styp' and box.offset < first_moof.offset)) + chunks[0]
     return chunks
 
 
-- 
2.43.0


From 2276bde768eea1e348632b824d74ee3bfd7292b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:13 +0000
Subject: [PATCH 093/102] fix: Location of relative sessions given with a plus
 sign

---
 dashlivesim/dashlib/mpdprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 908b36d..13a3d4d 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -171,9 +171,9 @@ class MpdProcessor(object):
         if self.cfg and self.cfg.add_location and self.full_url is not None:
             loc_url = self.full_url
             if self.cfg.start_time is not None:
-                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" % self.cfg.start_time, loc_url)
+                loc_url = re.sub(r"/startrel_[^/]*", "/start_%d" % self.cfg.start_time, loc_url)
             if self.cfg.stop_time is not None:
-                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" % self.cfg.stop_time, loc_url)
+                loc_url = re.sub(r"/stoprel_[^/]*", "/stop_%d" % self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 15543c1ed828dddd037b20c4e445ecfb0b8171a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 094/102] fix: UTCTiming written before the metrics of the
 content

---
 dashlivesim/dashlib/mpdprocessor.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 13a3d4d..c9d9537 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -62,6 +62,20 @@ def set_values_from_dict(element, keys, data):
             element.set(key, str(data[key]))
 
 
+# Order of the children of an element according to the DASH schema
+MPD_CHILDREN = ('ProgramInformation', 'BaseURL', 'Location', 'PatchLocation', 'ServiceDescription', 'InitializationSet',
+                'InitializationGroup', 'InitializationPresentation', 'ContentProtection', 'Period', 'Metrics',
+                'EssentialProperty', 'SupplementalProperty', 'UTCTiming')
+
+
+def insert_in_order(parent, elem, order):
+    "Insert elem in parent, after the children that come before it in order, or are of the same kind."
+    tags = [add_ns(name) for name in order]
+    before = tags[:tags.index(elem.tag) + 1]
+    pos = max([nr + 1 for nr, child in enumerate(parent) if child.tag in before] or [0])
+    parent.insert(pos, elem)
+
+
 class MpdModifierError(Exception):
     "Generic MpdModifier error."
     pass
@@ -138,7 +152,7 @@ class MpdProcessor(object):
     def process_mpd_children(self, mpd, data, period_data, ll_data):
         """Process the children of the MPD element.
         They should be in order ProgramInformation, BaseURL, Location, ServiceDescription,
-        Period, UTCTiming, Metrics."""
+        Period, Metrics, UTCTiming."""
         ato = 0
         atc = 'true'
         if 'availabilityTimeOffset' in data:
@@ -192,7 +206,7 @@ class MpdProcessor(object):
         for i in range(1, len(period_data)):
             new_period = copy.deepcopy(period)
             mpd.insert(pos+i, new_period)
-        self.insert_utc_timings(mpd, pos+len(period_data))
+        self.insert_utc_timings(mpd)
         self.update_periods(mpd, period_data, data['periodOffset'] >= 0, ll_data)
 
     def insert_baseurl(self, mpd, pos, new_baseurl, new_ato, new_atc):
@@ -417,12 +431,11 @@ class MpdProcessor(object):
         elem.tail = "\n"
         return elem
 
-    def insert_utc_timings(self, mpd, start_pos):
-        """Insert UTCTiming elements right after program information in order given by self.utc_timing_methods.
+    def insert_utc_timings(self, mpd):
+        """Insert UTCTiming elements after the periods and metrics in order given by self.utc_timing_methods.
 
         The version of DASH should also be updated, but that is not done yet."""
 
-        pos = start_pos
         for utc_method in self.utc_timing_methods:
             if utc_method == "direct":
                 direct_time = time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(time.time()))
@@ -444,9 +457,7 @@ class MpdProcessor(object):
                                                         UTC_TIMING_HTTP_SERVER)
             else:  # Unknown or un-implemented UTCTiming method
                 raise MpdModifierError("Unknown UTCTiming method: %s" % utc_method)
-            mpd.insert(pos, time_elem)
-            pos += 1
-        return pos
+            insert_in_order(mpd, time_elem, MPD_CHILDREN)
 
     def get_full_xml(self):
         "Get a string of all XML with DASH as default namespace (no ns0 prefix)"
-- 
2.43.0


From 160ce88f4e01b0dbfadc86bf5647d9915cd83750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 095/102] fix: elements of adaptation sets inserted out of
 schema order

---
 dashlivesim/dashlib/mpdprocessor.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index c9d9537..253546b 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -67,6 +67,10 @@ MPD_CHILDREN = ('ProgramInformation', 'BaseURL', 'Location', 'PatchLocation', 'S
                 'InitializationGroup', 'InitializationPresentation', 'ContentProtection', 'Period', 'Metrics',
                 'EssentialProperty', 'SupplementalProperty', 'UTCTiming')
 
+ADAPTATION_SET_CHILDREN = ('FramePacking', 'AudioChannelConfiguration', 'ContentProtection', 'OutputProtection',
+                           'EssentialProperty', 'SupplementalProperty', 'InbandEventStream', 'Switching',
+                           'RandomAccess', 'GroupLabel', 'Label', 'ProducerReferenceTime')
+
 
 def insert_in_order(parent, elem, order):
     "Insert elem in parent, after the children that come before it in order, or are of the same kind."
@@ -251,7 +255,7 @@ class MpdProcessor(object):
         sd_elem.tail = "\n"
         mpd.insert(pos, sd_elem)
 
-    def insert_producer_reference(self, ad_set, pos):
+    def insert_producer_reference(self, ad_set):
         prt_elem = ElementTree.Element(add_ns('ProducerReferenceTime'))
         prt_elem.set("id", "0")
         prt_elem.set("type", "encoder")
@@ -263,7 +267,7 @@ class MpdProcessor(object):
         prt_elem.insert(0, utc_elem)
         prt_elem.text = "\n"
         prt_elem.tail = "\n"
-        ad_set.insert(pos, prt_elem)
+        insert_in_order(ad_set, prt_elem, ADAPTATION_SET_CHILDREN)
 
     def update_periods(self, mpd, period_data, offset_at_period_level, ll_data):
         "Update periods to provide appropriate values."
@@ -340,22 +344,20 @@ class MpdProcessor(object):
                 period.insert(0, mpdcallback_elem)
             adaptation_sets = period.findall(add_ns('AdaptationSet'))
             for ad_set in adaptation_sets:
-                ad_pos = 0
                 content_type = ad_set.get('contentType')
-                if self.emsg_last_seg:
-                    inband_event_elem = create_inband_stream_elem()
-                    ad_set.insert(0, inband_event_elem)
                 if content_type == 'video' and self.scte35_present:
                     scte35_elem = create_inband_scte35stream_elem()
-                    ad_set.insert(0, scte35_elem)
-                    ad_pos += 1
+                    insert_in_order(ad_set, scte35_elem, ADAPTATION_SET_CHILDREN)
+                if self.emsg_last_seg:
+                    inband_event_elem = create_inband_stream_elem()
+                    insert_in_order(ad_set, inband_event_elem, ADAPTATION_SET_CHILDREN)
                 if self.continuous and last_period_id != '-1':
                     supplementalprop_elem = self.create_descriptor_elem("SupplementalProperty",
                                                                         "urn:mpeg:dash:period_continuity:2014",
                                                                         last_period_id)
-                    ad_set.insert(ad_pos, supplementalprop_elem)
+                    insert_in_order(ad_set, supplementalprop_elem, ADAPTATION_SET_CHILDREN)
                 if ll_data:
-                    self.insert_producer_reference(ad_set, ad_pos)
+                    self.insert_producer_reference(ad_set)
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
                     if 'timescale' in seg_template.attrib:  # All values are set in seconds
-- 
2.43.0


From 1dd8d5cd906e4b68889091263fd7a46cda3d3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 096/102] fix: elements of periods inserted out of schema order

---
 dashlivesim/dashlib/mpd_proxy.py    | 5 ++++-
 dashlivesim/dashlib/mpdprocessor.py | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 100b299..c16aee5 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -317,7 +317,10 @@ def find_period_start(response, period_id):
 
 
 def insert_asset_identifier(response, start_pos_period):
-    ad_pos = response.find(">", start_pos_period) + 1
+    # It comes after the BaseURLs and the default values of the segment information
+    first_after = search(r"\s*<(?:EventStream|ServiceDescription|ContentProtection|AdaptationSet)\b",
+                         response[start_pos_period:])
+    ad_pos = start_pos_period + first_after.start()
     response = response[:ad_pos] + "\n<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
                                    "EIDR:10.5240%2f0EFB-02CD-126E-8092-1E49-W\"></AssetIdentifier>" + response[ad_pos:]
     return response
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 253546b..0ba287d 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -67,6 +67,7 @@ MPD_CHILDREN = ('ProgramInformation', 'BaseURL', 'Location', 'PatchLocation', 'S
                 'InitializationGroup', 'InitializationPresentation', 'ContentProtection', 'Period', 'Metrics',
                 'EssentialProperty', 'SupplementalProperty', 'UTCTiming')
 
+PERIOD_CHILDREN = ('BaseURL', 'SegmentBase', 'SegmentList', 'SegmentTemplate', 'AssetIdentifier', 'EventStream')
 ADAPTATION_SET_CHILDREN = ('FramePacking', 'AudioChannelConfiguration', 'ContentProtection', 'OutputProtection',
                            'EssentialProperty', 'SupplementalProperty', 'InbandEventStream', 'Switching',
                            'RandomAccess', 'GroupLabel', 'Label', 'ProducerReferenceTime')
@@ -294,7 +295,7 @@ class MpdProcessor(object):
             segmentbase_elem = ElementTree.Element(add_ns('SegmentBase'))
             if presentation_time_offset != 0:
                 segmentbase_elem.set('presentationTimeOffset', str(presentation_time_offset))
-            period.insert(0, segmentbase_elem)
+            insert_in_order(period, segmentbase_elem, PERIOD_CHILDREN)
 
         def create_inband_scte35stream_elem():
             "Create an InbandEventStream element for SCTE-35."
@@ -341,7 +342,7 @@ class MpdProcessor(object):
             if 'mpdCallback' in pdata:
                 # Add the mpdCallback element only if the flag is raised.
                 mpdcallback_elem = create_inline_mpdcallback_elem(BaseURLSegmented)
-                period.insert(0, mpdcallback_elem)
+                insert_in_order(period, mpdcallback_elem, PERIOD_CHILDREN)
             adaptation_sets = period.findall(add_ns('AdaptationSet'))
             for ad_set in adaptation_sets:
                 content_type = ad_set.get('contentType')
-- 
2.43.0


From a7345473bc53b15b097b57997d784f31f3dad7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 097/102] fix: periods copied from the wrong element with a
 service description in the content

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0ba287d..68dd868 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -203,7 +203,7 @@ class MpdProcessor(object):
         children = list(mpd)
         for ch_nr in range(pos, len(children)):
             if children[ch_nr].tag == add_ns("Period"):
-                period = list(mpd)[pos]
+                period = children[ch_nr]
                 pos = ch_nr
                 break
         else:
-- 
2.43.0


From 47ed2c186fcdb74a522cf0e0c6fa3abf502664e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:09 +0000
Subject: [PATCH 098/102] fix: only the first BaseURL of the content replaced

---
 dashlivesim/dashlib/mpdprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 68dd868..aac13ce 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -170,12 +170,11 @@ class MpdProcessor(object):
             if child.tag != add_ns('ProgramInformation'):
                 break
             pos += 1
-        next_child = list(mpd)[pos]
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):  # Replace it by the live one
-            self.root.remove(next_child)
+        for baseurl in mpd.findall(add_ns('BaseURL')):  # Replace all by the live one
+            mpd.remove(baseurl)
         if 'BaseURL' in data and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
-- 
2.43.0


From af7053083e519a6aac7ba99b897b921e30781302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 099/102] fix: media data boxes with 64-bit size or to the end
 of the segment

---
 dashlivesim/dashlib/mediasegmentfilter.py | 11 +++++++++--
 dashlivesim/dashlib/mp4filter.py          |  6 +++++-
 dashlivesim/dashlib/segmentmuxer.py       |  8 +++++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 5033d68..fb53700 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -401,6 +401,10 @@ class MediaSegmentFilter(MP4Filter):
         while pos < len(data):
             size = str_to_uint32(data[pos:pos+4])
             boxtype = data[pos+4:pos+8]
+            if size == 0:  # The box extends to the end
+                size = len(data) - pos
+            elif size == 1:  # 64-bit size
+                size = str_to_uint64(data[pos+8:pos+16])
             if boxtype != b'mdat':
                 output += data[pos:pos+size]
             else:
@@ -410,10 +414,13 @@ class MediaSegmentFilter(MP4Filter):
 
     def update_ttml_mdat(self, data):
         "Update the ttml payload of mdat and its size."
-        ttml_xml = data[8:]
+        header_size = 16 if str_to_uint32(data[:4]) == 1 else 8  # The size may be in 64 bits
+        ttml_xml = data[header_size:]
         ttml_out = adjust_ttml_content(ttml_xml, self.offset, self.seg_nr)
         self.ttml_size = len(ttml_out)
-        out_size = self.ttml_size + 8
+        out_size = self.ttml_size + header_size
+        if header_size == 16:
+            return data[:8] + uint64_to_str(out_size) + ttml_out
         return uint32_to_str(out_size) + b'mdat' + ttml_out
 
     def create_emsg(self):
diff --git a/dashlivesim/dashlib/mp4filter.py b/dashlivesim/dashlib/mp4filter.py
index 0b5d17e..8f752d3 100644
--- a/dashlivesim/dashlib/mp4filter.py
+++ b/dashlivesim/dashlib/mp4filter.py
@@ -32,7 +32,7 @@ The filter is streamlined for DASH or other content with one track per file.
 #  ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 #  POSSIBILITY OF SUCH DAMAGE.
 
-from dashlivesim.dashlib.structops import str_to_uint32, uint32_to_str
+from dashlivesim.dashlib.structops import str_to_uint32, uint32_to_str, str_to_uint64
 
 
 class MP4FilterError(BaseException):
@@ -75,6 +75,10 @@ class MP4Filter(object):
         prev_output_pos = 0
         while pos < len(self.data):
             size, boxtype = self.check_box(self.data[pos:pos+8])
+            if size == 0:  # The box extends to the end
+                size = len(self.data) - pos
+            elif size == 1:  # 64-bit size
+                size = str_to_uint64(self.data[pos+8:pos+16])
             boxdata = self.data[pos:pos+size]
             if boxtype in self.top_level_boxes_to_parse:
                 self.output += self.filter_box(boxtype, boxdata, len(self.output))
diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 7bb787e..2ca5a2a 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -232,9 +232,11 @@ class MultiplexMediaSegments(object):
             media = []
             media_size = 0
             for fragment in group:
-                trafs.append(get_traf_with_mod_offset(fragment, moof_size - len(fragment.moof) + media_size))
-                media.append(fragment.mdat[8:])
-                media_size += len(fragment.mdat) - 8
+                header_size = 16 if str_to_uint32(fragment.mdat[:4]) == 1 else 8  # The size may be in 64 bits
+                trafs.append(get_traf_with_mod_offset(fragment, moof_size + 8 - len(fragment.moof) - header_size +
+                                                      media_size))
+                media.append(fragment.mdat[header_size:])
+                media_size += len(fragment.mdat) - header_size
             data += [uint32_to_str(moof_size), b'moof', mfhd] + trafs
             data += [uint32_to_str(media_size + 8), b'mdat'] + media
 
-- 
2.43.0


From 7a736b4e3785e7293040c7a47e53e5fbc6cf596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 100/102] fix: offsets of auxiliary information in multiplexed
 segments

---
 dashlivesim/dashlib/segmentmuxer.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 2ca5a2a..1e8f920 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -131,7 +131,9 @@ class MediaFragment(object):
         self.mfhd = None
         self.traf = None
         self.traf_start = None
+        self.traf_pos = None  # In moof
         self.trun_data_offsets = []  # (position in traf, data_offset)
+        self.saio_offsets = []  # (position in traf, size in bytes, offset)
         self.mdat = None
 
 
@@ -142,6 +144,7 @@ class MediaSegmentStructure(MP4Filter):
         MP4Filter.__init__(self, filename, data)
         self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
         self.styp = None
+        self.moof_pos = None
         self.fragments = []
 
     def parse_trun(self, data, pos):
@@ -152,12 +155,23 @@ class MediaSegmentStructure(MP4Filter):
             fragment = self.fragments[-1]
             fragment.trun_data_offsets.append((pos + 16 - fragment.traf_start, str_to_uint32(data[16:20])))
 
+    def parse_saio(self, data, pos):
+        "Parse saio box and find positions of the offsets."
+        fragment = self.fragments[-1]
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        offset_size = 4 if data[8] == 0 else 8
+        first = 16 + (8 if flags & 1 else 0)
+        for offset_pos in range(first, len(data), offset_size):
+            offset = int.from_bytes(data[offset_pos:offset_pos + offset_size], 'big')
+            fragment.saio_offsets.append((pos + offset_pos - fragment.traf_start, offset_size, offset))
+
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
         if boxtype == b"styp":
             self.styp = data
         elif boxtype == b"moof":
             self.fragments.append(MediaFragment(data))
+            self.moof_pos = file_pos
         elif boxtype == b"mdat":
             self.fragments[-1].mdat = data
         elif boxtype == b"mfhd":
@@ -165,8 +179,11 @@ class MediaSegmentStructure(MP4Filter):
         elif boxtype == b"traf":
             self.fragments[-1].traf = data
             self.fragments[-1].traf_start = file_pos
+            self.fragments[-1].traf_pos = file_pos - self.moof_pos
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
+        elif boxtype == b"saio":
+            self.parse_saio(data, file_pos)
         if path == b"":
             path = boxtype
         else:
@@ -214,9 +231,13 @@ class MultiplexMediaSegments(object):
     def mux_on_sample_level(self):
         "Mux media samples into one mdat per group of fragments. This is done by simple concatenation."
 
-        def get_traf_with_mod_offset(fragment, delta_offset):
+        def get_traf_with_mod_offset(fragment, delta_offset, new_traf_pos):
             "Get a traf box but with modified offsets."
             traf = fragment.traf
+            for pos, size, offset in fragment.saio_offsets:  # To auxiliary information in the traf box or with the media
+                in_moof = offset < len(fragment.moof)
+                offset += new_traf_pos - fragment.traf_pos if in_moof else delta_offset
+                traf = traf[:pos] + offset.to_bytes(size, 'big') + traf[pos+size:]
             for pos, data_offset in fragment.trun_data_offsets:
                 new_data_offset = (data_offset + delta_offset) & 0xffffffff  # Signed
                 traf = traf[:pos] + uint32_to_str(new_data_offset) + traf[pos+4:]
@@ -234,7 +255,7 @@ class MultiplexMediaSegments(object):
             for fragment in group:
                 header_size = 16 if str_to_uint32(fragment.mdat[:4]) == 1 else 8  # The size may be in 64 bits
                 trafs.append(get_traf_with_mod_offset(fragment, moof_size + 8 - len(fragment.moof) - header_size +
-                                                      media_size))
+                                                      media_size, 8 + len(mfhd) + sum(map(len, trafs))))
                 media.append(fragment.mdat[header_size:])
                 media_size += len(fragment.mdat) - header_size
             data += [uint32_to_str(moof_size), b'moof', mfhd] + trafs
-- 
2.43.0


From 66a8ab88339ea6a30f0b1c15ce9f8aa7e97376b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 101/102] fix: protection boxes lost in multiplexed init
 segments

---
 dashlivesim/dashlib/segmentmuxer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 1e8f920..00c7d29 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -49,6 +49,7 @@ class InitSegmentStructure(MP4Filter):
         self._mvhd = None
         self._trex = None
         self._trak = None
+        self._pssh = b""
 
     def process_ftyp(self, data):
         "Get a handle to ftyp."
@@ -70,6 +71,16 @@ class InitSegmentStructure(MP4Filter):
         self._trak = data
         return data
 
+    def process_pssh(self, data):
+        "Collect the pssh boxes."
+        self._pssh += data
+        return data
+
+    @property
+    def pssh(self):
+        "Get all pssh boxes."
+        return self._pssh
+
     @property
     def ftyp(self):
         "Get the ftyp box."
@@ -107,7 +118,11 @@ class MultiplexInits(object):
 
         data.append(self.istruct1.ftyp)
         mvex_size = 8 + len(self.istruct1.trex) + len(self.istruct2.trex)
-        moov_size = 8 + len(self.istruct1.mvhd) + mvex_size + len(self.istruct1.trak) + len(self.istruct2.trak)
+        pssh = self.istruct1.pssh
+        if self.istruct2.pssh != pssh:  # Tracks often have the same
+            pssh += self.istruct2.pssh
+        moov_size = (8 + len(self.istruct1.mvhd) + mvex_size + len(self.istruct1.trak) + len(self.istruct2.trak) +
+                     len(pssh))
 
         data.append(uint32_to_str(moov_size))
         data.append(b'moov')
@@ -118,6 +133,7 @@ class MultiplexInits(object):
         data.append(self.istruct2.trex)
         data.append(self.istruct1.trak)
         data.append(self.istruct2.trak)
+        data.append(pssh)
 
         return b"".join(data)
 
-- 
2.43.0


From 6e45c6ecca65527606f09150eedb396710263bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 102/102] fix: event messages lost in multiplexed segments

---
 dashlivesim/dashlib/segmentmuxer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index 00c7d29..2d499a4 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -151,6 +151,7 @@ class MediaFragment(object):
         self.trun_data_offsets = []  # (position in traf, data_offset)
         self.saio_offsets = []  # (position in traf, size in bytes, offset)
         self.mdat = None
+        self.events = []  # Event message boxes before the fragment
 
 
 class MediaSegmentStructure(MP4Filter):
@@ -158,9 +159,10 @@ class MediaSegmentStructure(MP4Filter):
 
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
-        self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
+        self.top_level_boxes_to_parse = [b'styp', b'emsg', b'moof', b'mdat']
         self.styp = None
         self.moof_pos = None
+        self.events = []
         self.fragments = []
 
     def parse_trun(self, data, pos):
@@ -188,6 +190,9 @@ class MediaSegmentStructure(MP4Filter):
         elif boxtype == b"moof":
             self.fragments.append(MediaFragment(data))
             self.moof_pos = file_pos
+            self.fragments[-1].events, self.events = self.events, []
+        elif boxtype == b"emsg":
+            self.events.append(data)
         elif boxtype == b"mdat":
             self.fragments[-1].mdat = data
         elif boxtype == b"mfhd":
@@ -274,7 +279,12 @@ class MultiplexMediaSegments(object):
                                                       media_size, 8 + len(mfhd) + sum(map(len, trafs))))
                 media.append(fragment.mdat[header_size:])
                 media_size += len(fragment.mdat) - header_size
+                for event in fragment.events:
+                    if event not in data:  # The same event may be in both segments
+                        data.append(event)
             data += [uint32_to_str(moof_size), b'moof', mfhd] + trafs
             data += [uint32_to_str(media_size + 8), b'mdat'] + media
+        data += self.mstruct1.events  # The ones after the last fragment
+        data += [event for event in self.mstruct2.events if event not in data]
 
         return b"".join(data)
-- 
2.43.0

