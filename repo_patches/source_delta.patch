From 60632b6207e8db51004cf31db885620d2120e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 01/50] fix: return the localized time from dtlocalize for
 named timezones

A trigger with schedule_timezone produced a run with no schedule time,
which crashed the scheduler.
---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..13023fc 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,7 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            return dt.astimezone(dateutil_tz.gettz(tz))
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From 5367a2ce6bd3918b333b094ec1f2b61627dbf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 02/50] fix: report YAML syntax errors as ValueError, as JSON
 ones are

yaml.YAMLError is not a ValueError, so it escaped every handler of
load_structured_file callers: a malformed trigger.yaml crashed the
scheduler.
---
 dsari/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsari/utils.py b/dsari/utils.py
index 13023fc..a9e1577 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -64,6 +64,10 @@ def load_structured_file(file, file_type="json", delete_during=False):
         except ValueError as e:
             e.args += (file,)
             raise
+        except Exception as e:
+            if file_type == "yaml" and isinstance(e, yaml.YAMLError):
+                raise ValueError(str(e), file)
+            raise
 
 
 def seconds_to_td(seconds):
-- 
2.43.0


From 2f513e8890435542c92263f9680e4b057e54a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 03/50] fix: do not crash the scheduler on an unusable trigger
 file

A malformed trigger (e.message does not exist in Python 3), one removed
between being noticed and being read, and one whose schedule_time has
the wrong type or is out of range all raised out of the main loop.
---
 dsari/daemon.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..de392b4 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -541,8 +541,8 @@ class Scheduler:
             break
         if trigger_file is None:
             return
-        t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
         try:
+            trigger_mtime = os.path.getmtime(trigger_file)
             j = load_structured_file(
                 trigger_file, file_type=trigger_file_type, delete_during=True
             )
@@ -554,10 +554,8 @@ class Scheduler:
             # Likely during os.remove()
             # Return silently, otherwise we spam the log during each loop
             return
-        except ValueError as e:
-            self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
-            )
+        except Exception as e:
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
             return
         if type(j) != dict:
             self.logger.error(
@@ -570,19 +568,13 @@ class Scheduler:
             )
             return
 
-        if "schedule_time" in j:
-            if type(j["schedule_time"]) in (int, float):
+        try:
+            if "schedule_time" not in j:
+                t = epoch_to_dt(trigger_mtime)
+            elif type(j["schedule_time"]) in (int, float):
                 t = epoch_to_dt(float(j["schedule_time"]))
             elif not isinstance(dateutil_parser, ImportError):
-                try:
-                    t = dateutil_parser.parse(j["schedule_time"])
-                except ValueError:
-                    self.logger.error(
-                        '[{}] Invalid schedule_time "{}" for trigger'.format(
-                            job.name, j["schedule_time"]
-                        )
-                    )
-                    return
+                t = dateutil_parser.parse(j["schedule_time"])
             else:
                 self.logger.error(
                     '[{}] Cannot parse schedule_time "{}" for trigger'.format(
@@ -590,7 +582,14 @@ class Scheduler:
                     )
                 )
                 return
-        t = dtlocalize(t, j.get("schedule_timezone"))
+            t = dtlocalize(t, j.get("schedule_timezone"))
+        except Exception:
+            self.logger.error(
+                '[{}] Invalid schedule_time "{}" for trigger'.format(
+                    job.name, j.get("schedule_time")
+                )
+            )
+            return
 
         if "environment" in j:
             try:
-- 
2.43.0


From 321ec4dc86af285550e6644ca9e2858cb93f490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 04/50] fix: read a trigger's schedule_time in its
 schedule_timezone

A time without an offset was taken as local time, and schedule_timezone
had no effect on when the run was started.
---
 dsari/daemon.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index de392b4..7203d3d 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -25,6 +25,11 @@ try:
 except ImportError as e:
     dateutil_parser = e
 
+try:
+    import dateutil.tz as dateutil_tz
+except ImportError as e:
+    dateutil_tz = e
+
 import dsari
 import dsari.config
 import dsari.database
@@ -575,6 +580,9 @@ class Scheduler:
                 t = epoch_to_dt(float(j["schedule_time"]))
             elif not isinstance(dateutil_parser, ImportError):
                 t = dateutil_parser.parse(j["schedule_time"])
+                if t.tzinfo is None and j.get("schedule_timezone") is not None:
+                    # A wall clock time in the given timezone
+                    t = t.replace(tzinfo=dateutil_tz.gettz(j["schedule_timezone"]))
             else:
                 self.logger.error(
                     '[{}] Cannot parse schedule_time "{}" for trigger'.format(
-- 
2.43.0


From ed151e9d6c81b743b7f912e7588e95c1480ada7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 05/50] fix: do not crash on YAML data which cannot be recorded
 as JSON

A date, a set or a recursive anchor in trigger.yaml or return_data.yaml
made json.dumps() raise out of the main loop when the run was recorded.
---
 dsari/daemon.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 7203d3d..3c1285a 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -6,6 +6,7 @@
 
 import argparse
 import copy
+import json
 import logging
 import math
 import os
@@ -514,9 +515,12 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
+                return_data = load_structured_file(
                     return_data_file, file_type=return_data_file_type
                 )
+                # e.g. YAML dates cannot be recorded in the database
+                json.dumps(return_data)
+                run.run_data["return_data"] = return_data
             except Exception:
                 pass
 
@@ -567,6 +571,12 @@ class Scheduler:
                 "[{}] Cannot load trigger: Data must be a dict".format(job.name)
             )
             return
+        try:
+            json.dumps(j)
+        except Exception as e:
+            # e.g. YAML dates, which cannot be recorded in the database
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
+            return
         if ("environment" in j) and (type(j["environment"]) != dict):
             self.logger.error(
                 "[{}] Cannot load trigger: environment must be a dict".format(job.name)
-- 
2.43.0


From a5fb5c9aea74f4da30ce5747c595c76490154ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 06/50] fix: do not count the core dump flag in the exit code

A run killed by SIGSEGV with a core dump was recorded as 267, not
128 + 11.
---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 3c1285a..d570635 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -50,7 +50,8 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        # Low 7 bits; the next one is the core dump flag
+        child_signal = child_exit & 0x7F
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From 8670cd06431eaaabbde40f5b4445ea77e5da4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 07/50] fix: reject names with a trailing newline and names
 which are not strings

"$" also matches before a final newline, and a YAML number as a job name
raised TypeError instead of ConfigError.
---
 dsari/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..e070305 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -74,13 +74,15 @@ class ConfigLoader:
         self.config = config
 
     def is_valid_name(self, job_name):
+        if type(job_name) != str:
+            return False
         if "/" in job_name:
             return False
         if job_name in (".", ".."):
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.search(r"^([- A-Za-z0-9_+.:@]+)\Z", job_name):
             return False
         return True
 
-- 
2.43.0


From 142e295ffaa893dc9c5646c069eff869e1b5159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 08/50] fix: reject a command which cannot be executed

A non-string argument, e.g. [sleep, 90] in YAML, passed the config check
and crashed the scheduler after the run had been started.
---
 dsari/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index e070305..cc7f8ca 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -245,6 +245,10 @@ class ConfigLoader:
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
         )
+        if len(job.command) == 0 or not all(type(x) == str for x in job.command):
+            raise ConfigError(
+                "Job {}: command must be a non-empty list of strings".format(job_name)
+            )
         if job.schedule is not None:
             try:
                 utils.get_next_schedule_time(job.schedule, job.name)
-- 
2.43.0


From dfb70dda33463b8b70b7144cf542e61706d5a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 09/50] fix: pass ChoiceLoader a list, so that template_dir can
 be used

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..6433649 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -94,8 +94,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From f690167d51480c822c71458a3c14b2dee4fff68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 10/50] fix: show run output which is not UTF-8, or which is
 missing

One run printing arbitrary bytes made every later dsari-render fail.
---
 dsari/info.py  | 2 +-
 dsari/utils.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..e2cc737 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -544,7 +544,7 @@ class Info:
             self.config.data_dir, "runs", run.job.name, run.id, "output.txt"
         )
         with AutoPager() as pager:
-            pager.write(dsari.utils.read_output(fn))
+            pager.write(dsari.utils.read_output(fn) or "")
 
     def cmd_tail_run_output(self):
         while True:
diff --git a/dsari/utils.py b/dsari/utils.py
index a9e1577..24039a1 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -157,14 +157,14 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From 9ddf8fb9a2cf61694b82ae8c952ca61c2c24fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 11/50] fix: default to SQLite if the database has no type, as
 documented

Also accept a database file in the current directory.
---
 dsari/database.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..b5db6cd 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -13,11 +13,12 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 
 
 def get_database(config):
-    if config.database["type"] == "postgresql":
+    database_type = config.database.get("type")
+    if database_type == "postgresql":
         return PostgreSQLDatabase(config)
-    elif config.database["type"] == "mysql":
+    elif database_type == "mysql":
         return MySQLDatabase(config)
-    elif config.database["type"] == "mongodb":
+    elif database_type == "mongodb":
         return MongoDBDatabase(config)
     else:
         return SQLite3Database(config)
@@ -489,7 +490,7 @@ class SQLite3Database(BaseSQLDatabase):
         if config.database["file"] is None:
             config.database["file"] = os.path.join(config.data_dir, "dsari.sqlite3")
         db_dir = os.path.dirname(config.database["file"])
-        if not os.path.exists(db_dir):
+        if db_dir and not os.path.exists(db_dir):
             os.makedirs(db_dir)
         self.config = config
         self.db_conn = sqlite3.connect(config.database["file"])
-- 
2.43.0


From c136c02c340d10020743ea526be8dd9539bead83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 12/50] fix: keep hashed positions within their range and step

The offset of H/n was taken from n + 1 values, so every (n + 1)th job
skipped its last position: H/15 could be 15-59/15, i.e. 15,30,45.
H(a-b)/n could start after b, and H(0-0) and H/1 used the whole range.
---
 dsari/croniter_hash.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..f116bc6 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -30,7 +30,7 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
         if not range_begin:
             range_begin = self.RANGES[position][0]
@@ -75,8 +75,13 @@ class croniter_hash(croniter.croniter):
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
             return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
+                self._hash_do(
+                    id,
+                    idx,
+                    min(int(m.group(2)) + int(m.group(4)) - 1, int(m.group(3))),
+                    int(m.group(2)),
+                    hash_type=m.group(1),
+                ),
                 int(m.group(3)),
                 int(m.group(4)),
             )
@@ -94,7 +99,14 @@ class croniter_hash(croniter.croniter):
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
             return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
+                self._hash_do(
+                    id,
+                    idx,
+                    min(
+                        self.RANGES[idx][0] + int(m.group(2)) - 1, self.RANGES[idx][1]
+                    ),
+                    hash_type=m.group(1),
+                ),
                 self.RANGES[idx][1],
                 int(m.group(2)),
             )
-- 
2.43.0


From 1a2ee50e542d491fdf815bc407cef9c19bfa4922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 13/50] fix: support RRULE schedules with UNTIL

The config check used a time without a timezone and the scheduler one
with, so UNTIL with a "Z" was always rejected, and UNTIL without one was
accepted and then crashed the scheduler.
---
 dsari/config.py | 6 +++++-
 dsari/utils.py  | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index cc7f8ca..8558df5 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -251,7 +251,11 @@ class ConfigLoader:
             )
         if job.schedule is not None:
             try:
-                utils.get_next_schedule_time(job.schedule, job.name)
+                utils.get_next_schedule_time(
+                    job.schedule,
+                    job.name,
+                    start_time=utils.dtnow(job.schedule_timezone),
+                )
             except Exception as e:
                 raise ConfigError(
                     "Job {}: Invalid schedule ({}): {}: {}".format(
diff --git a/dsari/utils.py b/dsari/utils.py
index 24039a1..8658758 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -133,9 +134,15 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
+        tz = start_time.tzinfo
+        if re.search(r"UNTIL=[0-9T]+(;|$)", schedule.upper()):
+            # dateutil only accepts an UNTIL without "Z" (i.e. in local time)
+            # if the other times have no timezone either
+            hashed_epoch = hashed_epoch.replace(tzinfo=None)
+            start_time = start_time.replace(tzinfo=None)
         t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
         if t is not None:
-            t = t + subsecond_offset
+            t = t.replace(tzinfo=tz) + subsecond_offset
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
-- 
2.43.0


From fc1b99961146c531366bd6cc68eb0660804afa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 14/50] fix: reject unknown timezones

A misspelled schedule_timezone was silently taken as the local timezone.
---
 dsari/config.py |  2 +-
 dsari/daemon.py | 13 ++++++-------
 dsari/utils.py  |  7 +++++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 8558df5..df2a34f 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -229,7 +229,7 @@ class ConfigLoader:
             "concurrent_runs": (bool,),
         }
         value_transforms = {
-            "schedule_timezone": utils.dateutil_tz.gettz,
+            "schedule_timezone": utils.get_timezone,
             "max_execution": utils.seconds_to_td,
             "max_execution_grace": utils.seconds_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
diff --git a/dsari/daemon.py b/dsari/daemon.py
index d570635..50d1c38 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -26,11 +26,6 @@ try:
 except ImportError as e:
     dateutil_parser = e
 
-try:
-    import dateutil.tz as dateutil_tz
-except ImportError as e:
-    dateutil_tz = e
-
 import dsari
 import dsari.config
 import dsari.database
@@ -39,6 +34,7 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 from dsari.utils import seconds_to_td, td_to_seconds
 from dsari.utils import (
     get_next_schedule_time,
+    get_timezone,
     load_structured_file,
     validate_environment_dict,
     yaml,
@@ -593,7 +589,7 @@ class Scheduler:
                 t = dateutil_parser.parse(j["schedule_time"])
                 if t.tzinfo is None and j.get("schedule_timezone") is not None:
                     # A wall clock time in the given timezone
-                    t = t.replace(tzinfo=dateutil_tz.gettz(j["schedule_timezone"]))
+                    t = t.replace(tzinfo=get_timezone(j["schedule_timezone"]))
             else:
                 self.logger.error(
                     '[{}] Cannot parse schedule_time "{}" for trigger'.format(
@@ -601,7 +597,10 @@ class Scheduler:
                     )
                 )
                 return
-            t = dtlocalize(t, j.get("schedule_timezone"))
+            if j.get("schedule_timezone") is not None:
+                t = dtlocalize(t, get_timezone(j["schedule_timezone"]))
+            else:
+                t = dtlocalize(t)
         except Exception:
             self.logger.error(
                 '[{}] Invalid schedule_time "{}" for trigger'.format(
diff --git a/dsari/utils.py b/dsari/utils.py
index 8658758..3de79c9 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -99,6 +99,13 @@ def dtlocalize(dt, tz=None):
         return dt.astimezone()
 
 
+def get_timezone(name):
+    tz = dateutil_tz.gettz(name)
+    if tz is None:
+        raise ValueError("Unknown timezone {}".format(repr(name)))
+    return tz
+
+
 def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
-- 
2.43.0


From 1e9ee2ff7eebea2396fdff89c62dfdd51a2ab243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 15/50] fix: define the documented variables in the plain
 Python shell

---
 dsari/info.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index e2cc737..7f639a1 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -605,9 +605,8 @@ class Info:
             class DsariConsole(code.InteractiveConsole):
                 pass
 
-            console_vars = vars.copy().update(
-                {"__name__": "__console__", "__doc__": None}
-            )
+            console_vars = vars.copy()
+            console_vars.update({"__name__": "__console__", "__doc__": None})
             print(banner, end="")
             DsariConsole(locals=console_vars).interact()
 
-- 
2.43.0


From 52ae24f60e5e63b8040f180e91edb472474cadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 16/50] fix: make the output of dsari-info config dump
 loadable, as documented

Unset options are dumped as null, which the config loader rejected, and
schedule_timezone was not dumped.
---
 dsari/__init__.py | 1 +
 dsari/config.py   | 4 ++++
 dsari/info.py     | 1 +
 3 files changed, 6 insertions(+)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index be07f6a..1d11016 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -31,6 +31,7 @@ class Job(object):
         self.command = []
         self.schedule = None
         self.schedule_timezone = utils.dtnow().tzinfo
+        self.schedule_timezone_name = None
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
diff --git a/dsari/config.py b/dsari/config.py
index df2a34f..765ee90 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -128,6 +128,9 @@ class ConfigLoader:
         for k, v in source.items():
             if k not in valid_values:
                 continue
+            if v is None:
+                # The default value
+                continue
             if type(v) not in valid_values[k]:
                 raise ConfigError(
                     "{}: {}: Invalid value {} (expected {})".format(
@@ -245,6 +248,7 @@ class ConfigLoader:
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
         )
+        job.schedule_timezone_name = job_dict.get("schedule_timezone")
         if len(job.command) == 0 or not all(type(x) == str for x in job.command):
             raise ConfigError(
                 "Job {}: command must be a non-empty list of strings".format(job_name)
diff --git a/dsari/info.py b/dsari/info.py
index 7f639a1..b65a682 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -310,6 +310,7 @@ class Info:
                 "command": job.command,
                 "command_append_run": job.command_append_run,
                 "schedule": job.schedule,
+                "schedule_timezone": job.schedule_timezone_name,
                 "next_scheduled_run": (
                     get_next_schedule_time(
                         job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
-- 
2.43.0


From 516ba5e09549ad37491380b8d4e5429756b9beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 17/50] fix: show the latest run as the last run of a job in
 the index

Databases return rows in any order.
---
 dsari/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6433649..752faec 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -138,7 +138,7 @@ class Renderer:
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
         runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
-        for run in runs:
+        for run in sorted(runs, key=lambda run: run.stop_time):
             self.render_run(run)
 
     def render_run(self, run):
-- 
2.43.0


From cdc9182ef7c5df6b677b13ef6af1151dd40639b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 18/50] fix: only handle signals while the main loop is waiting

The handlers replace the jobs, runs and groups which the main loop may be
in the middle of using. A SIGTERM or SIGHUP while runs were being started
could start runs after the shutdown had begun, run a job twice at the same
time, or crash the scheduler; one between os.fork() and the reset of the
handlers ran them in the child.
---
 dsari/daemon.py | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 50d1c38..ec4ce7e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -43,6 +43,28 @@ from dsari.utils import (
 __version__ = dsari.__version__
 
 
+HANDLED_SIGNALS = (
+    signal.SIGHUP,
+    signal.SIGINT,
+    signal.SIGTERM,
+    signal.SIGQUIT,
+    signal.SIGUSR1,
+)
+
+
+def signal_sleep(seconds):
+    """Sleep, handling signals meanwhile.
+
+    HANDLED_SIGNALS are blocked at all other times: their handlers replace the
+    jobs and runs which the main loop is working on.
+    """
+    signal.pthread_sigmask(signal.SIG_UNBLOCK, HANDLED_SIGNALS)
+    try:
+        time.sleep(seconds)
+    finally:
+        signal.pthread_sigmask(signal.SIG_BLOCK, HANDLED_SIGNALS)
+
+
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
@@ -56,7 +78,7 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             return (child_pid, child_exit, child_resource)
         if dtnow() >= deadline:
             return (child_pid, child_exit, child_resource)
-        time.sleep(interval)
+        signal_sleep(interval)
 
 
 def backoff(a, b, min=5.0, max=300.0):
@@ -135,13 +157,8 @@ class Scheduler:
 
         self.reset_jobs()
 
-        for signum in (
-            signal.SIGHUP,
-            signal.SIGINT,
-            signal.SIGTERM,
-            signal.SIGQUIT,
-            signal.SIGUSR1,
-        ):
+        signal.pthread_sigmask(signal.SIG_BLOCK, HANDLED_SIGNALS)
+        for signum in HANDLED_SIGNALS:
             signal.signal(signum, self.signal_handler)
 
         self.logger.info("Scheduler running")
@@ -339,6 +356,7 @@ class Scheduler:
         # Reset all handled signals to default
         for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):
             signal.signal(signum, signal.SIG_DFL)
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, HANDLED_SIGNALS)
 
         # Put the child in its own process group to prevent SIGINT from
         # propagating to the children
@@ -754,6 +772,7 @@ class Scheduler:
 
     def loop(self):
         while True:
+            signal_sleep(0)
             self.wakeups = []
             self.process_triggers()
 
@@ -787,9 +806,9 @@ class Scheduler:
                     if self.next_wakeup <= now:
                         break
                     elif (self.next_wakeup - now) < seconds_to_td(1):
-                        time.sleep(td_to_seconds(self.next_wakeup - now))
+                        signal_sleep(td_to_seconds(self.next_wakeup - now))
                     else:
-                        time.sleep(1)
+                        signal_sleep(1)
 
 
 def main():
-- 
2.43.0


From 38f176b2da118a2b7fc01c0b075c3b99b3af58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 19/50] fix: keep running with the current configuration if a
 reload fails

An invalid configuration raised out of the signal handler, which ended
the scheduler and left its runs unattended.
---
 dsari/daemon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index ec4ce7e..d2c7ede 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -215,7 +215,13 @@ class Scheduler:
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot reload, keeping the current configuration: {}".format(e)
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From eaa5452002d06954a357a1c37e421e76f10723ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 20/50] fix: wake up for the next run of a job whose run was
 just started

If other runs were running, it was only noticed up to a minute late.
---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index d2c7ede..69bd1dc 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -764,6 +764,7 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            self.wakeups.append(run.schedule_time)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From 0ddc43c6ca03cd4b3c9eb0f443ebf483f4ab7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 21/50] fix: notice signals while waiting for running runs

SIGUSR1 and SIGHUP are meant to end the wait, as they do if nothing is
running, and shutdown_kill_grace was exceeded by up to a minute.
---
 dsari/daemon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 69bd1dc..693e84b 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -65,7 +65,7 @@ def signal_sleep(seconds):
         signal.pthread_sigmask(signal.SIG_BLOCK, HANDLED_SIGNALS)
 
 
-def wait_deadline(pid, options, deadline, interval=0.05):
+def wait_deadline(pid, options, get_deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
         # Low 7 bits; the next one is the core dump flag
@@ -76,7 +76,7 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        if dtnow() >= get_deadline():
             return (child_pid, child_exit, child_resource)
         signal_sleep(interval)
 
@@ -499,7 +499,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, lambda: self.next_wakeup
         )
         if child_pid == 0:
             return child_pid
-- 
2.43.0


From f0fc564e15751e41b608ea3d20fb9e0e9d11e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 22/50] fix: refuse a command which cannot be split as an
 invalid configuration

---
 dsari/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index 765ee90..11fc381 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -243,7 +243,10 @@ class ConfigLoader:
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
-            job_dict["command"] = shlex.split(job_dict["command"])
+            try:
+                job_dict["command"] = shlex.split(job_dict["command"])
+            except ValueError as e:
+                raise ConfigError("Job {}: Invalid command: {}".format(job_name, e))
         job = dsari.Job(job_name)
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
-- 
2.43.0


From 9cc0e07ca940cd9ceae671e55869656dd1697016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 23/50] fix: allow more than one space between the items of a
 schedule

---
 dsari/croniter_hash.py | 2 +-
 dsari/utils.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index f116bc6..f78829f 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -61,7 +61,7 @@ class croniter_hash(croniter.croniter):
             expr_format = "H H H H * H"
 
         expr_expanded = []
-        for item in expr_format.split(" "):
+        for item in expr_format.split():
             idx = len(expr_expanded)
             expr_expanded.append(self._hash_expand_item(item, id, idx))
         return " ".join(expr_expanded)
diff --git a/dsari/utils.py b/dsari/utils.py
index 3de79c9..1e54608 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -153,7 +153,7 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
-    if len(schedule.split(" ")) == 5:
+    if len(schedule.split()) == 5:
         schedule = schedule + " H"
     t = (
         croniter_hash.croniter_hash(
-- 
2.43.0


From d739f2bf06c5e2db57fc1db448ac7ab0581598de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 24/50] fix: apply both filters when runs are listed by job and
 by id

---
 dsari/database.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index b5db6cd..9ed4d38 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -273,15 +273,14 @@ class BaseSQLDatabase(BaseDatabase):
         pass
 
     def get_runs(self, job_names=None, run_ids=None, runs_running=False):
-        if run_ids is not None:
-            where = "run_id"
-            where_in = run_ids
-        elif job_names is not None:
-            where = "job_name"
-            where_in = job_names
-        else:
-            where = None
-            where_in = []
+        where = []
+        where_in = []
+        for column, values in (("run_id", run_ids), ("job_name", job_names)):
+            if values is not None:
+                where.append(
+                    "{} in ({})".format(column, ",".join(["{}"] * len(values)))
+                )
+                where_in += values
         if runs_running:
             table_name = "runs_running"
         else:
@@ -295,12 +294,12 @@ class BaseSQLDatabase(BaseDatabase):
         """.format(
             table_name
         )
-        if where is not None:
+        if where:
             sql_statement += """
                 WHERE
-                    {} in ({})
+                    {}
             """.format(
-                where, ",".join(["{}"] * len(where_in))
+                " AND ".join(where)
             )
         sql_statement = self._modify_statement(sql_statement)
         cur = self.db_conn.cursor()
@@ -685,12 +684,11 @@ class MongoDBDatabase(BaseDatabase):
         self.db.runs_running.delete_many({})
 
     def get_runs(self, job_names=None, run_ids=None, runs_running=False):
+        where = {}
         if run_ids is not None:
-            where = {"run_id": {"$in": run_ids}}
-        elif job_names is not None:
-            where = {"job_name": {"$in": job_names}}
-        else:
-            where = {}
+            where["run_id"] = {"$in": run_ids}
+        if job_names is not None:
+            where["job_name"] = {"$in": job_names}
 
         if runs_running:
             collection_name = "runs_running"
-- 
2.43.0


From 18086e09360650bbd81742ded270a52baeb881b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 25/50] fix: list no runs, and send no invalid statement, if
 asked for those of no jobs

---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index 9ed4d38..6dafc79 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -277,6 +277,9 @@ class BaseSQLDatabase(BaseDatabase):
         where_in = []
         for column, values in (("run_id", run_ids), ("job_name", job_names)):
             if values is not None:
+                if not values:
+                    # "in ()" is not valid everywhere
+                    return []
                 where.append(
                     "{} in ({})".format(column, ",".join(["{}"] * len(values)))
                 )
-- 
2.43.0


From fb33446201e2135d6b9a47e65e8f58018c81886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:29 +0000
Subject: [PATCH 26/50] fix: do not miss a run in dsari-info which ends while
 runs are looked up

---
 dsari/info.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index b65a682..a1f48c5 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -421,9 +421,13 @@ class Info:
     def cmd_list_runs(self):
         job_names = self.args.job
         run_ids = self.args.run
-        runs = self.db.get_runs(
-            job_names=job_names, run_ids=run_ids, runs_running=False
-        ) + self.db.get_runs(job_names=job_names, run_ids=run_ids, runs_running=True)
+        # A run which ends meanwhile is found in both
+        runs_running = self.db.get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=True
+        )
+        runs = self.db.get_runs(job_names=job_names, run_ids=run_ids)
+        run_ids_ended = [run.id for run in runs]
+        runs += [run for run in runs_running if run.id not in run_ids_ended]
         if self.args.format in ("json", "yaml"):
             out = {}
             for run in runs:
@@ -535,9 +539,9 @@ class Info:
 
     def cmd_get_run_output(self):
         run_id = self.args.run
-        runs = self.db.get_runs(run_ids=[run_id])
+        runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
         if len(runs) == 0:
-            runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
+            runs = self.db.get_runs(run_ids=[run_id])
             if len(runs) == 0:
                 self.args.parser.error("Cannot find run ID {}".format(run_id))
         run = runs[0]
-- 
2.43.0


From 897fb72f64d366d6a1188f674ac7996abb9dd61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:39 +0000
Subject: [PATCH 27/50] fix: end the transaction in which runs were listed, so
 that later lists are current

---
 dsari/database.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index 6dafc79..1e4ba1a 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -321,6 +321,8 @@ class BaseSQLDatabase(BaseDatabase):
                 fake_jobs[db_result["job_name"]] = job
             runs.append(self._build_run_from_result(job, db_result))
         cur.close()
+        # End the transaction, or MySQL would show the same state next time
+        self.db_conn.commit()
         return runs
 
 
-- 
2.43.0


From 8ed1211fd6102e11f74272f0fa456e0e75926030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:51 +0000
Subject: [PATCH 28/50] fix: let a changed configuration take effect once a run
 is complete, as documented

---
 dsari/daemon.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 693e84b..d8b205f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -329,13 +329,13 @@ class Scheduler:
 
     def process_run_execution_time(self, run):
         job = run.job
-        if not job.max_execution:
+        if not run.max_execution:
             return
-        sigterm_grace = job.max_execution_grace
+        sigterm_grace = run.max_execution_grace
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
         delta = now - run.start_time
-        if delta > (job.max_execution + sigterm_grace):
+        if delta > (run.max_execution + sigterm_grace):
             if not run.kill_sent:
                 self.logger.warning(
                     "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
@@ -345,18 +345,18 @@ class Scheduler:
                 os.kill(run.pid, signal.SIGKILL)
                 run.kill_sent = True
             self.wakeups.append(now + sigkill_grace)
-        elif delta > job.max_execution:
+        elif delta > run.max_execution:
             if not run.term_sent:
                 self.logger.warning(
                     "[{} {}] Max execution ({}) exceeded, sending SIGTERM to {}".format(
-                        job.name, run.id, job.max_execution, run.pid
+                        job.name, run.id, run.max_execution, run.pid
                     )
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
             self.wakeups.append(now + sigterm_grace)
         else:
-            self.wakeups.append(run.start_time + job.max_execution)
+            self.wakeups.append(run.start_time + run.max_execution)
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
@@ -729,6 +729,9 @@ class Scheduler:
         run.start_time = now
         run.term_sent = False
         run.kill_sent = False
+        # A reload may change those of the job
+        run.max_execution = job.max_execution
+        run.max_execution_grace = job.max_execution_grace
 
         self.db.insert_running_run(run)
 
-- 
2.43.0


From 9669a4896f7a08b42fed2c967352e8db5401f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 29/50] fix: do not reload the exporter's configuration while
 it collects metrics

---
 dsari/prometheus_exporter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 3bc4504..ed0efd0 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -377,6 +377,7 @@ class Prometheus:
 class PrometheusHandler:
     def __init__(self, prom):
         self.prom = prom
+        self.reload = False
         self.logger = logging.getLogger()
         self.logger.setLevel(logging.DEBUG)
         lh_console = logging.StreamHandler()
@@ -395,10 +396,15 @@ class PrometheusHandler:
 
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
+            # The configuration may be in use at this point
+            self.reload = True
+
+    def __call__(self, environ, start_response):
+        if self.reload:
+            self.reload = False
             self.logger.info("SIGHUP received, reloading")
             self.prom.load_config()
 
-    def __call__(self, environ, start_response):
         self.environ = environ
         self.start_response = start_response
         self.query_params = {}
-- 
2.43.0


From 4d6bfecaef4d5a6cb597a303a42c3d6e9f6d818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 30/50] fix: keep exporting with the current configuration if a
 reload fails

---
 dsari/prometheus_exporter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index ed0efd0..5ee3007 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -403,7 +403,12 @@ class PrometheusHandler:
         if self.reload:
             self.reload = False
             self.logger.info("SIGHUP received, reloading")
-            self.prom.load_config()
+            try:
+                self.prom.load_config()
+            except Exception:
+                self.logger.exception(
+                    "Cannot reload, continuing with the current configuration"
+                )
 
         self.environ = environ
         self.start_response = start_response
-- 
2.43.0


From d71079850f6f2bf3d8181d2d3ab8de2130b0732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 31/50] fix: do not show a missing run output as "None" in
 reports

---
 dsari/templates/run.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/templates/run.html b/dsari/templates/run.html
index d97c1d9..33c62e3 100644
--- a/dsari/templates/run.html
+++ b/dsari/templates/run.html
@@ -33,7 +33,7 @@
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}><th>Exit code</th><td>{{ run.exit_code }}</td></tr>
 </table>
 <h2>Run Output</h2>
-<pre>{{ run.output }}</pre>
+<pre>{{ run.output if run.output is not none }}</pre>
 </div>
 <!-- Generated {{ now }} --> 
 </body>
-- 
2.43.0


From 34b71871dadab8ef5105015fcd1a50bf9d120d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 32/50] fix: write the report pages of jobs without runs, which
 the index links to

---
 dsari/render.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 752faec..c832423 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -194,10 +194,20 @@ class Renderer:
         self.job_template = self.templates.get_template("job.html")
         for job in self.jobs:
             if job not in self.jobs_written:
-                if not self.args.regenerate:
-                    continue
+                # The index links to the page of every job, with runs or without
+                if os.path.isfile(self.job_html_filename(job)):
+                    if not self.args.regenerate:
+                        continue
             self.render_job(job)
 
+    def job_html_filename(self, job):
+        job_html_filename = os.path.join(
+            self.config.data_dir, "html", job.name, "index.html"
+        )
+        if self.config.report_html_gz:
+            job_html_filename = "{}.gz".format(job_html_filename)
+        return job_html_filename
+
     def render_job(self, job):
         context = {
             "job": job,
@@ -207,11 +217,7 @@ class Renderer:
         }
         if not os.path.exists(os.path.join(self.config.data_dir, "html", job.name)):
             os.makedirs(os.path.join(self.config.data_dir, "html", job.name))
-        job_html_filename = os.path.join(
-            self.config.data_dir, "html", job.name, "index.html"
-        )
-        if self.config.report_html_gz:
-            job_html_filename = "{}.gz".format(job_html_filename)
+        job_html_filename = self.job_html_filename(job)
         self.logger.info("Writing {}".format(job_html_filename))
         write_html_file(job_html_filename, self.job_template.render(context))
 
-- 
2.43.0


From 196d85c9907c8c9ff06c9dbb1932908729552467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 33/50] fix: never leave partially written report pages behind

---
 dsari/render.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index c832423..e9aecbf 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -66,12 +66,14 @@ def parse_args():
 
 
 def write_html_file(filename, content):
+    # An existing page is not written again, so it must never be a partial one
+    temp_filename = "{}.tmp{}".format(filename, os.getpid())
+    data = content.encode("utf-8")
     if filename.endswith(".gz"):
-        with gzip.open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
-    else:
-        with open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+        data = gzip.compress(data)
+    with open(temp_filename, "wb") as f:
+        f.write(data)
+    os.replace(temp_filename, filename)
 
 
 class Renderer:
@@ -228,8 +230,7 @@ class Renderer:
         css_filename = os.path.join(base_dir, "darkly.min.css")
         if not os.path.exists(css_filename):
             css_template = self.templates.get_template("darkly.min.css")
-            with open(css_filename, "wb") as f:
-                f.write(css_template.render({}).encode("utf-8"))
+            write_html_file(css_filename, css_template.render({}))
         self.index_template = self.templates.get_template("index.html")
         if (len(self.jobs_written) > 0) or self.args.regenerate:
             context = {
-- 
2.43.0


From 9955248e2a8d70b8e4451207436da4e4bd9e9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 34/50] fix: list new jobs in the report index as soon as they
 have a page

---
 dsari/render.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index e9aecbf..6821dc6 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -197,9 +197,10 @@ class Renderer:
         for job in self.jobs:
             if job not in self.jobs_written:
                 # The index links to the page of every job, with runs or without
-                if os.path.isfile(self.job_html_filename(job)):
-                    if not self.args.regenerate:
-                        continue
+                if not os.path.isfile(self.job_html_filename(job)):
+                    self.jobs_written.append(job)
+                elif not self.args.regenerate:
+                    continue
             self.render_job(job)
 
     def job_html_filename(self, job):
-- 
2.43.0


From a801185438cdfad44f694de270dd6de29e43b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 35/50] fix: do not repeat parts of a run's output in reports

---
 dsari/render.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6821dc6..bfac47e 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -172,11 +172,7 @@ class Renderer:
         if (
             (raw_output is not None)
             and (limit_start > 0 or limit_end > 0)
-            and (
-                raw_len > limit_combined
-                or (raw_len > limit_start and limit_start > 0)
-                or (raw_len > limit_end and limit_end > 0)
-            )
+            and raw_len > limit_combined
         ):
             run.output = ""
             if limit_start > 0:
-- 
2.43.0


From f3f11ab07d193dac1b9878acdf509d57d751c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 36/50] fix: keep the times of runs recorded with MySQL and
 PostgreSQL

Their columns have no offset: times in a job's timezone were read back as
local ones, and dsari-info could not compare them with the current time.
---
 dsari/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 1e4ba1a..b0ae5ff 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -67,7 +67,10 @@ class BaseSQLDatabase(BaseDatabase):
     def _build_insert(self, pairs):
         out = []
         for (k, v) in pairs:
-            if k in ("trigger_data", "run_data"):
+            if k in ("schedule_time", "start_time", "stop_time"):
+                # Stored without an offset, so all are stored in local time
+                out.append(v.astimezone().replace(tzinfo=None))
+            elif k in ("trigger_data", "run_data"):
                 out.append(json.dumps(v))
             else:
                 out.append(v)
@@ -81,7 +84,7 @@ class BaseSQLDatabase(BaseDatabase):
             if type(f[k]) in (int, float):
                 setattr(run, k, epoch_to_dt(f[k]).astimezone())
             else:
-                setattr(run, k, f[k])
+                setattr(run, k, f[k].astimezone())
         if "exit_code" in f.keys():
             run.exit_code = f["exit_code"]
         run.trigger_type = f["trigger_type"]
-- 
2.43.0


From 25f4b505cb199ec61b7bab5e0160576510d8cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 37/50] fix: read the times of runs recorded with MongoDB as
 UTC

MongoDB returns UTC without an offset, which was taken for local time;
dsari-info could not compare it with the current time.
---
 dsari/database.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsari/database.py b/dsari/database.py
index b0ae5ff..b878ea0 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -5,6 +5,7 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import copy
+import datetime
 import json
 import os
 
@@ -623,7 +624,13 @@ class MongoDBDatabase(BaseDatabase):
         ):
             if k not in f:
                 continue
-            setattr(run, k, f[k])
+            v = f[k]
+            if isinstance(v, datetime.datetime):
+                if v.tzinfo is None:
+                    # MongoDB stores UTC
+                    v = v.replace(tzinfo=datetime.timezone.utc)
+                v = v.astimezone()
+            setattr(run, k, v)
         return run
 
     def get_previous_runs(self, job):
-- 
2.43.0


From 2a0deae8492ecf19fb037314edb1be42d6d68420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 38/50] fix: keep return data and trigger data of more than 64
 KB with MySQL

A longer one could not be recorded, which ended the scheduler.
---
 dsari/database.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index b878ea0..ff57cb5 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -445,8 +445,8 @@ class MySQLDatabase(BaseSQLDatabase):
                     stop_time datetime(6) NOT NULL,
                     exit_code tinyint unsigned NOT NULL,
                     trigger_type varchar(127) NOT NULL,
-                    trigger_data text NOT NULL,
-                    run_data text NOT NULL
+                    trigger_data longtext NOT NULL,
+                    run_data longtext NOT NULL
                 )
             """
             cur = self.db_conn.cursor()
@@ -477,8 +477,8 @@ class MySQLDatabase(BaseSQLDatabase):
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
                     trigger_type varchar(127) NOT NULL,
-                    trigger_data text NOT NULL,
-                    run_data text NOT NULL
+                    trigger_data longtext NOT NULL,
+                    run_data longtext NOT NULL
                 )
             """
             cur = self.db_conn.cursor()
-- 
2.43.0


From 9aff19a8fb689d022892aecc55a6f5bdb42952ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:03 +0000
Subject: [PATCH 39/50] fix: wake up in time for SIGKILL when the grace time of
 max_execution is over

Each turn of the loop within the grace time put the wakeup off by the
whole grace time, so that SIGKILL could come up to a minute late.
---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index d8b205f..f0a090e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -354,7 +354,7 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
+            self.wakeups.append(run.start_time + run.max_execution + sigterm_grace)
         else:
             self.wakeups.append(run.start_time + run.max_execution)
 
-- 
2.43.0


From 4cd5d2413cb06cada2c4c49d1375bf1fdf7f2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 40/50] fix: handle no signal while another one is handled

A SIGTERM or SIGINT which came while SIGHUP was handled began the shutdown in
the middle of the reload, which then queued runs again: they were started
during the shutdown.
---
 dsari/daemon.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index f0a090e..a1dbe4b 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -206,6 +206,14 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
+        # Signals which come meanwhile wait for this one
+        mask = signal.pthread_sigmask(signal.SIG_BLOCK, HANDLED_SIGNALS)
+        try:
+            self.handle_signal(signum)
+        finally:
+            signal.pthread_sigmask(signal.SIG_SETMASK, mask)
+
+    def handle_signal(self, signum):
         self.next_wakeup = dtnow()
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
-- 
2.43.0


From 120aa0f0d2ac07958de3bcff590ff368abe295bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:23 +0000
Subject: [PATCH 41/50] fix: tell job names apart by case in MySQL

MySQL's default collations ignore case, so the previous runs of a job
included those of another one whose name differs only in case, and
dsari-info and the exporter listed them for both.
---
 dsari/database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index ff57cb5..e2e4bac 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -438,7 +438,7 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_exists:
             sql_statement = """
                 CREATE TABLE runs (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
@@ -472,7 +472,7 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_running_exists:
             sql_statement = """
                 CREATE TABLE runs_running (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
-- 
2.43.0


From 10cae5f00e4957d330113234f382ffde3ed818e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:21 +0000
Subject: [PATCH 42/50] fix: take NaN in trigger and return data as invalid

NaN and Infinity are not JSON, and PostgreSQL does not accept them: a
run with such data could not be recorded, which ended the scheduler.
---
 dsari/daemon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index a1dbe4b..7b299b7 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -547,8 +547,8 @@ class Scheduler:
                 return_data = load_structured_file(
                     return_data_file, file_type=return_data_file_type
                 )
-                # e.g. YAML dates cannot be recorded in the database
-                json.dumps(return_data)
+                # e.g. YAML dates and NaN cannot be recorded in the database
+                json.dumps(return_data, allow_nan=False)
                 run.run_data["return_data"] = return_data
             except Exception:
                 pass
@@ -601,9 +601,9 @@ class Scheduler:
             )
             return
         try:
-            json.dumps(j)
+            json.dumps(j, allow_nan=False)
         except Exception as e:
-            # e.g. YAML dates, which cannot be recorded in the database
+            # e.g. YAML dates and NaN, which cannot be recorded in the database
             self.logger.error("[{}] Cannot load trigger: {}".format(job.name, str(e)))
             return
         if ("environment" in j) and (type(j["environment"]) != dict):
-- 
2.43.0


From cee60db61f651701fb467abde6df4a6dd246adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 43/50] fix: refuse configurations of a wrong structure with a
 ConfigError

Jobs, groups or files which are no mappings, and lists which are no
lists, ended dsari-info config check and the start of the daemon with a
traceback, or, as with "job_names: web", configured jobs "w", "e" and
"b".  Sections without content are empty now, as is a file with
comments only, which made the others' configuration disappear.
---
 dsari/config.py | 81 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 25 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 11fc381..7ccb67c 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -86,21 +86,34 @@ class ConfigLoader:
             return False
         return True
 
+    def check_type(self, level, value, expected):
+        if type(value) != expected:
+            raise ConfigError(
+                "{}: Invalid value {} (expected {})".format(
+                    level, repr(type(value)), repr(expected)
+                )
+            )
+
+    def load_file(self, config, file, file_type):
+        try:
+            file_config = utils.load_structured_file(file, file_type=file_type)
+        except (ValueError, ImportError) as e:
+            raise ConfigError(e)
+        if file_config is None:
+            # Empty, or comments only
+            return config
+        self.check_type(file, file_config, dict)
+        return utils.dict_merge(config, file_config)
+
     def load_dir(self, config_dir=DEFAULT_CONFIG_DIR):
         config = {}
         for fn, fn_type in [("dsari.yaml", "yaml"), ("dsari.json", "json")]:
             if os.path.exists(os.path.join(config_dir, fn)):
-                try:
-                    config = utils.dict_merge(
-                        config,
-                        utils.load_structured_file(
-                            os.path.join(config_dir, fn), file_type=fn_type
-                        ),
-                    )
-                except (ValueError, ImportError) as e:
-                    raise ConfigError(e)
+                config = self.load_file(config, os.path.join(config_dir, fn), fn_type)
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
+            if config["config_d"] is not None:
+                self.check_type("config_d", config["config_d"], str)
             self.config.config_d = config["config_d"]
         if self.config.config_d and os.path.isdir(self.config.config_d):
             config_d = self.config.config_d
@@ -115,12 +128,7 @@ class ConfigLoader:
                 ]
                 config_files.sort()
                 for file in config_files:
-                    try:
-                        config = utils.dict_merge(
-                            config, utils.load_structured_file(file, file_type=fn_type)
-                        )
-                    except (ValueError, ImportError) as e:
-                        raise ConfigError(e)
+                    config = self.load_file(config, file, fn_type)
 
         self.load(config)
 
@@ -170,8 +178,9 @@ class ConfigLoader:
         )
 
     def build_concurrency_groups(self, config):
-        if "concurrency_groups" not in config:
+        if config.get("concurrency_groups") is None:
             return
+        self.check_type("concurrency_groups", config["concurrency_groups"], dict)
 
         valid_values = {"max": (int,)}
         value_transforms = {}
@@ -183,6 +192,13 @@ class ConfigLoader:
                 raise ConfigError(
                     "Concurrency group {}: Invalid name".format(concurrency_group_name)
                 )
+            if concurrency_group_dict is None:
+                concurrency_group_dict = {}
+            self.check_type(
+                "Concurrency group {}".format(concurrency_group_name),
+                concurrency_group_dict,
+                dict,
+            )
             concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
             self.populate_object(
                 concurrency_group,
@@ -195,21 +211,31 @@ class ConfigLoader:
 
     def build_jobs(self, config):
         jobs = {}
-        if "jobs" in config:
+        if config.get("jobs") is not None:
             jobs = config["jobs"]
+        self.check_type("jobs", jobs, dict)
         job_groups = {}
-        if "job_groups" in config:
+        if config.get("job_groups") is not None:
             job_groups = config["job_groups"]
+        self.check_type("job_groups", job_groups, dict)
 
         for job_group_name, job_group_dict in job_groups.items():
             if not self.is_valid_name(job_group_name):
                 raise ConfigError("Job group {}: Invalid name".format(job_group_name))
+            self.check_type("Job group {}".format(job_group_name), job_group_dict, dict)
             job_template = copy.deepcopy(job_group_dict)
             if "job_names" not in job_template:
                 raise ConfigError(
                     "Job group {}: job_names required".format(job_group_name)
                 )
+            self.check_type(
+                "Job group {}: job_names".format(job_group_name),
+                job_template["job_names"],
+                list,
+            )
             for job_name in job_template["job_names"]:
+                if not self.is_valid_name(job_name):
+                    raise ConfigError("Job {}: Invalid name".format(job_name))
                 jobs[job_name] = copy.deepcopy(job_template)
                 jobs[job_name]["job_group"] = job_group_name
                 del jobs[job_name]["job_names"]
@@ -240,6 +266,7 @@ class ConfigLoader:
 
         if not self.is_valid_name(job_name):
             raise ConfigError("Job {}: Invalid name".format(job_name))
+        self.check_type("Job {}".format(job_name), job_dict, dict)
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
@@ -273,20 +300,23 @@ class ConfigLoader:
         self.config.jobs[job.name] = job
 
     def build_job_concurrency_groups(self, job, job_dict):
-        if "concurrency_groups" not in job_dict:
+        if job_dict.get("concurrency_groups") is None:
             return
+        self.check_type(
+            "Job {}: concurrency_groups".format(job.name),
+            job_dict["concurrency_groups"],
+            list,
+        )
         for concurrency_group_name in job_dict["concurrency_groups"]:
+            if not self.is_valid_name(concurrency_group_name):
+                raise ConfigError(
+                    "Concurrency group {}: Invalid name".format(concurrency_group_name)
+                )
             if concurrency_group_name in self.config.concurrency_groups:
                 concurrency_group = self.config.concurrency_groups[
                     concurrency_group_name
                 ]
             else:
-                if not self.is_valid_name(concurrency_group_name):
-                    raise ConfigError(
-                        "Concurrency group {}: Invalid name".format(
-                            concurrency_group_name
-                        )
-                    )
                 concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
                 self.config.concurrency_groups[
                     concurrency_group.name
@@ -294,6 +324,7 @@ class ConfigLoader:
             job.concurrency_groups.append(concurrency_group)
 
     def load(self, config):
+        self.check_type("Config", config, dict)
         self.config.raw_config = copy.deepcopy(config)
         self.build_base(config)
         self.build_concurrency_groups(config)
-- 
2.43.0


From d2dae933aa0811f5083b2c9d8ed90a380db751ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 44/50] fix: show all of an xz compressed output, also if it
 has several streams

---
 dsari/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 1e54608..d7826c8 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -178,7 +178,7 @@ def read_output(filename):
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
-        with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
+        with lzma.open("{}.xz".format(filename), "rb") as f:
+            return f.read().decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From cf790f368f32f5e63ec7f1fee9355f603a8772a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 45/50] fix: let the index link to jobs with a colon in their
 name

A link which starts with such a name is taken as one with a scheme.
---
 dsari/templates/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/templates/index.html b/dsari/templates/index.html
index 214902a..c8a81ed 100644
--- a/dsari/templates/index.html
+++ b/dsari/templates/index.html
@@ -21,7 +21,7 @@
 </tr>
 {% for run in failed_runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -38,7 +38,7 @@
 </tr>
 {% for run in runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -55,7 +55,7 @@
 </tr>
 {% for job in jobs %}
 <tr{% if job.last_run.start_time != job.last_successful_run.start_time %} class="danger"{% endif %}>
-    <td><a href="{{ job.name }}/">{{ job.name }}</a></td>
+    <td><a href="./{{ job.name }}/">{{ job.name }}</a></td>
     <td>{{ strip_ms(job.last_run.start_time) }}</td>
     <td>{% if job.last_run.start_time %}{{ strip_ms(job.last_run.stop_time - job.last_run.start_time) }}{% endif %}</td>
     <td>{{ strip_ms(job.last_successful_run.start_time) }}</td>
-- 
2.43.0


From dbc24a98d581c9a11f90d7b7bd2397a60312f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 46/50] fix: compute next times in an hour which is repeated
 when clocks are turned back

A next time there was in the past, so its job was run again and again.
---
 dsari/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d7826c8..74a4d38 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -150,18 +150,18 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
         if t is not None:
             t = t.replace(tzinfo=tz) + subsecond_offset
+            t = t.replace(fold=start_time.fold)
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split()) == 5:
         schedule = schedule + " H"
-    t = (
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
-    )
-    return t
+    t = croniter_hash.croniter_hash(
+        schedule, start_time=start_time, hash_id=job_name
+    ).get_next(datetime.datetime)
+    # Addition loses the fold, and so would make a time in the second half of
+    # a repeated hour one in the first half, which is over
+    return (t + subsecond_offset).replace(fold=t.fold)
 
 
 def json_pretty_print(v):
-- 
2.43.0


From 22d6fde6bdfa01942841d341b18adde4e5d66aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 47/50] fix: hash RRULE schedules to the same time of day in
 summer and winter

A daily job was run twice on the day after a change to daylight saving time.
---
 dsari/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 74a4d38..9cc21a4 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -138,9 +138,9 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
-        hashed_epoch = start_time - seconds_to_td(
-            ((dt_to_epoch(start_time) - crc) % 86400)
-        )
+        # Hash to a local time of day, whatever the UTC offset is at the moment
+        local_epoch = dt_to_epoch(start_time.replace(tzinfo=datetime.timezone.utc))
+        hashed_epoch = start_time - seconds_to_td((local_epoch - crc) % 86400)
         tz = start_time.tzinfo
         if re.search(r"UNTIL=[0-9T]+(;|$)", schedule.upper()):
             # dateutil only accepts an UNTIL without "Z" (i.e. in local time)
-- 
2.43.0


From 982f021e7fc6b9706eacf6be5bd4ebf96d85479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 48/50] fix: schedule in the local timezone, not in its UTC
 offset at the time of loading

Until the next reload, runs were an hour off after a change to or from
daylight saving time.
---
 dsari/__init__.py | 2 +-
 dsari/utils.py    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index 1d11016..396648f 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -30,7 +30,7 @@ class Job(object):
         self.name = name
         self.command = []
         self.schedule = None
-        self.schedule_timezone = utils.dtnow().tzinfo
+        self.schedule_timezone = utils.get_local_timezone()
         self.schedule_timezone_name = None
         self.concurrency_groups = []
         self.max_execution = None
diff --git a/dsari/utils.py b/dsari/utils.py
index 9cc21a4..4c8d752 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -106,6 +106,13 @@ def get_timezone(name):
     return tz
 
 
+def get_local_timezone():
+    # With its daylight saving time, unlike the timezone of the current time
+    if isinstance(dateutil_tz, ImportError):
+        return dtnow().tzinfo
+    return dateutil_tz.tzlocal()
+
+
 def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
-- 
2.43.0


From f032739f8fa3895f4824e297a0432863cca9db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:08 +0000
Subject: [PATCH 49/50] fix: keep jobs whose schedule needs a missing library
 for manual triggers

---
 dsari/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index 7ccb67c..91020e6 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -290,6 +290,9 @@ class ConfigLoader:
                     job.name,
                     start_time=utils.dtnow(job.schedule_timezone),
                 )
+            except ImportError:
+                # Its library is not available, manual triggers only
+                job.schedule = None
             except Exception as e:
                 raise ConfigError(
                     "Job {}: Invalid schedule ({}): {}: {}".format(
-- 
2.43.0


From 73c6721057aa6f793f3c0a02926dd0b6b0ac0629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:42 +0000
Subject: [PATCH 50/50] fix: a shutdown_kill_grace of 0 is a grace time, too

---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 7b299b7..9fb6af5 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -188,7 +188,7 @@ class Scheduler:
     def monitor_shutdown(self):
         if not self.config.shutdown_kill_runs:
             return
-        if not self.config.shutdown_kill_grace:
+        if self.config.shutdown_kill_grace is None:
             return
         if dtnow() < (self.shutdown_begin + self.config.shutdown_kill_grace):
             self.wakeups.append(self.shutdown_begin + self.config.shutdown_kill_grace)
-- 
2.43.0

