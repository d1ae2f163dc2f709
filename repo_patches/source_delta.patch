From b6057c5777bd41f60a2fa0626d97bc1ce09b1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 01/23] fix: tokenizer: consume a NUL character instead of
 yielding empty tokens forever

---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From ef3d8711d0a9788f9f17b27bb4153cacd1196aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:05 +0000
Subject: [PATCH 02/23] fix: compare the whole last expectation line when it
 lacks a line feed

---
 booktest/testcaserun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..5009a95 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -329,7 +329,9 @@ s
                     self.exp_line_number += 1
                 else:
                     self.exp_line_number += 1
-                    self.exp_line = line[0:len(line)-1]
+                    if line.endswith("\n"):
+                        line = line[0:len(line)-1]
+                    self.exp_line = line
                     self.exp_tokens =\
                         BufferIterator(TestTokenizer(self.exp_line))
             elif self.last_checked:
-- 
2.43.0


From 036df7d91620a28b9e4bc00134c30cf50b7d9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 03/23] fix: commit a pending unended line at the end of the
 test

---
 booktest/testcaserun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 5009a95..d73ba80 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -229,6 +229,12 @@ s
         self.ended = time.time()
         self.took_ms = 1000*(self.ended - self.started)
 
+        # a line that was never ended must be neither lost nor ignored
+        if len(self.out_line) > 0 \
+           or self.line_error is not None \
+           or self.line_diff is not None:
+            self.commit_line()
+
         self.close()
 
         if self.errors != 0:
-- 
2.43.0


From 8eef394e7431dec17b39f2b9ce2a8077ed93eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 04/23] fix: tset marks new items as differences also at the
 end of the expectation file

---
 booktest/testcaserun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index d73ba80..3d09dc7 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -788,6 +788,10 @@ s
                 compare.add(self.exp_line[len(prefix):])
                 self.next_exp_line()
             end = self.exp_line_number
+        elif self.exp_file_exists:
+            # expectation has ended: every item is new
+            begin = end = self.exp_line_number
+            compare = set()
 
         for i in items:
             i_str = str(i)
-- 
2.43.0


From 9badb398557b8031c484e248e6e2c957f6d8ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 05/23] fix: restore the original stderr after the case

---
 booktest/testcaserun.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 3d09dc7..bc832ff 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
-- 
2.43.0


From 80dd4b0caa6058cc17c9ce1c71d0067c43541823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:44 +0000
Subject: [PATCH 06/23] fix: env decorators restore the environment also for
 absent variables and missing snapshots

---
 booktest/env.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..957b1d2 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -40,24 +40,28 @@ class SnapshotEnv:
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
-                    del os.environ[name]
+                    os.environ.pop(name, None)
                 else:
                     os.environ[name] = self.snaphots[name]
                 self.capture[name] = value
             elif self.complete_snapshots or self.refresh_snapshots:
                 self.capture[name] = old_value
             else:
+                self._restore()
                 raise Exception(
                     f"missing env snapshot '{name}'. "
                     "try running booktest with '-s' flag to capture the missing snapshot")
 
-    def stop(self):
+    def _restore(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
+    def stop(self):
+        self._restore()
+
         with open(self.snapshot_out_path, "w") as f:
             json.dump(self.capture, f, indent=4)
 
@@ -114,16 +118,13 @@ class MockMissingEnv:
             old_value = os.environ.get(name)
             self._old_env[name] = old_value
 
-            if old_value is None:
-                if value is None:
-                    del os.environ[name]
-                else:
-                    os.environ[name] = value
+            if old_value is None and value is not None:
+                os.environ[name] = value
 
     def stop(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
-- 
2.43.0


From 0016b39471e283802f89c34b693a5b3a48318f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 07/23] fix: dependency results do not depend on what the
 in-memory cache keeps

---
 booktest/cache.py   | 3 +++
 booktest/testrun.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..a273015 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -66,6 +66,7 @@ class TestRun:
                         with open(bin_path, 'rb') as file:
                             rv = pickle.load(file)
                             self.cache[bin_path] = rv
+                            return True, rv
                     else:
                         raise Exception(
                             f"case {case.name} dependency {t[0]}" +
-- 
2.43.0


From 102efe241664860f339b401d00c13c68ba2d8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 08/23] fix: make_case returns a case with its result, not the
 result's name

---
 booktest/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..f4d97bb 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -167,7 +167,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
-- 
2.43.0


From 98ae8e71debc13c4ca9da27dbb7c9e1bd48556ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 09/23] fix: options of one invocation do not leak into the
 later ones

---
 booktest/tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..dce3944 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -366,7 +366,8 @@ class Tests:
         if setup is None:
             setup = BookTestSetup()
 
-        config = get_default_config()
+        # copy, so that options do not leak to the later invocations
+        config = dict(get_default_config())
         # extra default configuration parameters get layered
         # on top of normal default configuration
         for key, value in extra_default_config.items():
-- 
2.43.0


From 3031f6727fb27a35cd0dc0914875bab8f807c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 10/23] fix: read the configuration file in the home directory

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..0825bec 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From b2a02f7324f5ce83375367c6ca77c6309dc502a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:18 +0000
Subject: [PATCH 11/23] fix: exit status covers the results recorded after an
 abort

---
 booktest/runs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..108352b 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -379,6 +379,9 @@ def parallel_run_tests(exp_dir,
                                        result,
                                        duration,
                                        False)
+                    if result != TestResult.OK:
+                        exit_code = -1
+
                     record_case(
                         case_name,
                         result,
-- 
2.43.0


From c55eebf3cfd2995fd95172f3fa1bc82eb3eef8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 12/23] fix: repeated requests use the custom hash function

---
 booktest/httpx.py    | 3 ++-
 booktest/requests.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..0890bf3 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -56,6 +56,7 @@ class RequestKey:
             json_object["hash"] = hash_code
 
         self.json_object = json_object
+        self.json_to_hash = json_to_hash
         self.hash = hash_code
 
     def increase_order(self):
@@ -63,7 +64,7 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..40306e4 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -66,6 +66,7 @@ class RequestKey:
             json_object["hash"] = hash_code
 
         self.json_object = json_object
+        self.json_to_hash = json_to_hash
         self.hash = hash_code
 
     def increase_order(self):
@@ -73,7 +74,7 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        return RequestKey(json_object, False, self.json_to_hash)
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From d2d1f75419dd050942c09c7bbe56aa20ac9355ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 13/23] fix: http snapshots keep binary bodies and header
 semantics

---
 booktest/httpx.py    | 2 +-
 booktest/requests.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 0890bf3..2aed638 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -138,7 +138,7 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
diff --git a/booktest/requests.py b/booktest/requests.py
index 40306e4..ff26eca 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -6,6 +6,7 @@ import types
 import booktest as bt
 import requests
 from requests import adapters
+from requests.structures import CaseInsensitiveDict
 import json
 import threading
 import sys
@@ -143,10 +144,10 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
-        response._content = response_json["content"].encode()
+        response._content = response_json["content"].encode("utf-8", "surrogateescape")
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -158,7 +159,7 @@ class RequestSnapshot:
                 "headers": dict(self.response.headers),
                 "statusCode": self.response.status_code,
                 "encoding": self.response.encoding,
-                "content": self.response.content.decode()
+                "content": self.response.content.decode("utf-8", "surrogateescape")
             }
         }
 
-- 
2.43.0


From 80fe8aec5cb456cb941195d8281496be227c793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:38 +0000
Subject: [PATCH 14/23] fix: a test trying to exit the process fails instead of
 ending the run

---
 booktest/testrun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index a273015..5edfcaf 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -95,7 +95,7 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-- 
2.43.0


From de127dddf7e5a6ae7d2222916a7c0fbd30081442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 15/23] fix: a worker with an empty report counts as failed
 instead of hanging the run

---
 booktest/runs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 108352b..606481a 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -228,8 +228,9 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                cases = CaseReports.of_file(report_file).cases
+                if len(cases) > 0:
+                    reports.append(cases[0])
                 else:
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
-- 
2.43.0


From e158fcb9c9eb5091f6a4b8c01ca00143fd5c26db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:51 +0000
Subject: [PATCH 16/23] fix: accepting an already accepted result keeps its
 files instead of crashing

---
 booktest/review.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..76a0793 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -90,6 +90,10 @@ def freeze_case(exp_dir,
     out_dir_name = os.path.join(out_dir, case_name)
     out_file_name = os.path.join(out_dir, case_name + ".md")
 
+    if not path.exists(out_file_name):
+        # this result has already been accepted, e.g. by the batch process
+        return
+
     # destroy old test related files
     if path.exists(exp_dir_name):
         shutil.rmtree(exp_dir_name)
-- 
2.43.0


From e79702f98d41fac24f16b9e8852d6604a4fb8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:38 +0000
Subject: [PATCH 17/23] fix: a variable named twice in snapshot_env is restored
 to its original value

---
 booktest/env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index 957b1d2..c675313 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -36,7 +36,8 @@ class SnapshotEnv:
         self._old_env = {}
         for name in self.names:
             old_value = os.environ.get(name)
-            self._old_env[name] = old_value
+            # the same variable may be named twice
+            self._old_env.setdefault(name, old_value)
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
-- 
2.43.0


From 251ea3bc9924af7c565fe21bb14557b2d7f50be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 18/23] fix: RunBatch replaced the exception of a failed batch
 by UnboundLocalError

---
 booktest/runs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index 606481a..3f3d0d4 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -92,6 +92,7 @@ class RunBatch:
         except Exception as e:
             print(f"{case} failed with {e}")
             traceback.print_exc()
+            raise
         finally:
             output.close()
 
-- 
2.43.0


From 78d4e7302eadee47a9ca4deef4fbce0358028867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:08 +0000
Subject: [PATCH 19/23] fix: put replaced functions back as they were, also
 when replacing or reporting fails

Restoring set the function itself as attribute of its owner: a class method was left bound to one
class, and an instance kept a method of its own. If replacing one function or printing the
snapshots failed, the functions replaced so far were never put back.
---
 booktest/functions.py | 64 +++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..5e7ba5a 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -96,14 +96,48 @@ class FunctionSnapshotter:
         return str(self.func)
 
 
+_MISSING = object()
+
+
 def set_function(func, value):
+    """
+    Replaces the function. Returns the information needed to reset it
+    """
     target = None
     if hasattr(func, "__self__"):
         target = func.__self__
     elif hasattr(func, "__module__"):
         target = sys.modules[func.__module__]
     name = func.__name__
+    original = getattr(target, "__dict__", {}).get(name, _MISSING)
     setattr(target, name, value)
+    return target, name, original
+
+
+def reset_functions(replaced):
+    """
+    Puts the original attributes back. What has been
+    replaced last is reset first
+    """
+    for target, name, original in reversed(replaced):
+        if original is not _MISSING:
+            setattr(target, name, original)
+        elif name in getattr(target, "__dict__", {}):
+            delattr(target, name)
+
+
+def set_functions(replacements):
+    """
+    Replaces all the functions, or none of them, if something fails
+    """
+    replaced = []
+    try:
+        for func, value in replacements:
+            replaced.append(set_function(func, value))
+    except BaseException:
+        reset_functions(replaced)
+        raise
+    return replaced
 
 
 class SnapshotFunctions:
@@ -127,6 +161,7 @@ class SnapshotFunctions:
         self.snapshots = None
         self.calls = None
         self.snapshotters = None
+        self.replaced = None
 
     def snapshot(self, func, *args, **kwargs):
         call = FunctionCall.from_properties(func, args, kwargs)
@@ -164,18 +199,17 @@ class SnapshotFunctions:
         snapshotters = []
 
         for func in self.snapshot_funcs:
-            snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
-            snapshotters.append(snapshotter)
+            snapshotters.append(FunctionSnapshotter(self, func))
+
+        self.replaced = set_functions([(i.func, i) for i in snapshotters])
 
         self.snapshots = snapshots
         self.calls = []
         self.snapshotters = snapshotters
 
     def stop(self):
-        for snapshotter in self.snapshotters:
-            func = snapshotter.func
-            set_function(func, func)
+        reset_functions(self.replaced)
+        self.replaced = None
 
         os.makedirs(self.mock_out_path, exist_ok=True)
 
@@ -200,8 +234,10 @@ class SnapshotFunctions:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.t_snapshots()
-        self.stop()
+        try:
+            self.t_snapshots()
+        finally:
+            self.stop()
 
 
 def snapshot_functions(*snapshot_funcs):
@@ -238,18 +274,10 @@ class MockFunctions:
         if self._original_funcs is not None:
             raise RuntimeError('FunctionSnapshots has already been started')
 
-        original_funcs = []
-
-        for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
-
-        self._original_funcs = original_funcs
+        self._original_funcs = set_functions(self.mock_funcs.items())
 
     def stop(self):
-        for func in self._original_funcs:
-            set_function(func, func)
-
+        reset_functions(self._original_funcs)
         self._original_funcs = None
 
     def __enter__(self):
-- 
2.43.0


From e00d0a6d2bc292b57e362581f6bb0262f9accbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:26 +0000
Subject: [PATCH 20/23] fix: replace a static method in its class

A module attribute of the same name was set instead, so that calls of a snapshotted
or mocked static method executed the real one.
---
 booktest/functions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 5e7ba5a..357d146 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -99,6 +99,18 @@ class FunctionSnapshotter:
 _MISSING = object()
 
 
+def static_method_class(func):
+    """
+    The class, if the function is a static method of a class
+    """
+    target = sys.modules[func.__module__]
+    for name in getattr(func, "__qualname__", "").split(".")[:-1]:
+        target = getattr(target, name, None)
+    if isinstance(getattr(target, "__dict__", {}).get(func.__name__), staticmethod):
+        return target
+    return None
+
+
 def set_function(func, value):
     """
     Replaces the function. Returns the information needed to reset it
@@ -107,9 +119,11 @@ def set_function(func, value):
     if hasattr(func, "__self__"):
         target = func.__self__
     elif hasattr(func, "__module__"):
-        target = sys.modules[func.__module__]
+        target = static_method_class(func) or sys.modules[func.__module__]
     name = func.__name__
     original = getattr(target, "__dict__", {}).get(name, _MISSING)
+    if isinstance(original, staticmethod):
+        value = staticmethod(value)
     setattr(target, name, value)
     return target, name, original
 
-- 
2.43.0


From cc30ab97832ffb67c46dacf4f958b3be7a61107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:18 +0000
Subject: [PATCH 21/23] fix: repeated requests have recordings of their own
 with every hash function

A custom hash function, that does not look at the order of the repeated requests, gave
all of them the same identity. Only the response of the last one was recorded.
---
 booktest/httpx.py    | 9 ++++++++-
 booktest/requests.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 2aed638..b4c525b 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -58,13 +58,20 @@ class RequestKey:
         self.json_object = json_object
         self.json_to_hash = json_to_hash
         self.hash = hash_code
+        self.first_hash = hash_code
 
     def increase_order(self):
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False, self.json_to_hash)
+        rv = RequestKey(json_object, False, self.json_to_hash)
+        rv.first_hash = self.first_hash
+        if rv.hash == self.first_hash:
+            # custom hash functions may not look at the order
+            rv.hash = f"{rv.hash}-{prev_order + 1}"
+            rv.json_object["hash"] = rv.hash
+        return rv
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index ff26eca..3fd6c40 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -69,13 +69,20 @@ class RequestKey:
         self.json_object = json_object
         self.json_to_hash = json_to_hash
         self.hash = hash_code
+        self.first_hash = hash_code
 
     def increase_order(self):
         prev_order = self.json_object.get("order", 0)
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False, self.json_to_hash)
+        rv = RequestKey(json_object, False, self.json_to_hash)
+        rv.first_hash = self.first_hash
+        if rv.hash == self.first_hash:
+            # custom hash functions may not look at the order
+            rv.hash = f"{rv.hash}-{prev_order + 1}"
+            rv.json_object["hash"] = rv.hash
+        return rv
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From eee2f92039a92411059ae93be9393d105daf168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:43 +0000
Subject: [PATCH 22/23] fix: streamed responses are recorded and replayed

The body of a streamed response was not available, when storing the snapshots, and a
replayed response of requests could not be streamed.
---
 booktest/httpx.py    | 4 ++++
 booktest/requests.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index b4c525b..3632620 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -258,6 +258,8 @@ class SnapshotHttpx:
 
         if rv is None:
             rv = self._real_handle_request(transport, request)
+            # the body is needed for the snapshot, even if the test streams it
+            rv.read()
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
@@ -267,6 +269,8 @@ class SnapshotHttpx:
 
         if rv is None:
             rv = await self._real_handle_async_request(transport, request)
+            # the body is needed for the snapshot, even if the test streams it
+            await rv.aread()
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
diff --git a/booktest/requests.py b/booktest/requests.py
index 3fd6c40..d94abc5 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -155,6 +155,7 @@ class RequestSnapshot:
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
         response._content = response_json["content"].encode("utf-8", "surrogateescape")
+        response._content_consumed = True
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -227,6 +228,8 @@ class SnapshotAdapter(adapters.BaseAdapter):
 
         if rv is None:
             rv = adapters.HTTPAdapter().send(request)
+            # the body is needed for the snapshot, even if the test streams it
+            rv.content
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0


From 5832406b5fe0f93f1bf03f3a43f62e5354490948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:09 +0000
Subject: [PATCH 23/23] fix: concurrent repetitions of a request are recorded
 separately

Requests made while an equal one was still waiting for its response got the same order, and
only one of the responses was recorded.
---
 booktest/httpx.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 3632620..d1e6bbf 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -227,9 +227,8 @@ class SnapshotHttpx:
         self._real_handle_async_request = None
 
     def mark_order(self, key: RequestKey):
-        for i in self.requests:
-            if key == i.request:
-                key = key.increase_order()
+        while any(key == i.request for i in self.requests):
+            key = key.increase_order()
 
         return key
 
@@ -268,10 +267,17 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = await self._real_handle_async_request(transport, request)
-            # the body is needed for the snapshot, even if the test streams it
-            await rv.aread()
-            self.requests.append(RequestSnapshot(key, rv))
+            # the same request may be made again, before this one is done
+            snapshot = RequestSnapshot(key, None)
+            self.requests.append(snapshot)
+            try:
+                rv = await self._real_handle_async_request(transport, request)
+                # the body is needed for the snapshot, even if the test streams it
+                await rv.aread()
+                snapshot.response = rv
+            except BaseException:
+                self.requests.remove(snapshot)
+                raise
 
         return rv
 
@@ -311,6 +317,9 @@ class SnapshotHttpx:
             "handle_async_request",
             self._real_handle_async_request)
 
+        # requests may have been left without response
+        self.requests = [i for i in self.requests if i.response is not None]
+
         # let's store everything in one file to avoid spamming git
         stored = {}
         for snapshot in self.requests:
-- 
2.43.0

