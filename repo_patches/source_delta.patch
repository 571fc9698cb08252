From d9819828f91d8a790fce12c8ce7f4f409f51bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 01/47] fix: test and report an unfinished last line of a test

---
 booktest/testcaserun.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 944969e..494c157 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -229,6 +229,12 @@ s
         self.ended = time.time()
         self.took_ms = 1000*(self.ended - self.started)
 
+        # the last line may be unfinished, but it must be still tested & reported
+        if len(self.out_line) > 0 \
+           or self.line_diff is not None \
+           or self.line_error is not None:
+            self.feed_token("\n", check=self.last_checked)
+
         self.close()
 
         if self.errors != 0:
-- 
2.43.0


From 04520e1f6fa73b97d4e5508839726ef3795f47f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 02/47] fix: compare sets also when the snapshot has ended

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 494c157..6162f25 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -778,7 +778,7 @@ s
         """
         compare = None
 
-        if self.exp_line is not None:
+        if self.exp_file_exists:
             begin = self.exp_line_number
             compare = set()
             while (self.exp_line is not None
-- 
2.43.0


From 52fc81eb1587e82e35d6e9a615f5c5b3e2004676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 03/47] fix: tokenizer never advanced over a NUL character

---
 booktest/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/tokenizer.py b/booktest/tokenizer.py
index 8e7fa25..b399d19 100644
--- a/booktest/tokenizer.py
+++ b/booktest/tokenizer.py
@@ -52,7 +52,7 @@ class TestTokenizer:
         if c.isalnum():
             while self.peek().isalnum():
                 self.at = self.at + 1
-        elif c != '\0':
+        else:
             self.at = self.at + 1
         return self.buf[begin:self.at]
 
-- 
2.43.0


From 387ec454938b85ebd9ea06d057cb43cc00ecc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 04/47] fix: restore the original stderr after a test

---
 booktest/testcaserun.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 6162f25..e2f8541 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -76,10 +76,6 @@ class TestCaseRun:
         self.log = None
         self.orig_handlers = None
 
-        # swap error
-        self.orig_err = sys.stderr
-        sys.stderr = self.err
-
         # error management
         #
         # let's separate diff from proper failure
-- 
2.43.0


From 731e7e85df69beb3ae6e36caf97fe8d31f4f6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 05/47] fix: find the home directory's .booktest

---
 booktest/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/config.py b/booktest/config.py
index e4edc5b..0825bec 100644
--- a/booktest/config.py
+++ b/booktest/config.py
@@ -30,7 +30,7 @@ def parse_config_file(config_file, config):
 def resolve_default_config(config_file):
     rv = {}
     # let home directory .booktest file has lowest priority
-    parse_config_file("~/.booktest", rv)
+    parse_config_file(path.expanduser("~/.booktest"), rv)
     # let config_file defaults have lower priority
     parse_config_file(config_file, rv)
 
-- 
2.43.0


From 9ed82d513dc3dc6b4536b3f748caf92ca3349998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 06/47] fix: options of one invocation leaked into later
 invocations

---
 booktest/tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/tests.py b/booktest/tests.py
index b6cb00e..0b99a22 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -366,7 +366,8 @@ class Tests:
         if setup is None:
             setup = BookTestSetup()
 
-        config = get_default_config()
+        # take a copy to avoid leaking options to later invocations
+        config = dict(get_default_config())
         # extra default configuration parameters get layered
         # on top of normal default configuration
         for key, value in extra_default_config.items():
-- 
2.43.0


From 5f0b636bdd9f36cb272419fc852a0a9902f8d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 07/47] fix: dependencies did not work with a cache that does
 not keep values

---
 booktest/cache.py   |  3 +++
 booktest/testrun.py | 25 ++++++++++++++-----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/booktest/cache.py b/booktest/cache.py
index 886ff18..c66212a 100644
--- a/booktest/cache.py
+++ b/booktest/cache.py
@@ -42,6 +42,9 @@ class NoCache:
     def __len__(self):
         return 0
 
+    def __contains__(self, key):
+        return False
+
     def __getitem__(self, key):
         return None
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 66c133d..fcf0828 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -61,17 +61,20 @@ class TestRun:
             # a bit hacky way for figuring out the dependencies
             if match_method(method, t[1]):
                 bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path not in self.cache:
-                    if path.exists(bin_path):
-                        with open(bin_path, 'rb') as file:
-                            rv = pickle.load(file)
-                            self.cache[bin_path] = rv
-                    else:
-                        raise Exception(
-                            f"case {case.name} dependency {t[0]}" +
-                            f" missing in '{bin_path}'")
-
-                return True, self.cache[bin_path]
+                if bin_path in self.cache:
+                    return True, self.cache[bin_path]
+
+                if path.exists(bin_path):
+                    with open(bin_path, 'rb') as file:
+                        rv = pickle.load(file)
+                        self.cache[bin_path] = rv
+                else:
+                    raise Exception(
+                        f"case {case.name} dependency {t[0]}" +
+                        f" missing in '{bin_path}'")
+
+                # the cache may not hold the value (see e.g. NoCache)
+                return True, rv
 
         return False, None
 
-- 
2.43.0


From fde95ee7d7b06b354815dcef8c58ee3e81257619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 08/47] fix: environment snapshots and mocks did not handle
 unset variables

---
 booktest/env.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index f21b060..76dbcd9 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -40,24 +40,29 @@ class SnapshotEnv:
             if name in self.snaphots:
                 value = self.snaphots[name]
                 if value is None:
-                    del os.environ[name]
+                    os.environ.pop(name, None)
                 else:
                     os.environ[name] = self.snaphots[name]
                 self.capture[name] = value
             elif self.complete_snapshots or self.refresh_snapshots:
                 self.capture[name] = old_value
             else:
+                # leave no trace of the variables set so far
+                self.restore()
                 raise Exception(
                     f"missing env snapshot '{name}'. "
                     "try running booktest with '-s' flag to capture the missing snapshot")
 
-    def stop(self):
+    def restore(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
+    def stop(self):
+        self.restore()
+
         with open(self.snapshot_out_path, "w") as f:
             json.dump(self.capture, f, indent=4)
 
@@ -115,15 +120,13 @@ class MockMissingEnv:
             self._old_env[name] = old_value
 
             if old_value is None:
-                if value is None:
-                    del os.environ[name]
-                else:
+                if value is not None:
                     os.environ[name] = value
 
     def stop(self):
         for name, value in self._old_env.items():
             if value is None:
-                del os.environ[name]
+                os.environ.pop(name, None)
             else:
                 os.environ[name] = self._old_env[name]
 
-- 
2.43.0


From a4e0f34081c0a1a8a73fcfa8f8b9398490ffbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 09/47] fix: a worker broken down without a report crashed or
 blocked parallel runs

---
 booktest/reports.py | 2 +-
 booktest/runs.py    | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index a764841..f4d97bb 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -167,7 +167,7 @@ class CaseReports:
     def make_case(case_name,
                   res: TestResult,
                   duration):
-        return (case_name, res.name, duration)
+        return (case_name, res, duration)
 
     def to_dir(self, out_dir):
         report_file = os.path.join(out_dir, "cases.txt")
diff --git a/booktest/runs.py b/booktest/runs.py
index c725ce7..8d73f15 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -75,6 +75,7 @@ class RunBatch:
                 "output.txt")
 
         output = open(output_file, "w")
+        rv = test_result_to_exit_code(TestResult.FAIL)
 
         try:
             run = TestRun(
@@ -228,8 +229,10 @@ class ParallelRunner:
                 del scheduled[i]
                 self.reserved_resources -= self.resources[i]
                 report_file = case_batch_dir_and_report_file(self.batches_dir, i)[1]
-                if os.path.exists(report_file):
-                    reports.append(CaseReports.of_file(report_file).cases[0])
+                # the report is missing or empty, if the worker broke down
+                case_reports = CaseReports.of_file(report_file).by_name(i)
+                if len(case_reports) > 0:
+                    reports.append(case_reports[0])
                 else:
                     reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))
 
-- 
2.43.0


From c5099a2c6dc767d8d4fbf6e2600f21e1f9b6d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 10/47] fix: a test calling sys.exit() ended the whole run

---
 booktest/testrun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index fcf0828..f285d5e 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -97,7 +97,7 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-- 
2.43.0


From bb696f8483960ad9d810626539ea3cb8a641ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 11/47] fix: process setup calling sys.exit() blocked parallel
 runs

---
 booktest/runs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 8d73f15..999fd8f 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -90,7 +90,7 @@ class RunBatch:
 
             with self.setup.setup_teardown():
                 rv = test_result_to_exit_code(run.run())
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             print(f"{case} failed with {e}")
             traceback.print_exc()
         finally:
-- 
2.43.0


From 1a6d90fb0766c1a3cfd68f25efd35a5a2c299834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 12/47] fix: a test returning a value that cannot be stored
 ended the whole run

---
 booktest/testrun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index f285d5e..c846085 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -97,6 +97,8 @@ class TestRun:
                 rv = await case(t)
             else:
                 rv = case(t)
+            # a result, that cannot be stored, is a failure of this test
+            pickle.dumps(rv)
         except (Exception, SystemExit) as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
-- 
2.43.0


From bbb3030fc262b70631834b61c5691e2330f4385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 13/47] fix: freezing the same result twice destroyed
 attachments and crashed

---
 booktest/review.py | 4 ++++
 booktest/runs.py   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/booktest/review.py b/booktest/review.py
index 423afe7..2acdd27 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -90,6 +90,10 @@ def freeze_case(exp_dir,
     out_dir_name = os.path.join(out_dir, case_name)
     out_file_name = os.path.join(out_dir, case_name + ".md")
 
+    if not path.exists(out_file_name):
+        # the result has already been frozen
+        return
+
     # destroy old test related files
     if path.exists(exp_dir_name):
         shutil.rmtree(exp_dir_name)
diff --git a/booktest/runs.py b/booktest/runs.py
index 999fd8f..3516f79 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -147,6 +147,9 @@ class ParallelRunner:
         job_config["continue"] = False
         job_config["interactive"] = False
         job_config["always_interactive"] = False
+        # the results are accepted only once in the reviewing main process
+        job_config["accept"] = False
+        job_config["update"] = False
 
         self.batches_dir = batches_dir
         self.run_batch = RunBatch(exp_dir, out_dir, tests, job_config, setup)
-- 
2.43.0


From 631b26468e571c5e063462afac99cfab405d17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 14/47] fix: interrupted parallel runs exited with success

---
 booktest/runs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index 3516f79..6f540a2 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -364,6 +364,7 @@ def parallel_run_tests(exp_dir,
 
             except KeyboardInterrupt as e:
                 runner.abort()
+                exit_code = -1
                 for i in runner.todo - runner.done:
                     print(f"  {i}..interrupted")
 
@@ -385,6 +386,8 @@ def parallel_run_tests(exp_dir,
                                        result,
                                        duration,
                                        False)
+                    if result != TestResult.OK:
+                        exit_code = -1
                     record_case(
                         case_name,
                         result,
-- 
2.43.0


From 1aa154f19c11da77bcc3ac386ed0e2e0fa8cc7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 15/47] fix: paths with spaces or shell characters were passed
 to the shell

---
 booktest/runs.py        | 5 +++--
 booktest/testcaserun.py | 4 ++--
 booktest/testrun.py     | 2 +-
 booktest/tests.py       | 3 ++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 6f540a2..09f214a 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,6 +1,7 @@
 import traceback
 import multiprocessing
 import os
+import shutil
 import threading
 import time
 from collections import defaultdict
@@ -36,7 +37,7 @@ def prepare_batch_dir(out_dir: str):
     _batch_dir = batch_dir(out_dir)
 
     if os.path.exists(_batch_dir):
-        os.system(f"rm -rf {_batch_dir}")
+        shutil.rmtree(_batch_dir)
         os.makedirs(_batch_dir, exist_ok=True)
 
 
@@ -316,7 +317,7 @@ def parallel_run_tests(exp_dir,
 
     exit_code = 0
 
-    os.system(f"mkdir -p {out_dir}")
+    os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
     with open(report_file, "w") as report_f:
diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index e2f8541..ffa7f2b 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -45,7 +45,7 @@ class TestCaseRun:
 
         # expectation file
         self.exp_base_dir = path.join(run.exp_dir, relative_dir)
-        os.system(f"mkdir -p {self.exp_base_dir}")
+        os.makedirs(self.exp_base_dir, exist_ok=True)
         self.exp_file_name = path.join(self.exp_base_dir, name + ".md")
         self.exp_dir_name = path.join(self.exp_base_dir, name)
         self.exp_file_exists = path.exists(self.exp_file_name)
@@ -56,7 +56,7 @@ class TestCaseRun:
 
         # prepare output
         self.out_base_dir = path.join(run.out_dir, relative_dir)
-        os.system(f"mkdir -p {self.out_base_dir}")
+        os.makedirs(self.out_base_dir, exist_ok=True)
         self.out_file_name = path.join(self.out_base_dir, name + ".md")
         self.out_dir_name = path.join(self.out_base_dir, name)
         self.out_tmp_dir_name = path.join(self.out_base_dir, name + ".tmp")
diff --git a/booktest/testrun.py b/booktest/testrun.py
index c846085..2318b90 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -127,7 +127,7 @@ class TestRun:
         oks = 0
         fails = 0
         tests = 0
-        os.system(f"mkdir -p {self.report_dir}")
+        os.makedirs(self.report_dir, exist_ok=True)
         report_file = path.join(self.report_dir, "cases.txt")
 
         # 1.2. To continue testing, we need to read
diff --git a/booktest/tests.py b/booktest/tests.py
index 0b99a22..37fe67f 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -457,7 +457,8 @@ class Tests:
             for name in todo:
                 file = path.join(exp_dir, f"{name}.md")
                 if path.exists(file):
-                    os.system(f"cat {file}")
+                    with open(file, "r") as f:
+                        print(f.read(), end="")
             return 0
         elif cmd == '--path':
             for name in todo:
-- 
2.43.0


From 00aef3c87c81e44e846f12fff0f6b4c55b0df6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 16/47] fix: headers of replayed responses were case sensitive

---
 booktest/requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 1814743..22f8fa8 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -142,7 +142,7 @@ class RequestSnapshot:
         response_json = json_object["response"]
 
         response = requests.Response()
-        response.headers = response_json["headers"]
+        response.headers = requests.structures.CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
         response._content = response_json["content"].encode()
-- 
2.43.0


From 34207d5817509685a79b7991f571816fde42258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 17/47] fix: replaying a binary httpx response failed

---
 booktest/httpx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c59a675..2a5561c 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -137,7 +137,7 @@ class RequestSnapshot:
                          json_to_hash=None):
         response_json = json_object["response"]
 
-        content = base64.b64decode(response_json["content"].encode("ascii")).decode("utf-8")
+        content = base64.b64decode(response_json["content"].encode("ascii"))
 
         response = httpx.Response(response_json["statusCode"],
                                   headers=response_json["headers"],
-- 
2.43.0


From 6907cc169d0a83c81114063437e49e781d2afaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 18/47] fix: repeated requests lost their custom hash and could
 not be replayed

---
 booktest/httpx.py    | 7 ++++++-
 booktest/requests.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 2a5561c..6d441dc 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -31,6 +31,7 @@ class RequestKey:
                  json_to_hash=None):
         if json_to_hash is None:
             json_to_hash = json_to_sha1
+        self.json_to_hash = json_to_hash
 
         json_object = copy.deepcopy(json_object)
 
@@ -63,7 +64,11 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        rv = RequestKey(json_object, False, self.json_to_hash)
+        if rv.hash == self.hash:
+            # the custom hash does not cover the order
+            rv = RequestKey(json_object, False)
+        return rv
 
     def url(self):
         return self.json_object.get("url")
diff --git a/booktest/requests.py b/booktest/requests.py
index 22f8fa8..9e886fa 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -41,6 +41,7 @@ class RequestKey:
                  json_to_hash=None):
         if json_to_hash is None:
             json_to_hash = json_to_sha1
+        self.json_to_hash = json_to_hash
 
         json_object = copy.deepcopy(json_object)
 
@@ -73,7 +74,11 @@ class RequestKey:
         json_object = copy.copy(self.json_object)
         json_object["order"] = prev_order + 1
         del json_object["hash"]
-        return RequestKey(json_object, False)
+        rv = RequestKey(json_object, False, self.json_to_hash)
+        if rv.hash == self.hash:
+            # the custom hash does not cover the order
+            rv = RequestKey(json_object, False)
+        return rv
 
     def url(self):
         return self.json_object.get("url")
-- 
2.43.0


From 55f43fbdee5d8bd645d2d59ebd60089a3603337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 19/47] fix: a header was appended to an unfinished first line

---
 booktest/testcaserun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index ffa7f2b..890a921 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -591,7 +591,7 @@ s
         the only difference between this method and anchorln() method is that the
         header is preceded and followed by an empty line.
         """
-        if self.line_number > 0:
+        if self.line_number > 0 or len(self.out_line) > 0:
             check = self.last_checked and self.exp_line is not None
             self.feed_token("\n", check=check)
         self.anchorln(header)
-- 
2.43.0


From ef3cd103b084cbe78a23ad4ce56055edaf793ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 20/47] fix: last character was ignored, if the snapshot did
 not end with a newline

---
 booktest/testcaserun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 890a921..0d5f17d 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -331,7 +331,8 @@ s
                     self.exp_line_number += 1
                 else:
                     self.exp_line_number += 1
-                    self.exp_line = line[0:len(line)-1]
+                    # the last line may lack the newline
+                    self.exp_line = line[0:len(line)-1] if line.endswith("\n") else line
                     self.exp_tokens =\
                         BufferIterator(TestTokenizer(self.exp_line))
             elif self.last_checked:
-- 
2.43.0


From bf6bb2c4df6a97a69bcbc993e79bc126016c65b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 21/47] fix: a set with repeated elements never passed

---
 booktest/testcaserun.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 0d5f17d..b1495d2 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -777,10 +777,11 @@ s
 
         if self.exp_file_exists:
             begin = self.exp_line_number
-            compare = set()
+            # elements may be repeated
+            compare = []
             while (self.exp_line is not None
                    and self.exp_line.startswith(prefix)):
-                compare.add(self.exp_line[len(prefix):])
+                compare.append(self.exp_line[len(prefix):])
                 self.next_exp_line()
             end = self.exp_line_number
 
-- 
2.43.0


From 3d2e783a4bff9a1d23a03506be400e44923e089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 22/47] fix: an interrupted acceptance could not be completed

---
 booktest/review.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 2acdd27..7487568 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -90,14 +90,16 @@ def freeze_case(exp_dir,
     out_dir_name = os.path.join(out_dir, case_name)
     out_file_name = os.path.join(out_dir, case_name + ".md")
 
-    if not path.exists(out_file_name):
+    if not path.exists(out_file_name) and not path.exists(out_dir_name):
         # the result has already been frozen
         return
 
     # destroy old test related files
     if path.exists(exp_dir_name):
         shutil.rmtree(exp_dir_name)
-    os.rename(out_file_name, exp_file_name)
+    # the file is missing, if this is completing an interrupted freeze
+    if path.exists(out_file_name):
+        os.rename(out_file_name, exp_file_name)
     if path.exists(out_dir_name):
         os.rename(out_dir_name, exp_dir_name)
 
-- 
2.43.0


From 48b1bafb5ee756da00f1f79c66a789eebc3e80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 23/47] fix: earlier results were lost, if a run was killed
 while rewriting them

---
 booktest/reports.py |  5 ++++-
 booktest/runs.py    | 10 ++++------
 booktest/testrun.py | 13 +++++--------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index f4d97bb..cac55e3 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -174,11 +174,14 @@ class CaseReports:
         return self.to_file(report_file)
 
     def to_file(self, file):
-        with open(file, "w") as f:
+        # replace the file at once to not lose results on interruptions
+        tmp_file = f"{file}.tmp"
+        with open(tmp_file, "w") as f:
             for i in self.cases:
                 CaseReports.write_case(f,
                                        i[0],
                                        i[1],
                                        i[2])
+        os.replace(tmp_file, file)
 
 
diff --git a/booktest/runs.py b/booktest/runs.py
index 09f214a..4c25327 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -320,13 +320,11 @@ def parallel_run_tests(exp_dir,
     os.makedirs(out_dir, exist_ok=True)
     report_file = os.path.join(out_dir, "cases.txt")
 
-    with open(report_file, "w") as report_f:
-        # add previously passed items to test
-        for i in reports.cases:
-            if i[0] not in todo:
-                CaseReports.write_case(
-                    report_f, i[0], i[1], i[2])
+    # add previously passed items to test
+    CaseReports([i for i in reports.cases if i[0] not in todo]) \
+        .to_file(report_file)
 
+    with open(report_file, "a") as report_f:
         reviewed = []
 
         def record_case(case_name, result, duration):
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 2318b90..706a9c3 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -146,14 +146,11 @@ class TestRun:
         # 2.2. run test.
         #      update the report as we test to allow hitting
         #      CTRL-C and continuing from the last succesful test
-        with open(report_file, "w") as report_f:
-
-            # 2.2.1 add previously passed items to test
-            if old_report is not None:
-                for i in old_report.cases:
-                    if i[0] not in todo:
-                        CaseReports.write_case(
-                            report_f, i[0], i[1], i[2])
+        # 2.2.1 add previously passed items to test
+        CaseReports([i for i in old_report.cases if i[0] not in todo]) \
+            .to_file(report_file)
+
+        with open(report_file, "a") as report_f:
 
             # 2.2.2 run cases
             for case_name in todo:
-- 
2.43.0


From e91925c069851f7c7a018480ff68e8428462b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 24/47] fix: a dependency returning None could not be used by
 another process

---
 booktest/testrun.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 706a9c3..f6d06ec 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -81,12 +81,9 @@ class TestRun:
     def save_test_result(self, case_path, result):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
-        if result is None:
-            if path.exists(bin_path):
-                os.remove(bin_path)
-        else:
-            with open(bin_path, 'wb') as file:
-                pickle.dump(result, file)
+        # also None is a result, which dependent tests may receive in other processes
+        with open(bin_path, 'wb') as file:
+            pickle.dump(result, file)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From be1dbe068f51a0c260ad5c5638e8ccc9770fac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 25/47] fix: a killed run left a broken result, which its
 dependents failed with

---
 booktest/testrun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index f6d06ec..3ff0f7e 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -82,8 +82,11 @@ class TestRun:
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
         self.cache[bin_path] = result
         # also None is a result, which dependent tests may receive in other processes
-        with open(bin_path, 'wb') as file:
+        # replace the file at once to not leave a broken result on interruptions
+        tmp_path = f"{bin_path}.tmp"
+        with open(tmp_path, 'wb') as file:
             pickle.dump(result, file)
+        os.replace(tmp_path, bin_path)
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From 36ecfa824970568a753adeb89151429e512df4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 26/47] fix: results of an interrupted run could not be
 reviewed

---
 booktest/reports.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/reports.py b/booktest/reports.py
index cac55e3..70445a1 100644
--- a/booktest/reports.py
+++ b/booktest/reports.py
@@ -78,9 +78,13 @@ class Metrics:
 
     @staticmethod
     def of_file(path):
-        with open(path, "r") as f:
-            state = json.load(f)
-            return Metrics(state["tookMs"])
+        try:
+            with open(path, "r") as f:
+                state = json.load(f)
+        except (FileNotFoundError, json.JSONDecodeError):
+            # the run was interrupted before its metrics were stored
+            return Metrics(0)
+        return Metrics(state["tookMs"])
 
     def to_dir(self, dir):
         self.to_file(os.path.join(dir, "metrics.json"))
-- 
2.43.0


From dca47ca983b2914967af8bd5f07c4c5d2151b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 27/47] fix: a test raising a BaseException ended serial and
 blocked parallel runs

---
 booktest/runs.py    | 2 +-
 booktest/testrun.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 4c25327..70da15d 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -91,7 +91,7 @@ class RunBatch:
 
             with self.setup.setup_teardown():
                 rv = test_result_to_exit_code(run.run())
-        except (Exception, SystemExit) as e:
+        except BaseException as e:
             print(f"{case} failed with {e}")
             traceback.print_exc()
         finally:
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 3ff0f7e..2551ebf 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -99,7 +99,10 @@ class TestRun:
                 rv = case(t)
             # a result, that cannot be stored, is a failure of this test
             pickle.dumps(rv)
-        except (Exception, SystemExit) as e:
+        except (KeyboardInterrupt, asyncio.CancelledError):
+            # the run is being interrupted
+            raise
+        except BaseException as e:
             t.iln().fail().iln(f"test raised exception {e}:")
             t.iln(traceback.format_exc())
             rv = None
-- 
2.43.0


From 84189a7770c9d7921863acbeef0d254206f499c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:14 +0000
Subject: [PATCH 28/47] fix: stderr and log handlers stayed redirected after an
 interrupted test

---
 booktest/testrun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 2551ebf..825ab06 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -101,6 +101,7 @@ class TestRun:
             pickle.dumps(rv)
         except (KeyboardInterrupt, asyncio.CancelledError):
             # the run is being interrupted
+            t.close()
             raise
         except BaseException as e:
             t.iln().fail().iln(f"test raised exception {e}:")
-- 
2.43.0


From 895a80c8489ae6c1b4f6060b17c48f9222b7568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:24 +0000
Subject: [PATCH 29/47] fix: function snapshots followed the test's changes to
 returned values

---
 booktest/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 1cdb85a..6244cd1 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -135,7 +135,8 @@ class SnapshotFunctions:
             if snapshot.match(call):
                 if snapshot not in self.calls:
                     self.calls.append(snapshot)
-                return snapshot.result
+                # the test may modify the result
+                return copy.deepcopy(snapshot.result)
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for function call {call.func()} - {call.hash}. "
@@ -145,7 +146,8 @@ class SnapshotFunctions:
 
         # remove old version, it may have been timeout
         self.calls = list([i for i in self.calls if not i.call == call])
-        self.calls.append(FunctionCallSnapshot(call, rv))
+        # the test may modify the result
+        self.calls.append(FunctionCallSnapshot(call, copy.deepcopy(rv)))
 
         return rv
 
-- 
2.43.0


From e130114f440609b5a9bcf34b0cbc0f26ccd3e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:46 +0000
Subject: [PATCH 30/47] fix: patched static methods called the real function,
 patches left traces

---
 booktest/functions.py | 99 +++++++++++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 31 deletions(-)

diff --git a/booktest/functions.py b/booktest/functions.py
index 6244cd1..dae00a7 100644
--- a/booktest/functions.py
+++ b/booktest/functions.py
@@ -96,14 +96,48 @@ class FunctionSnapshotter:
         return str(self.func)
 
 
-def set_function(func, value):
-    target = None
+def function_owner(func):
+    """
+    Returns the module, class or object, in which the function is looked up
+    """
     if hasattr(func, "__self__"):
-        target = func.__self__
-    elif hasattr(func, "__module__"):
-        target = sys.modules[func.__module__]
-    name = func.__name__
-    setattr(target, name, value)
+        return func.__self__
+
+    owner = sys.modules[func.__module__]
+    for name in getattr(func, "__qualname__", func.__name__).split(".")[:-1]:
+        owner = getattr(owner, name, None)
+    if owner is None or not hasattr(owner, func.__name__):
+        # e.g. functions defined inside functions
+        owner = sys.modules[func.__module__]
+    return owner
+
+
+class FunctionPatches:
+    """
+    Replaces functions, and puts everything back as it was
+    """
+
+    MISSING = object()
+
+    def __init__(self):
+        self._undo = []
+
+    def set(self, func, value):
+        owner = function_owner(func)
+        name = func.__name__
+        old = vars(owner).get(name, FunctionPatches.MISSING)
+        if isinstance(old, staticmethod):
+            value = staticmethod(value)
+        setattr(owner, name, value)
+        self._undo.append((owner, name, old))
+
+    def undo(self):
+        while len(self._undo) > 0:
+            owner, name, old = self._undo.pop()
+            if old is FunctionPatches.MISSING:
+                delattr(owner, name)
+            else:
+                setattr(owner, name, old)
 
 
 class SnapshotFunctions:
@@ -126,7 +160,7 @@ class SnapshotFunctions:
 
         self.snapshots = None
         self.calls = None
-        self.snapshotters = None
+        self.patches = None
 
     def snapshot(self, func, *args, **kwargs):
         call = FunctionCall.from_properties(func, args, kwargs)
@@ -163,21 +197,21 @@ class SnapshotFunctions:
                     snapshots.append(
                         FunctionCallSnapshot.from_json_object(json.load(f)))
 
-        snapshotters = []
+        patches = FunctionPatches()
 
-        for func in self.snapshot_funcs:
-            snapshotter = FunctionSnapshotter(self, func)
-            set_function(func, snapshotter)
-            snapshotters.append(snapshotter)
+        try:
+            for func in self.snapshot_funcs:
+                patches.set(func, FunctionSnapshotter(self, func))
+        except BaseException:
+            patches.undo()
+            raise
 
         self.snapshots = snapshots
         self.calls = []
-        self.snapshotters = snapshotters
+        self.patches = patches
 
     def stop(self):
-        for snapshotter in self.snapshotters:
-            func = snapshotter.func
-            set_function(func, func)
+        self.patches.undo()
 
         os.makedirs(self.mock_out_path, exist_ok=True)
 
@@ -187,7 +221,7 @@ class SnapshotFunctions:
             with open(os.path.join(self.mock_out_path, f"{name}.json"), "w") as f:
                 json.dump(snapshot.json_object(), f, indent=4)
 
-        self.snapshotters = None
+        self.patches = None
         self.snapshots = None
         self.calls = None
 
@@ -202,8 +236,10 @@ class SnapshotFunctions:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.t_snapshots()
-        self.stop()
+        try:
+            self.t_snapshots()
+        finally:
+            self.stop()
 
 
 def snapshot_functions(*snapshot_funcs):
@@ -234,25 +270,26 @@ class MockFunctions:
             mock_funcs = {}
 
         self.mock_funcs = mock_funcs
-        self._original_funcs = None
+        self._patches = None
 
     def start(self):
-        if self._original_funcs is not None:
+        if self._patches is not None:
             raise RuntimeError('FunctionSnapshots has already been started')
 
-        original_funcs = []
+        patches = FunctionPatches()
 
-        for func, mock in self.mock_funcs.items():
-            set_function(func, mock)
-            original_funcs.append(func)
+        try:
+            for func, mock in self.mock_funcs.items():
+                patches.set(func, mock)
+        except BaseException:
+            patches.undo()
+            raise
 
-        self._original_funcs = original_funcs
+        self._patches = patches
 
     def stop(self):
-        for func in self._original_funcs:
-            set_function(func, func)
-
-        self._original_funcs = None
+        self._patches.undo()
+        self._patches = None
 
     def __enter__(self):
         self.start()
-- 
2.43.0


From be93d32ca566ba47d3023db925f2a6c23cbd1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:21 +0000
Subject: [PATCH 31/47] fix: concurrent identical requests overwrote each
 other's snapshots

---
 booktest/httpx.py    | 21 ++++++++++++++++-----
 booktest/requests.py | 15 +++++++++++----
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index 6d441dc..c403788 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -219,14 +219,15 @@ class SnapshotHttpx:
 
         self.snapshots = snapshots
         self.requests = []
+        self.keys = []
 
         self._real_handle_request = None
         self._real_handle_async_request = None
 
     def mark_order(self, key: RequestKey):
-        for i in self.requests:
-            if key == i.request:
-                key = key.increase_order()
+        # also the requests, which are still being sent, have their place
+        while key in self.keys:
+            key = key.increase_order()
 
         return key
 
@@ -242,19 +243,25 @@ class SnapshotHttpx:
             if snapshot.match(key):
                 if snapshot not in self.requests:
                     self.requests.append(snapshot)
+                self.keys.append(key)
                 return key, snapshot.response
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
                              f"try running booktest with '-s' flag to capture the missing snapshot")
 
+        self.keys.append(key)
         return key, None
 
     def handle_request(self, transport: httpx.HTTPTransport, request: httpx.Request):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = self._real_handle_request(transport, request)
+            try:
+                rv = self._real_handle_request(transport, request)
+            except BaseException:
+                self.keys.remove(key)
+                raise
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
@@ -263,7 +270,11 @@ class SnapshotHttpx:
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = await self._real_handle_async_request(transport, request)
+            try:
+                rv = await self._real_handle_async_request(transport, request)
+            except BaseException:
+                self.keys.remove(key)
+                raise
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
diff --git a/booktest/requests.py b/booktest/requests.py
index 9e886fa..7f241cf 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -190,11 +190,12 @@ class SnapshotAdapter(adapters.BaseAdapter):
         self.json_to_hash = json_to_hash
         self.encode_body = encode_body
         self.requests = []
+        self.keys = []
 
     def mark_order(self, key: RequestKey):
-        for i in self.requests:
-            if key == i.request:
-                key = key.increase_order()
+        # also the requests, which are still being sent, have their place
+        while key in self.keys:
+            key = key.increase_order()
 
         return key
 
@@ -210,19 +211,25 @@ class SnapshotAdapter(adapters.BaseAdapter):
             if snapshot.match(key):
                 if snapshot not in self.requests:
                     self.requests.append(snapshot)
+                self.keys.append(key)
                 return key, snapshot.response
 
         if not self.capture_snapshots:
             raise ValueError(f"missing snapshot for request {request.url} - {key.hash}. "
                              f"try running booktest with '-s' flag to capture the missing snapshot")
 
+        self.keys.append(key)
         return key, None
 
     def send(self, request, **kwargs):
         key, rv = self.lookup_snapshot(request)
 
         if rv is None:
-            rv = adapters.HTTPAdapter().send(request)
+            try:
+                rv = adapters.HTTPAdapter().send(request)
+            except BaseException:
+                self.keys.remove(key)
+                raise
             self.requests.append(RequestSnapshot(key, rv))
 
         return rv
-- 
2.43.0


From 9d3f64e55963b41e14c391245fa7bf9989e12eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:21 +0000
Subject: [PATCH 32/47] fix: replayed redirects could not be followed

---
 booktest/requests.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/booktest/requests.py b/booktest/requests.py
index 7f241cf..da8b2a7 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -231,6 +231,10 @@ class SnapshotAdapter(adapters.BaseAdapter):
                 self.keys.remove(key)
                 raise
             self.requests.append(RequestSnapshot(key, rv))
+        else:
+            # needed e.g. for following relative redirects
+            rv.url = request.url
+            rv.request = request
 
         return rv
 
-- 
2.43.0


From 1294128c408da4f02d2ec97b793ccf95a40c793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:41 +0000
Subject: [PATCH 33/47] fix: repeated requests missed their snapshots with a
 custom hash

---
 booktest/httpx.py    | 3 ++-
 booktest/requests.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/booktest/httpx.py b/booktest/httpx.py
index c403788..03b21dc 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -67,7 +67,8 @@ class RequestKey:
         rv = RequestKey(json_object, False, self.json_to_hash)
         if rv.hash == self.hash:
             # the custom hash does not cover the order
-            rv = RequestKey(json_object, False)
+            json_object["hash"] = json_to_sha1({"hash": self.hash, "order": prev_order + 1})
+            rv = RequestKey(json_object, False, self.json_to_hash)
         return rv
 
     def url(self):
diff --git a/booktest/requests.py b/booktest/requests.py
index da8b2a7..27264f5 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -77,7 +77,8 @@ class RequestKey:
         rv = RequestKey(json_object, False, self.json_to_hash)
         if rv.hash == self.hash:
             # the custom hash does not cover the order
-            rv = RequestKey(json_object, False)
+            json_object["hash"] = json_to_sha1({"hash": self.hash, "order": prev_order + 1})
+            rv = RequestKey(json_object, False, self.json_to_hash)
         return rv
 
     def url(self):
-- 
2.43.0


From 7874873ded836614049fafae99271de0fa4cfd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:35 +0000
Subject: [PATCH 34/47] fix: mocking the environment with an unusable value
 left earlier values behind

---
 booktest/env.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/booktest/env.py b/booktest/env.py
index 76dbcd9..8e8d620 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -121,7 +121,15 @@ class MockMissingEnv:
 
             if old_value is None:
                 if value is not None:
-                    os.environ[name] = value
+                    self.set(name, value)
+
+    def set(self, name, value):
+        try:
+            os.environ[name] = value
+        except BaseException:
+            # leave no trace of the variables set so far
+            self.stop()
+            raise
 
     def stop(self):
         for name, value in self._old_env.items():
@@ -173,7 +181,15 @@ class MockEnv:
                 if name in os.environ:
                     del os.environ[name]
             else:
-                os.environ[name] = value
+                self.set(name, value)
+
+    def set(self, name, value):
+        try:
+            os.environ[name] = value
+        except BaseException:
+            # leave no trace of the variables set so far
+            self.stop()
+            raise
 
     def stop(self):
         for name, value in self._old_env.items():
-- 
2.43.0


From 3a30e8c3540f21ed68f1e54a0a1c7cb5f7e8b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:41 +0000
Subject: [PATCH 35/47] fix: paths with blanks or shell characters broke the
 review tools

---
 booktest/review.py | 16 +++++++++-------
 booktest/tests.py  |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/booktest/review.py b/booktest/review.py
index 7487568..dc0a29d 100644
--- a/booktest/review.py
+++ b/booktest/review.py
@@ -1,5 +1,6 @@
 import os.path as path
 import os
+import shlex
 import shutil
 
 from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, Metrics
@@ -13,10 +14,11 @@ from booktest.reports import TestResult, CaseReports, UserRequest, read_lines, M
 BOOK_TEST_PREFIX = "BOOKTEST_"
 
 
-def run_tool(config, tool, args):
+def run_tool(config, tool, files):
     """ Run a tool used in reviews """
     cmd = config.get(tool, None)
     if cmd is not None:
+        args = " ".join(shlex.quote(file) for file in files)
         return os.system(f"{cmd} {args}")
     else:
         print(f"{tool} is not defined.")
@@ -65,20 +67,20 @@ def interact(exp_dir, out_dir, case_name, test_result, config):
             done = True
         elif answer == "v":
             if os.path.exists(exp_file_name):
-                arg = f"{exp_file_name} {out_file_name}"
+                files = [exp_file_name, out_file_name]
             else:
-                arg = out_file_name
-            run_tool(config, "md_viewer", arg)
+                files = [out_file_name]
+            run_tool(config, "md_viewer", files)
         elif answer == "l":
-            run_tool(config, "log_viewer", log_file_name)
+            run_tool(config, "log_viewer", [log_file_name])
         elif answer == "d":
             run_tool(config,
                      "diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     [exp_file_name, out_file_name])
         elif answer == "D":
             run_tool(config,
                      "fast_diff_tool",
-                     f"{exp_file_name} {out_file_name}")
+                     [exp_file_name, out_file_name])
     return rv, user_request
 
 
diff --git a/booktest/tests.py b/booktest/tests.py
index 37fe67f..799fdf9 100644
--- a/booktest/tests.py
+++ b/booktest/tests.py
@@ -472,7 +472,7 @@ class Tests:
                 if path.exists(file):
                     files.append(file)
             if len(files) > 0:
-                return run_tool(config, "md_viewer", " ".join(files))
+                return run_tool(config, "md_viewer", files)
             else:
                 return 0
         elif cmd == '--clean':
-- 
2.43.0


From 664788d976e2034f6c23fea840af64e81e809c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 36/47] fix: importing TestBook into a test file listed a bogus
 test case

---
 booktest/detection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/booktest/detection.py b/booktest/detection.py
index a30331f..504857b 100644
--- a/booktest/detection.py
+++ b/booktest/detection.py
@@ -68,6 +68,9 @@ def parse_test_file(root, f):
         member = getattr(module, name)
         if isinstance(member, type) and \
                 issubclass(member, bt.TestBook):
+            if member is bt.TestBook:
+                # the base class itself is no test, even if the file imports it
+                continue
             member_signature = signature(member)
             needed_arguments = 0
             for parameter in member_signature.parameters.values():
-- 
2.43.0


From 3ae2e8fcbc999cdf0782f471e36fec2418b38f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 37/47] fix: a snapshot that cannot be read left the process
 without its stderr and log handlers

---
 booktest/testcaserun.py | 13 +++++++++++--
 booktest/testrun.py     |  8 ++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index b1495d2..a3e6e3a 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -188,7 +188,12 @@ class TestCaseRun:
         """
         # open resources and swap loggers and stderr
         self.open()
-        self.reset_exp_reader()
+        try:
+            self.reset_exp_reader()
+        except BaseException:
+            # the snapshot cannot be read: do not leave the process without its stderr
+            self.close()
+            raise
 
         self.started = time.time()
         report_case_begin(self.print,
@@ -229,7 +234,11 @@ s
         if len(self.out_line) > 0 \
            or self.line_diff is not None \
            or self.line_error is not None:
-            self.feed_token("\n", check=self.last_checked)
+            try:
+                self.feed_token("\n", check=self.last_checked)
+            except BaseException:
+                self.close()
+                raise
 
         self.close()
 
diff --git a/booktest/testrun.py b/booktest/testrun.py
index 825ab06..10da025 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -104,8 +104,12 @@ class TestRun:
             t.close()
             raise
         except BaseException as e:
-            t.iln().fail().iln(f"test raised exception {e}:")
-            t.iln(traceback.format_exc())
+            try:
+                t.iln().fail().iln(f"test raised exception {e}:")
+                t.iln(traceback.format_exc())
+            except BaseException:
+                t.close()
+                raise
             rv = None
 
         result, interaction = t.end()
-- 
2.43.0


From 998159d0096827732b68f01bcd4a0ba6d6a81ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:54 +0000
Subject: [PATCH 38/47] fix: text that cannot be encoded broke down the whole
 run

---
 booktest/testcaserun.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index a3e6e3a..4690ba8 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -281,7 +281,8 @@ s
         # open files
         self.out = open(self.out_file_name, "w")
         self.rep = open(self.rep_file_name, "w")
-        self.err = open(self.err_file_name, "w")
+        # like in the process' own stderr, anything can be written
+        self.err = open(self.err_file_name, "w", errors="backslashreplace")
         self.log = logging.StreamHandler(self.err)
 
         # swap logger
@@ -532,6 +533,13 @@ s
         self.feed_token(token, check=True)
         return self
 
+    def writable(self, text):
+        """
+        Escapes characters, that the output file cannot hold (e.g. lone surrogates)
+        """
+        encoding = self.out.encoding
+        return text.encode(encoding, "backslashreplace").decode(encoding)
+
     def test_feed(self, text):
         """
         Feeds a piece text into the test stream. The text tokenized and feed
@@ -540,7 +548,7 @@ s
         NOTE: The token content IS COMPARED to snapshot content for differences
         that are reported.
         """
-        tokens = TestTokenizer(str(text))
+        tokens = TestTokenizer(self.writable(str(text)))
         for t in tokens:
             self.test_feed_token(t)
         return self
@@ -553,7 +561,7 @@ s
         NOTE: The token content IS NOT COMPARED to snapshot content, and differences
         are ignored
         """
-        tokens = TestTokenizer(text)
+        tokens = TestTokenizer(self.writable(text))
         for t in tokens:
             self.feed_token(t)
         return self
-- 
2.43.0


From 60fedaa207a14922f51798c28b8d3ba58b9270c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:36 +0000
Subject: [PATCH 39/47] fix: tests that a worker cannot load made a parallel
 run hang

---
 booktest/runs.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/booktest/runs.py b/booktest/runs.py
index 70da15d..808ca3d 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -1,6 +1,7 @@
 import traceback
 import multiprocessing
 import os
+import pickle
 import shutil
 import threading
 import time
@@ -59,7 +60,23 @@ class RunBatch:
         self.config = config
         self.setup = setup
 
+    def __getstate__(self):
+        return pickle.dumps(self.__dict__)
+
+    def __setstate__(self, state):
+        # what follows is loaded when the batch is run: a worker
+        # that fails to receive its task would never report it
+        self.pickled = state
+
     def __call__(self, case):
+        if "pickled" in self.__dict__:
+            try:
+                self.__dict__ = pickle.loads(self.pickled)
+            except BaseException as e:
+                print(f"{case} failed with {e}")
+                traceback.print_exc()
+                return test_result_to_exit_code(TestResult.FAIL)
+
         path = case.split("/")
         batch_name = ".".join(path)
         batch_dir = \
-- 
2.43.0


From 887511822c49ccd1f43658f49111f26d636c381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:00 +0000
Subject: [PATCH 40/47] fix: results kept in memory hid newer results of other
 processes

---
 booktest/testrun.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index 10da025..cd9e2eb 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -31,6 +31,17 @@ def match_method(matcher, method):
     return matcher_func == method_func and (matcher_self == method_self or matcher_self is None)
 
 
+def result_version(bin_path):
+    """
+    Identifies the stored result, or None, if there is none
+    """
+    try:
+        stat = os.stat(bin_path)
+    except FileNotFoundError:
+        return None
+    return stat.st_ino, stat.st_mtime_ns, stat.st_size
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -61,13 +72,17 @@ class TestRun:
             # a bit hacky way for figuring out the dependencies
             if match_method(method, t[1]):
                 bin_path = self.tests.test_result_path(self.out_dir, t[0])
-                if bin_path in self.cache:
-                    return True, self.cache[bin_path]
-
-                if path.exists(bin_path):
+                version = result_version(bin_path)
+                if version is not None and bin_path in self.cache:
+                    # another process may have replaced the result since
+                    cached_version, rv = self.cache[bin_path]
+                    if cached_version == version:
+                        return True, rv
+
+                if version is not None:
                     with open(bin_path, 'rb') as file:
                         rv = pickle.load(file)
-                        self.cache[bin_path] = rv
+                        self.cache[bin_path] = version, rv
                 else:
                     raise Exception(
                         f"case {case.name} dependency {t[0]}" +
@@ -80,13 +95,13 @@ class TestRun:
 
     def save_test_result(self, case_path, result):
         bin_path = self.tests.test_result_path(self.out_dir, case_path)
-        self.cache[bin_path] = result
         # also None is a result, which dependent tests may receive in other processes
         # replace the file at once to not leave a broken result on interruptions
         tmp_path = f"{bin_path}.tmp"
         with open(tmp_path, 'wb') as file:
             pickle.dump(result, file)
         os.replace(tmp_path, bin_path)
+        self.cache[bin_path] = result_version(bin_path), result
 
     async def run_case(self, case_path, case, title=None) \
             -> (TestResult, UserRequest, float):
-- 
2.43.0


From 935b32327aadeab4e3bddddba6eb4c149efc4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:00 +0000
Subject: [PATCH 41/47] fix: parallel cases with names like a.b and a/b shared
 their batch directory

---
 booktest/runs.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index 808ca3d..f0e7f77 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -31,6 +31,11 @@ def batch_dir(out_dir: str):
             ".batches")
 
 
+def batch_name(case: str):
+    # different cases must not share a directory
+    return case.replace("%", "%25").replace(".", "%2E").replace("/", ".")
+
+
 def prepare_batch_dir(out_dir: str):
     if len(out_dir) < len(".out"):
         raise ValueError(f"dangerous looking {out_dir}!")
@@ -77,19 +82,15 @@ class RunBatch:
                 traceback.print_exc()
                 return test_result_to_exit_code(TestResult.FAIL)
 
-        path = case.split("/")
-        batch_name = ".".join(path)
         batch_dir = \
             os.path.join(
                 self.out_dir,
                 ".batches",
-                batch_name)
+                batch_name(case))
 
         output_file = \
             os.path.join(
-                self.out_dir,
-                ".batches",
-                batch_name,
+                batch_dir,
                 "output.txt")
 
         output = open(output_file, "w")
@@ -118,8 +119,7 @@ class RunBatch:
 
 
 def case_batch_dir_and_report_file(batches_dir, name):
-    path = ".".join(name.split("/"))
-    batch_dir = os.path.join(batches_dir, path)
+    batch_dir = os.path.join(batches_dir, batch_name(name))
     return batch_dir, os.path.join(batch_dir, "cases.txt")
 
 
-- 
2.43.0


From 971dc91bb2ff91f9cfeafef8ff0a7c410bf5147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 42/47] fix: answers whose body is not UTF-8 could not be
 captured with requests

---
 booktest/requests.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 27264f5..46d3165 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -151,7 +151,7 @@ class RequestSnapshot:
         response.headers = requests.structures.CaseInsensitiveDict(response_json["headers"])
         response.status_code = response_json["statusCode"]
         response.encoding = response_json["encoding"]
-        response._content = response_json["content"].encode()
+        response._content = response_json["content"].encode("utf-8", "surrogateescape")
 
         return RequestSnapshot(RequestKey(json_object["request"], ignore_headers, json_to_hash),
                                response)
@@ -163,7 +163,8 @@ class RequestSnapshot:
                 "headers": dict(self.response.headers),
                 "statusCode": self.response.status_code,
                 "encoding": self.response.encoding,
-                "content": self.response.content.decode()
+                # the content may also be binary
+                "content": self.response.content.decode("utf-8", "surrogateescape")
             }
         }
 
-- 
2.43.0


From 00cf693e49ed826c381024788b8aeaa856ce297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 43/47] fix: several snapshots of one test overwrote each
 other's store

---
 booktest/env.py      | 9 ++++++++-
 booktest/httpx.py    | 4 ++++
 booktest/requests.py | 4 ++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/booktest/env.py b/booktest/env.py
index 8e8d620..2d514d6 100644
--- a/booktest/env.py
+++ b/booktest/env.py
@@ -63,8 +63,15 @@ class SnapshotEnv:
     def stop(self):
         self.restore()
 
+        stored = {}
+        # keep also what other environment snapshots of this test stored
+        if os.path.exists(self.snapshot_out_path):
+            with open(self.snapshot_out_path, "r") as f:
+                stored = json.load(f)
+        stored.update(self.capture)
+
         with open(self.snapshot_out_path, "w") as f:
-            json.dump(self.capture, f, indent=4)
+            json.dump(stored, f, indent=4)
 
     def t_snapshots(self):
         self.t.h1("env snaphots:")
diff --git a/booktest/httpx.py b/booktest/httpx.py
index 03b21dc..5169c3c 100644
--- a/booktest/httpx.py
+++ b/booktest/httpx.py
@@ -318,6 +318,10 @@ class SnapshotHttpx:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
+        # keep also what other httpx snapshots of this test stored
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
         for snapshot in self.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
diff --git a/booktest/requests.py b/booktest/requests.py
index 46d3165..23f0d6b 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -378,6 +378,10 @@ class SnapshotRequests:
 
         # let's store everything in one file to avoid spamming git
         stored = {}
+        # keep also what other request snapshots of this test stored
+        if os.path.exists(self.mock_out_file):
+            with open(self.mock_out_file, "r") as f:
+                stored = json.load(f)
         for snapshot in self._adapter.requests:
             name = snapshot.hash()
             stored[name] = snapshot.json_object(self._lose_request_details)
-- 
2.43.0


From 9a1ff9e46e5413f8ca5ce374d228183767eb8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:29 +0000
Subject: [PATCH 44/47] fix: a parallel run often never ended after Ctrl-C

---
 booktest/runs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/booktest/runs.py b/booktest/runs.py
index f0e7f77..1308cee 100644
--- a/booktest/runs.py
+++ b/booktest/runs.py
@@ -3,6 +3,7 @@ import multiprocessing
 import os
 import pickle
 import shutil
+import signal
 import threading
 import time
 from collections import defaultdict
@@ -36,6 +37,14 @@ def batch_name(case: str):
     return case.replace("%", "%25").replace(".", "%2E").replace("/", ".")
 
 
+def init_worker():
+    import coverage
+    # interruptions are handled by the main process: a worker, that
+    # breaks down while it fetches a task, would block all others
+    signal.signal(signal.SIGINT, lambda signum, frame: None)
+    coverage.process_startup()
+
+
 def prepare_batch_dir(out_dir: str):
     if len(out_dir) < len(".out"):
         raise ValueError(f"dangerous looking {out_dir}!")
@@ -286,9 +295,8 @@ class ParallelRunner:
             time.sleep(0.01)
 
     def __enter__(self):
-        import coverage
         self.finished = False
-        self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=coverage.process_startup)
+        self.pool = multiprocessing.get_context('spawn').Pool(self.process_count, initializer=init_worker)
         self.pool.__enter__()
 
         self.thread = threading.Thread(target=self.thread_function)
-- 
2.43.0


From a9dac8945941db7d4c71097e011ccd515a203d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:02 +0000
Subject: [PATCH 45/47] fix: sessions used during a request snapshot did not
 get their own adapters back

---
 booktest/requests.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/booktest/requests.py b/booktest/requests.py
index 23f0d6b..3630d13 100644
--- a/booktest/requests.py
+++ b/booktest/requests.py
@@ -304,7 +304,6 @@ class SnapshotRequests:
         self.mock_out_file = t.file(".requests.json")
         self._mock_target = requests.Session
         self._last_send = None
-        self._last_get_adapter = None
         self._lose_request_details = lose_request_details
         self._ignore_headers = ignore_headers
         self._encode_body = encode_body
@@ -344,20 +343,23 @@ class SnapshotRequests:
 
         # backup last `send` for restoration on `self.stop`
         self._last_send = self._mock_target.send
-        self._last_get_adapter = self._mock_target.get_adapter
 
         def _fake_get_adapter(session, url):
             return self._adapter
 
         def _fake_send(session, request, **kwargs):
             with threading_rlock(timeout=10):
+                own_get_adapter = vars(session).get("get_adapter")
                 _set_method(session, "get_adapter", _fake_get_adapter)
 
                 try:
                     return _original_send(session, request, **kwargs)
                 finally:
                     # restore get_adapter
-                    _set_method(session, "get_adapter", self._last_get_adapter)
+                    if own_get_adapter is not None:
+                        session.get_adapter = own_get_adapter
+                    else:
+                        del session.get_adapter
 
             if isinstance(self._mock_target, type):
                 return self._last_send(session, request, **kwargs)
-- 
2.43.0


From 79b956da90c542fd7e2d880662bbeba434377632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:19 +0000
Subject: [PATCH 46/47] fix: an exception that cannot be printed stopped the
 whole run

---
 booktest/testrun.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/booktest/testrun.py b/booktest/testrun.py
index cd9e2eb..7291e13 100644
--- a/booktest/testrun.py
+++ b/booktest/testrun.py
@@ -42,6 +42,14 @@ def result_version(bin_path):
     return stat.st_ino, stat.st_mtime_ns, stat.st_size
 
 
+def exception_text(e):
+    try:
+        return str(e)
+    except Exception:
+        # also the exceptions, that cannot be printed, are failures of the test
+        return f"<unprintable {type(e).__name__}>"
+
+
 class TestRun:
     """
     Runs a selection of test cases from the test-object
@@ -120,7 +128,7 @@ class TestRun:
             raise
         except BaseException as e:
             try:
-                t.iln().fail().iln(f"test raised exception {e}:")
+                t.iln().fail().iln(f"test raised exception {exception_text(e)}:")
                 t.iln(traceback.format_exc())
             except BaseException:
                 t.close()
-- 
2.43.0


From 83fe9700683a2c8686daa7bb3fad1e5287e1b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:17 +0000
Subject: [PATCH 47/47] fix: set items, sections and keys with lone surrogates
 never matched their snapshot

---
 booktest/testcaserun.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/booktest/testcaserun.py b/booktest/testcaserun.py
index 4690ba8..f09aad6 100644
--- a/booktest/testcaserun.py
+++ b/booktest/testcaserun.py
@@ -586,7 +586,8 @@ s
         This method is used for controlling the snapshot cursor location and guaranteeing
         that a section in test is compared against correct section in the snapshot
         """
-        self.seek_prefix(anchor)
+        # the snapshot holds what can be written of it
+        self.seek_prefix(self.writable(anchor))
         self.t(anchor)
         return self
 
@@ -598,7 +599,8 @@ s
         This method is used for controlling the snapshot cursor location and guaranteeing
         that a section in test is compared against correct section in the snapshot
         """
-        self.seek_line(anchor)
+        # the snapshot holds what can be written of it
+        self.seek_line(self.writable(str(anchor)))
         self.tln(anchor)
         return self
 
@@ -791,6 +793,8 @@ s
         NOTE: this method may be slow, if the set order is unstable.
         """
         compare = None
+        # the snapshot holds what can be written of the items
+        prefix = self.writable(prefix)
 
         if self.exp_file_exists:
             begin = self.exp_line_number
@@ -803,7 +807,7 @@ s
             end = self.exp_line_number
 
         for i in items:
-            i_str = str(i)
+            i_str = self.writable(str(i))
             line = f"{prefix}{i_str}"
             if compare is not None:
                 if i_str in compare:
-- 
2.43.0

