From 99e7adc61245981e8eb45a6acbd1938db19346fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 01/91] fix: do not stop searching while objects are still in
 transit between processes

A multiprocessing.Queue transfers objects in a background thread, so a queue
that looks empty to all processes is no proof that there is nothing left to
do. On a busy system search results were silently lost. Count the objects
that have not been processed yet and let the barrier decide on that.
---
 libff/context.py    | 40 ++++++++++++++++++++++++++++++++++++----
 libff/processing.py | 13 +++++++++----
 libff/walk.py       |  8 +++++---
 3 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index 174304a..b8afe12 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -49,6 +49,8 @@ class Context:
         self.global_lock = None
         self.stop_queue = None
         self.barrier = None
+        self.pending = None
+        self.finished = None
         self.exitcode_object = None
         self.process_succeeded = None
         self.process_failed = None
@@ -72,7 +74,13 @@ class Context:
             num_jobs = 1
         else:
             num_jobs = self.args.jobs + 1
-        self.barrier = multiprocessing.Barrier(num_jobs)
+        self.barrier = multiprocessing.Barrier(num_jobs, self.check_finished)
+
+        # Keep track of the number of objects that were put in a queue but have not been completely
+        # processed yet. A queue that looks empty is no proof that there is nothing left to do,
+        # because multiprocessing.Queue uses a background thread to transfer the objects.
+        self.pending = multiprocessing.Value("L")
+        self.finished = multiprocessing.sharedctypes.RawValue("B", 0)
 
         # The exitcode object provides a way for --exec and --exec-batch processes to feed back
         # errors to the main process.
@@ -113,9 +121,33 @@ class Context:
         """
         return self._has_result.value == 1
 
+    def put(self, queue, obj):
+        """Put an object in a queue and remember that there is something left to process.
+        """
+        with self.pending.get_lock():
+            self.pending.value += 1
+        queue.put(obj)
+
+    def task_done(self):
+        """Report that an object that was fetched from a queue has been completely processed.
+        """
+        with self.pending.get_lock():
+            self.pending.value -= 1
+
+    def check_finished(self):
+        """Check if there is nothing left to process. This is called by the Barrier exactly once
+           while all processes are waiting, so that they all come to the same conclusion.
+        """
+        if __debug__ and self.args.profile:
+            # There is only one process that does not wait for the results to be collected.
+            self.finished.value = 1
+        else:
+            self.finished.value = self.pending.value == 0
+
     def barrier_wait(self, timeout=TIMEOUT):
-        """Wait for all processes to reach the Barrier. If all processes do that means that there
-           is no more input and processing is finished.
+        """Wait for all processes to reach the Barrier. If all processes do that and there are no
+           more objects in transit that means that there is no more input and processing is
+           finished.
         """
         try:
             self.barrier.wait(timeout)
@@ -123,7 +155,7 @@ class Context:
             self.barrier.reset()
             return self.is_stopping()
         else:
-            return True
+            return self.finished.value == 1 or self.is_stopping()
 
     def idle_processes(self):
         """Return the number of idle processes, i.e. processes that are waiting for the barrier
diff --git a/libff/processing.py b/libff/processing.py
index 58cf6a6..8bf9489 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -223,7 +223,7 @@ class CollectiveMixin(BaseProcessing):
         self.count = collections.Counter()
 
     def process(self, entries):
-        self.out_queue.put(entries)
+        self.context.put(self.out_queue, entries)
 
     def entries_range(self):
         """Limit the list of entries according to the -l/--limit option.
@@ -248,6 +248,7 @@ class CollectiveMixin(BaseProcessing):
                 self.collect_count(entries)
 
             self.entries += entries
+            self.context.task_done()
 
     def finalize(self):
         if self.args.sort is not None:
@@ -408,19 +409,22 @@ class ImmediateGenerator(ImmediateBaseProcessing):
         pass
 
     def process(self, entries):
-        self.out_queue.put(entries)
+        self.context.put(self.out_queue, entries)
 
     def __iter__(self):
         while True:
             try:
-                for entry in self.out_queue.get(timeout=TIMEOUT):
-                    yield self.args.output.to_dict(entry)
+                entries = self.out_queue.get(timeout=TIMEOUT)
             except queue.Empty:
                 if self.processing_done():
                     break
                 else:
                     continue
 
+            for entry in entries:
+                yield self.args.output.to_dict(entry)
+            self.context.task_done()
+
 
 class CollectiveGenerator(ImmediateGenerator):
     """Processing class that allows iteration over the results after they have been postprocessed.
@@ -442,6 +446,7 @@ class CollectiveGenerator(ImmediateGenerator):
                     continue
 
             self.entries += entries
+            self.context.task_done()
 
     def finalize(self):
         super().finalize()
diff --git a/libff/walk.py b/libff/walk.py
index 16e31e2..4a3f720 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -60,7 +60,7 @@ class FilesystemWalker(BaseClass):
            ImmediateExecProcessing processor to run as subprocesses in the context of the
            FilesystemWalker.
         """
-        self.queue.put(chunk)
+        self.context.put(self.queue, chunk)
 
     def start_processes(self):
         """Start a pool of processes that walk through the filesystem.
@@ -118,6 +118,8 @@ class FilesystemWalker(BaseClass):
                     for obj in objs:
                         self.process_arguments(obj)
 
+                self.context.task_done()
+
             self.cache.close()
 
         except Exception:
@@ -216,7 +218,7 @@ class FilesystemWalker(BaseClass):
                         self.context.idle_processes() / self.args.jobs > 0.25 and \
                         len(entries) > 10:
                     split = len(entries) // 2 + 1
-                    self.queue.put(Entries(parent, entries[split:]))
+                    self.put(Entries(parent, entries[split:]))
                     entries = entries[:split]
 
         except OSError as exc:
@@ -228,7 +230,7 @@ class FilesystemWalker(BaseClass):
             chunk_size = min(100, max(10, int(len(search) / self.args.jobs) + 1))
 
             for i in range(0, len(search), chunk_size):
-                self.queue.put(search[i:i + chunk_size])
+                self.put(search[i:i + chunk_size])
 
         while process:
             # Reduce number of Entry object that are sent in one go. This resolves issues with
-- 
2.43.0


From 2bf59dfe45a3b68dd6e6543fc9f38881e7e9acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 02/91] fix: reject empty alternatives inside of brackets

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index ba70ce7..2a6b446 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -130,7 +130,7 @@ class Parser(BaseClass):
                 continue
 
             elif token in self.CLOSING_BRACKETS:
-                if not sequences[-1]:
+                if any(not seq for seq in sequences):
                     raise ParserError("empty expression")
                 self.tokens.insert(0, token)
                 return
-- 
2.43.0


From d36af4b497abbd3d8271b36c79291aa33c7d0bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 03/91] fix: natural sorting failed on values that were not
 comparable

---
 libff/field.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 79121de..098ca48 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -140,18 +140,17 @@ class SortFields(OutputFields):
             component = comp
             extensions.insert(0, ext)
 
-        # Split the component into string and number parts. Make sure the list starts with a
-        # string.
+        # Split the component into alternating string and number parts. The list always starts with
+        # a string.
         parts = self.regex_digits.split(component)
-        if parts[0].isdigit():
-            parts.insert(0, "")
 
         # Yield a list of tokens with all numbers converted to ints.
-        yield [int(p) if p.isdigit() else p for p in parts]
+        yield [int(p) if i % 2 else p for i, p in enumerate(parts)]
 
-        # Yield extensions separately.
+        # Yield extensions separately. They must alternate with numbers as well, in order to be
+        # comparable with the other components.
         if extensions:
-            yield extensions
+            yield [p for ext in extensions for p in (ext, 0)]
 
     def prepare_sort_key(self, value):
         """Prepare a sort key from a path for natural/version sorting.
@@ -171,12 +170,12 @@ class SortFields(OutputFields):
             try:
                 value = self.registry.get_attribute(entry, field.attribute)
             except KeyError:
-                output.append(field.type.sort_none)
+                value = field.type.sort_none
             else:
                 value = field.type.sort_key(value)
-                if field.modifier == "v":
-                    value = self.prepare_sort_key(value)
-                output.append(value)
+            if field.modifier == "v" and isinstance(value, str):
+                value = self.prepare_sort_key(value)
+            output.append(value)
         return tuple(output)
 
 
-- 
2.43.0


From b67611238b1067e78dd178738afedeea0b48fe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 04/91] fix: make tar.members sortable and ignore files that
 are no valid tar archives

---
 plugins/tar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/plugins/tar.py b/plugins/tar.py
index 006867a..6c2cc8b 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -18,6 +18,8 @@
 #
 # -----------------------------------------------------------------------
 
+import lzma
+import zlib
 import tarfile
 
 from libff.plugin import *
@@ -46,13 +48,13 @@ class Tar(Plugin):
             ".tar.xz", ".txz")
 
     def can_handle(self, entry):
-        return entry.name.endswith(self.extensions)
+        return entry.is_file() and entry.name.endswith(self.extensions)
 
     def cache(self, entry):
         try:
             with tarfile.open(entry.path) as tar:
-                return set(name for name in tar.getnames())
-        except (OSError, EOFError) as exc:
+                return sorted(set(tar.getnames()))
+        except (OSError, EOFError, tarfile.TarError, zlib.error, lzma.LZMAError) as exc:
             raise NoData from exc
 
     def process(self, entry, cached):
-- 
2.43.0


From 8bed4c1d436964dd2c7a21123e9c8d4759f75cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 05/91] fix: print counts for values that are partly numeric
 and for empty results

---
 libff/processing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index 8bf9489..f53aca2 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -221,6 +221,7 @@ class CollectiveMixin(BaseProcessing):
         self.out_queue = multiprocessing.Queue()
         self.entries = []
         self.count = collections.Counter()
+        self.count["_total"] = 0
 
     def process(self, entries):
         self.context.put(self.out_queue, entries)
@@ -317,6 +318,16 @@ class CollectiveMixin(BaseProcessing):
 
         return count
 
+    @staticmethod
+    def get_count_key(item):
+        """Return a key for sorting the items of a by-value count, numbers come before strings.
+        """
+        key = item[0]
+        if key.isdecimal():
+            return 0, int(key), key
+        else:
+            return 1, 0, key
+
     def print_count(self):
         """Print collected value count.
         """
@@ -330,8 +341,7 @@ class CollectiveMixin(BaseProcessing):
         else:
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
-                    for k, v in sorted(value.items(),
-                            key=lambda t: int(t[0]) if t[0].isdigit() else t[0]):
+                    for k, v in sorted(value.items(), key=self.get_count_key):
                         print(f"{key}[{k}]={v}")
                 else:
                     print(f"{key}={value}")
-- 
2.43.0


From 1342982c19b87462a4dd3ce5810ac481a845e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 06/91] fix: do not count the same attribute twice

---
 libff/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/field.py b/libff/field.py
index 098ca48..da1d268 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -116,6 +116,9 @@ class CountFields(OutputFields):
     def store(self, argument):
         super().store(argument)
 
+        # Remove duplicates, so that no attribute is counted more than once.
+        self[:] = dict.fromkeys(self)
+
         for field in self:
             if field.type.count is Count.UNCOUNTABLE:
                 raise UsageError(f"Attribute {field.attribute} is not suited for --count!")
-- 
2.43.0


From 36602595b5b6b50f76831f5ab16b8c0c8a30d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 07/91] fix: do not mix up long records that are written by
 different processes

---
 libff/console.py | 30 +++++++++++++++++-------------
 libff/context.py |  4 ++++
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index dd25215..adc5656 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -78,9 +78,10 @@ class JsonlConsole(BaseConsole):
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        json.dump(record, sys.stdout)
-        print()
-        sys.stdout.flush()
+        line = json.dumps(record)
+        with self.context.output_lock:
+            print(line)
+            sys.stdout.flush()
 
 
 class JsonConsole(JsonlConsole):
@@ -241,16 +242,19 @@ class Console(BaseConsole):
     def _write_line(self, line):
         """Print a line of output handling encoding errors.
         """
-        try:
-            print(line, end=self.args.newline)
-        except UnicodeEncodeError:
-            print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
-                    end=self.args.newline)
-
-        # If we don't flush stdout, printed results may be lost. That is because when the main
-        # process exits, all multiprocessing processes vanish instantly without pending output
-        # buffers being written.
-        sys.stdout.flush()
+        # Prevent that lines that are too long to be written in one go are mixed up with the output
+        # from other processes.
+        with self.context.output_lock:
+            try:
+                print(line, end=self.args.newline)
+            except UnicodeEncodeError:
+                print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
+                        end=self.args.newline)
+
+            # If we don't flush stdout, printed results may be lost. That is because when the main
+            # process exits, all multiprocessing processes vanish instantly without pending output
+            # buffers being written.
+            sys.stdout.flush()
 
 
 class ColorConsole(Console):
diff --git a/libff/context.py b/libff/context.py
index b8afe12..d50a384 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -47,6 +47,7 @@ class Context:
         self.processing = None
 
         self.global_lock = None
+        self.output_lock = None
         self.stop_queue = None
         self.barrier = None
         self.pending = None
@@ -65,6 +66,9 @@ class Context:
         """
         self.global_lock = multiprocessing.Lock()
 
+        # Make sure that each record is written to standard output as a whole.
+        self.output_lock = multiprocessing.Lock()
+
         # We use a Queue object to emulate a stop event, because multiprocessing.Event did not work
         # the way I expected it.
         self.stop_queue = multiprocessing.Queue(self.args.jobs)
-- 
2.43.0


From 9ef4104e20c76a6fb8dea58c4148f3bcf62e842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 08/91] fix: stop quietly when standard output is closed by the
 reader

---
 libff/main.py | 17 ++++++++++++++++-
 libff/walk.py |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index f5cc1a2..cbb40f3 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -254,6 +254,15 @@ class Main(_Base):
         else:
             self.context.processing = ImmediateConsoleProcessing(self.context)
 
+    @staticmethod
+    def discard_output():
+        """Discard all output, because nobody is reading it anymore. This also prevents another
+           exception when standard output is flushed at exit.
+        """
+        devnull = os.open(os.devnull, os.O_WRONLY)
+        os.dup2(devnull, sys.stdout.fileno())
+        os.close(devnull)
+
     def walk(self):
         """Walk through the filesystem and process the results.
         """
@@ -292,10 +301,16 @@ class Main(_Base):
 
         except BrokenPipeError:
             self.context.stop()
+            self.discard_output()
 
         self.context.close()
         self.context.walker.close()
-        self.context.processing.close()
+
+        try:
+            self.context.processing.close()
+            sys.stdout.flush()
+        except BrokenPipeError:
+            self.discard_output()
 
         if __debug__:
             hits = self.context.cache_hits.value
diff --git a/libff/walk.py b/libff/walk.py
index 4a3f720..503f094 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -122,6 +122,10 @@ class FilesystemWalker(BaseClass):
 
             self.cache.close()
 
+        except BrokenPipeError:
+            # Nobody is reading our output anymore.
+            self.context.stop()
+
         except Exception:
             # Terminate all processes if an unexpected error occurs.
             self.context.set_exitcode(EX_PROCESS)
-- 
2.43.0


From 5f10ccd9067fa0fe8be350446e3ad990227abff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 09/91] fix: do not silently drop entries that are too long for
 a command line

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index f53aca2..0fec73b 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -385,7 +385,7 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                     if process.returncode != 0:
                         self.context.set_exitcode(EX_SUBPROCESS)
                 except OSError as exc:
-                    if exc.errno == errno.E2BIG:
+                    if exc.errno == errno.E2BIG and len(entries) > 1:
                         # As long as the command line is too long to pass to a subprocess, split
                         # the list of entries list in two and try again. This is much easier than
                         # to come up with a reliable heuristic based on SC_ARG_MAX, which is the
-- 
2.43.0


From a74d2bcc06188d991e80182bacebe2ad36729eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 10/91] fix: report invalid option arguments instead of failing
 with a traceback or accepting them

---
 libff/argparse.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 576e1d9..b4d4bb9 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -359,7 +359,8 @@ class ArgumentParser:
 
             if option.action in ("store", "store_optional", "append"):
                 argv.insert(i, short_option)
-                argv.insert(i + 1, arg[1:])
+                if arg[1:]:
+                    argv.insert(i + 1, arg[1:])
                 break
             else:
                 argv.insert(i, short_option)
@@ -414,13 +415,28 @@ class ArgumentParser:
 
         return self.namespace
 
+    @staticmethod
+    def convert_argument(option, string):
+        """Convert an argument to the type of the option and check if it is valid.
+        """
+        try:
+            value = option.type(string)
+        except ValueError as exc:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr}: {exc}") from exc
+
+        if option.choices is not None and value not in option.choices:
+            raise ArgumentError(f"invalid argument {string!r} for {option.repr} "\
+                    f"(choose from {', '.join(option.choices)})")
+
+        return value
+
     def get_argument(self, option, argv):
         """Fetch the next argument from the argument list.
         """
         if not argv:
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def get_optional_argument(self, option, argv):
         """Fetch an optional argument from the argument list.
@@ -428,7 +444,7 @@ class ArgumentParser:
         if not argv or argv[0].startswith("-"):
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def parse_option(self, argv):
         """Parse a single option and act according to its action.
-- 
2.43.0


From 8d777626d4ec0246caafa27c0f1f94da2e64fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 11/91] fix: report invalid -e/--exclude arguments without a
 traceback

---
 libff/main.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libff/main.py b/libff/main.py
index cbb40f3..2571bc3 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -137,9 +137,12 @@ class _Base(BaseClass):
         except ParserError as exc:
             raise UsageError(f"unable to parse tests: {exc}") from exc
 
-        # Setup the excluder from the command line arguments.
-        excluder = Excluder(self.context, args.exclude)
-        self.context.excluder = excluder
+        try:
+            # Setup the excluder from the command line arguments.
+            excluder = Excluder(self.context, args.exclude)
+            self.context.excluder = excluder
+        except ParserError as exc:
+            raise UsageError(f"unable to parse exclude tests: {exc}") from exc
 
     def setup_walker(self):
         """Set up the filesystem walker processes.
-- 
2.43.0


From 24c2236bd2869f36b96338f50301f01b33fd9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 12/91] fix: report errors with directories, the cache and
 FF_OPTIONS without a traceback

---
 libff/arguments.py |  6 +++++-
 libff/main.py      | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 393057e..d6066af 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -337,7 +337,11 @@ def parse_arguments():
     """
     parser = create_parser()
 
-    argv = collect_arguments()
+    try:
+        argv = collect_arguments()
+    except ValueError as exc:
+        parser.error(f"unable to parse FF_OPTIONS: {exc}")
+
     args = parser.parse_args(argv)
 
     if args.help == "all":
diff --git a/libff/main.py b/libff/main.py
index 2571bc3..e5fca70 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -21,6 +21,7 @@
 import os
 import sys
 import pstats
+import sqlite3
 import cProfile
 
 from . import BaseClass, __copyright__
@@ -87,8 +88,11 @@ class _Base(BaseClass):
             CacheClass = Cache
 
         # Once we're on Python >=3.8 we can use context.cache = (cache := CacheClass(context)).
-        cache = CacheClass(self.context)
-        self.context.cache = cache
+        try:
+            cache = CacheClass(self.context)
+            self.context.cache = cache
+        except sqlite3.Error as exc:
+            raise UsageError(f"unable to open cache {args.cache!r}: {exc}") from exc
 
         # Register all types and metadata plugins.
         registry = Registry(self.context)
@@ -232,6 +236,12 @@ class Main(_Base):
         except BaseError as exc:
             self.handle_exception(exc)
 
+    def setup_walker(self):
+        try:
+            super().setup_walker()
+        except OSError as exc:
+            raise UsageError(f"unable to search directory: {exc}") from exc
+
     def handle_exception(self, exc):
         """Print a BaseError exception using the correct formatting and exit.
         """
-- 
2.43.0


From a9dff76915651f3716d7f5d9ff10b32d6d8377b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 13/91] fix: reject invalid boolean values

---
 libff/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index 0147ec7..30288ad 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -444,7 +444,8 @@ class Boolean(Type):
 
     @classmethod
     def input(cls, value):
-        assert value.lower() in cls.true + cls.false
+        if value.lower() not in cls.true + cls.false:
+            raise ValueError(f"unable to parse {value!r}")
         return value.lower() in cls.true
 
     @classmethod
-- 
2.43.0


From 48a295ff492b3f570834a01ccd2501d6e631256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 14/91] fix: match glob patterns against the value of path
 attributes instead of the entry's name

---
 libff/type.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index 30288ad..115c7c0 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -170,10 +170,7 @@ class Path(String):
             value = value.lower()
 
         if test.operator == "%":
-            basename = entry.name.lower() if test.ignore_case else entry.name
-            is_dir = entry.is_dir()
-
-            if test.value.match(value, basename, is_dir):
+            if test.value.match(value, os.path.basename(value), entry.is_dir()):
                 return test.value.include
             else:
                 return not test.value.include
-- 
2.43.0


From 714cff2a1c2dd5e131614dbacadf1177d0b78960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 15/91] fix: match glob patterns with file names that contain
 newlines

---
 libff/ignore.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index e04aa95..fce09cc 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -91,11 +91,11 @@ class Glob:
         parts = []
         for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
             if part == "/**/":
-                part = "(?:/|/.+/)"
+                part = "(?:/|/(?s:.+)/)"
             elif part == "**/":
-                part = "(?:.+/)?"
+                part = "(?:(?s:.+)/)?"
             elif part == "/**":
-                part = "(?:/.+)?"
+                part = "(?:/(?s:.+))?"
             elif part == "*":
                 part = "[^/]*"
             elif part == "?":
@@ -108,7 +108,7 @@ class Glob:
                 part = re.escape(part)
             parts.append(part)
 
-        return "^" + "".join(parts) + "$", include, anchored, directory
+        return "^" + "".join(parts) + r"\Z", include, anchored, directory
 
     def match(self, path, basename=None, is_dir=None):
         """Match a path against the pattern. If the path matches the pattern, you must use the
-- 
2.43.0


From e727a0d2e591c7a915a2ec006dc780e32aea7003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 16/91] fix: do not match path separators with brackets in glob
 patterns

---
 libff/ignore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index fce09cc..be0be87 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -101,9 +101,9 @@ class Glob:
             elif part == "?":
                 part = "[^/]"
             elif part.startswith("[!"):
-                part = f"[^{part[2:-1]}]"
+                part = f"(?!/)[^{part[2:-1]}]"
             elif part.startswith("["):
-                part = f"[{part[1:-1]}]"
+                part = f"(?!/)[{part[1:-1]}]"
             else:
                 part = re.escape(part)
             parts.append(part)
-- 
2.43.0


From c1e6285bda4fa6fd1edc0ae585283303051880c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 17/91] fix: do not fail because of invalid glob patterns and
 unreadable ignore files

---
 libff/ignore.py | 12 +++++++++++-
 libff/parser.py |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index be0be87..1d889ad 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -20,6 +20,7 @@
 
 import os
 import re
+import errno
 import collections
 
 from .path import join
@@ -168,8 +169,11 @@ class GitIgnore:
         self.dirname = dirname
         self.path = join(dirname, name)
 
+        if not os.path.isfile(self.path):
+            raise OSError(errno.EINVAL, "Not a regular file", self.path)
+
         # pylint:disable=unspecified-encoding
-        with open(self.path) as lines:
+        with open(self.path, errors="surrogateescape") as lines:
             self.lines = list(lines)
 
         # Collect the glob patterns from the gitignore file and translate them to regular
@@ -185,6 +189,12 @@ class GitIgnore:
                 continue
 
             pattern = Glob(pattern)
+            try:
+                _ = pattern.regex
+            except re.error:
+                # Invalid patterns never match.
+                continue
+
             if pattern.get_group_key() != key:
                 # Start new group.
                 key = pattern.get_group_key()
diff --git a/libff/parser.py b/libff/parser.py
index 2a6b446..2689732 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -318,5 +318,10 @@ class Parser(BaseClass):
 
             elif operator == "%":
                 value = Glob(value, path_pattern=issubclass(type_cls, Path))
+                try:
+                    # Compile the regex now, to see if the pattern is valid.
+                    _ = value.regex
+                except re.error as exc:
+                    raise ExpressionError(f"Invalid glob pattern {value.pattern!r}: {exc}") from exc
 
         return Test(attribute, operator, type_cls, value, ignore_case)
-- 
2.43.0


From 6c1aac576de2b8e4834920434256a275ea5c20a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 18/91] fix: do not mix up cached data of files with
 undecodable names

---
 libff/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9a814f2..5b4366e 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -138,7 +138,7 @@ class Cache(NullCache):
     def get(self, plugin, path, tag):
         """Return a row of cached values.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
 
         for row in self.conn.execute(
@@ -153,7 +153,7 @@ class Cache(NullCache):
     def set(self, plugin, path, tag, obj):
         """Write data to the cache.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
         data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From ec2a9ca7cbe7454322102089edc0811e6120c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 19/91] fix: --clean-cache failed if there were entries to
 remove

---
 libff/cache.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 5b4366e..9b5ab72 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -44,6 +44,10 @@ class NullCache(BaseClass):
         """Close the cache.
         """
 
+    def clean(self):
+        """Remove entries for files that no longer exist.
+        """
+
     def register_plugin(self, plugin_cls):
         """Register a Plugin class in the cache.
         """
@@ -194,10 +198,12 @@ class Cache(NullCache):
     def clean(self):
         """Remove entries from the database for files that no longer exist.
         """
-        for table, in self.conn.execute("select name from sqlite_master where type = 'table'"):
-            for path, in self.conn.execute(f"select path from {table}"):
+        tables = self.conn.execute("select name from sqlite_master where type = 'table'").fetchall()
+        for table, in tables:
+            for path, in self.conn.execute(f"select path from {table}").fetchall():
                 if not os.path.exists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
-        self.conn.execute("vacuum")
+        # It is not possible to vacuum from within a transaction.
         self.conn.commit()
+        self.conn.execute("vacuum")
-- 
2.43.0


From a5f26de4b8b9b34ad698a3937a0a87b0b35d4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 20/91] fix: do not remove cache tables of other plugins and
 allow creating tables concurrently

---
 libff/cache.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9b5ab72..778a041 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import time
 import pickle
 import string
@@ -112,13 +113,14 @@ class Cache(NullCache):
         """Check if there is already a table for this plugin in the database. Also drop tables from
            older versions of this plugin.
         """
-        # Ask the database if a table exists for this plugin.
-        curs = self.conn.execute(
-                "select name from sqlite_master where type = 'table' and name like ?",
-                (plugin_cls.sql_table_name.rstrip(string.digits) + "%",))
-
-        # Create a table if there is none for this plugin.
-        tables = set(row[0] for row in curs)
+        # Find the tables of this plugin. Use a regex here, because the underscore is a wildcard for
+        # "like" and the name of one plugin may be the prefix of the name of another plugin.
+        regex = re.compile(re.escape(plugin_cls.sql_table_name.rstrip(string.digits)) + r"[0-9]+")
+        curs = self.conn.execute("select name from sqlite_master where type = 'table'")
+        tables = set(row[0] for row in curs if regex.fullmatch(row[0]) is not None)
+
+        # Create a table for this plugin if there is none. It is possible that another ff process
+        # does the same thing at the same time.
         if plugin_cls.sql_table_name not in tables:
             for statement in self.get_sql_create_table(plugin_cls):
                 self.conn.execute(statement)
@@ -129,15 +131,15 @@ class Cache(NullCache):
         for table in tables:
             if __debug__:
                 self.logger.debug("cache", f"Removing old cache table {table!r}")
-            self.conn.execute(f"drop table {table}")
+            self.conn.execute(f"drop table if exists {table}")
 
     def get_sql_create_table(self, plugin_cls):
         """Return the statements needed to create a table for a specific Plugin class.
         """
         table_name = plugin_cls.sql_table_name
-        yield f"create table {table_name} "\
+        yield f"create table if not exists {table_name} "\
                 "(path text not null primary key, tag blob not null, data blob not null)"
-        yield f"create index {table_name}_idx on {table_name} (path, tag)"
+        yield f"create index if not exists {table_name}_idx on {table_name} (path, tag)"
 
     def get(self, plugin, path, tag):
         """Return a row of cached values.
-- 
2.43.0


From e22efdd2961111b0c642344739946648929965c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 21/91] fix: allow multiple searches with different caches from
 the Python API

---
 libff/cache.py    | 4 ++--
 libff/registry.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 778a041..5226399 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -69,8 +69,6 @@ class Cache(NullCache):
     """A cache that stores pickled Python objects in an sqlite3 database.
     """
 
-    registered = {}
-
     commit_every_seconds = 30
     commit_every_count = 500
 
@@ -79,6 +77,8 @@ class Cache(NullCache):
 
         self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
 
+        self.registered = {}
+
         self.num_cached_rows = 0
         self.last_commit = time.time()
         self.cached_rows = {}
diff --git a/libff/registry.py b/libff/registry.py
index ff70017..1f95c6a 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -44,12 +44,15 @@ class Registry(BaseClass):
     registered_types = set()
     registered_plugins = {}
 
-    plugins = {}
     attributes = {}
 
     def __init__(self, context):
         super().__init__(context)
 
+        # Plugin objects must not be shared between different Registry objects, because plugins may
+        # keep data from previous searches and they have to be registered in the cache.
+        self.plugins = {}
+
         self.optimize_for_slow_plugins = False
 
         with self.context.global_lock:
-- 
2.43.0


From 0f5829c56187d1a10d260b727e7f2522a4eb69bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 22/91] fix: treat each part of a symbolic file mode separately

---
 libff/type.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index 115c7c0..0724967 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -292,12 +292,12 @@ class Mode(Type):
         """Parse an octal or symbolic file mode.
         """
         # pylint:disable=too-many-branches
-        affected = 0
         result = 0
         for part in value.split(","):
+            affected = 0
             val = 0
 
-            match = cls.regex.match(part)
+            match = cls.regex.fullmatch(part)
             if match is None:
                 raise ValueError(f"unable to parse {value!r}")
 
@@ -343,12 +343,16 @@ class Mode(Type):
                 affected = cls.MODE_ALL
                 val = int(val, 8)
 
-            if operator in "+=":
+            val &= affected
+
+            if operator == "=":
+                result = result & ~affected | val
+            elif operator == "+":
                 result |= val
             elif operator == "-":
                 result &= ~val
 
-        return affected & result
+        return result
 
     @classmethod
     def input(cls, value):
-- 
2.43.0


From 054fbafe769baa00f03416bc2d8582bf1b385ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 23/91] fix: give date and time patterns precedence over plain
 numbers as documented

---
 libff/convert.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index 6ef183c..98f10ee 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -147,21 +147,19 @@ time_formats = (
     ("time", "%H%M")
 )
 
+# These formats consist of digits only and require a certain length. Otherwise, they would match
+# numbers that are supposed to be seconds since epoch.
+time_formats_length = {"%Y%m%d%H%M": 12, "%Y%m%d": 8, "%H%M": 4}
+
 def parse_time(string):
     """Convert a date and time or a duration to the corresponding number of seconds. A simple
-       integer or float is taken as seconds since epoch.
+       integer or float that does not match one of the patterns is taken as seconds since epoch.
     """
-    # Accept float epoch times but convert them to int.
-    try:
-        # XXX Cython can't handle int(float(string)).
-        number = float(string)
-    except ValueError:
-        pass
-    else:
-        return int(number)
-
     if len(string) >= 4:
         for typ, fmt in time_formats:
+            if len(string) != time_formats_length.get(fmt, len(string)):
+                continue
+
             try:
                 time_obj = datetime.datetime.strptime(string, fmt)
             except ValueError:
@@ -175,6 +173,15 @@ def parse_time(string):
                         time_obj -= datetime.timedelta(days=1)
                 return int(time_obj.timestamp())
 
+    # Accept float epoch times but convert them to int.
+    try:
+        # XXX Cython can't handle int(float(string)).
+        number = float(string)
+    except ValueError:
+        pass
+    else:
+        return int(number)
+
     try:
         return int(time.time() - parse_duration(string))
     except ValueError as exc:
-- 
2.43.0


From 44869f1f0eb836d12cb9420595fb95e1f6aaf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 24/91] fix: avoid rounding errors when parsing file sizes

---
 libff/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index 98f10ee..beaf9dd 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -21,6 +21,7 @@
 import re
 import time
 import datetime
+import fractions
 
 UNITS = ("", "K", "M", "G", "T", "P", "E", "Z", "Y")
 
@@ -71,7 +72,7 @@ def parse_size(string):
 
         exp = UNITS.index(prefix)
         base = 1000 if suffix == "B" else 1024
-        return int(float(number) * base ** exp)
+        return int(fractions.Fraction(number) * base ** exp)
     else:
         return int(number_in_bytes)
 
-- 
2.43.0


From e61abeb3d59a10df3f2a447bafa389ecbfe93e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 25/91] fix: do not drop entries with --color=always if
 LS_COLORS is not set

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index adc5656..f9122ea 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -265,7 +265,7 @@ class ColorConsole(Console):
     def __init__(self, context):
         super().__init__(context)
 
-        self.colors = {}
+        self.colors = dict.fromkeys(("di", "ex", "ln", "or"))
         self.extensions = {}
         rules = {}
 
-- 
2.43.0


From 8466df92219ed740ecc296bd6c7a32467893a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 26/91] fix: allow relative file references outside of the
 search directories

---
 libff/entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libff/entry.py b/libff/entry.py
index 791498e..06171ee 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -110,6 +110,7 @@ class Entry:
                 break
         else:
             directory, relpath = split(path)
+            directory = directory or os.curdir
 
         start_directory = StartDirectory(args, directory)
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
-- 
2.43.0


From 3155173cd6e58d7a59fe98b4fc782352418e3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 27/91] fix: remove line endings from the values of the lines
 attribute

---
 libff/builtin/grep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/builtin/grep.py b/libff/builtin/grep.py
index 0cca127..ead857a 100644
--- a/libff/builtin/grep.py
+++ b/libff/builtin/grep.py
@@ -40,7 +40,7 @@ class Grep(Plugin):
             # pylint:disable=unspecified-encoding
             with open(entry.path) as fobj:
                 try:
-                    lines = fobj.readlines()
+                    lines = [line.rstrip("\n") for line in fobj]
                 except UnicodeDecodeError:
                     yield "text", False
                 else:
-- 
2.43.0


From addbf45c948d1ffd2e24c0e564c35ec4de20347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 28/91] fix: git plugin failed to recognize files with special
 names and renamed files

---
 plugins/git.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 4f3c12a..3f22b96 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -31,9 +31,9 @@ class Filelist(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "ls-files"], capture_output=True, text=True,
+        proc = subprocess.run(["git", "-C", dirname, "ls-files", "-z"], capture_output=True,
                 check=False)
-        for filename in proc.stdout.splitlines():
+        for filename in os.fsdecode(proc.stdout).split("\0")[:-1]:
             self.add(os.path.join(dirname, filename))
 
 
@@ -44,10 +44,10 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain"], capture_output=True,
-                text=True, check=False)
-        for line in proc.stdout.splitlines():
-            status, filename = line.split(None, 1)
+        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "--no-renames",
+                "-z"], capture_output=True, check=False)
+        for line in os.fsdecode(proc.stdout).split("\0")[:-1]:
+            status, filename = line[:2], line[3:]
             if status == "??":
                 continue
             self.add(os.path.join(dirname, filename))
-- 
2.43.0


From 4ffb915d96aad369520ede46adee04a70a35df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 29/91] fix: recognize a shebang only in the first line of a
 file

---
 plugins/introspect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index f03604e..c40765f 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -94,9 +94,9 @@ class Shebang(Plugin):
         """
         try:
             with open(path, "rb") as lines:
-                for line in lines:
-                    if line.startswith(b"#!"):
-                        return line[2:].decode("ascii").rstrip()
+                line = lines.readline()
+                if line.startswith(b"#!"):
+                    return line[2:].decode("ascii").rstrip()
         except (OSError, UnicodeDecodeError):
             pass
 
-- 
2.43.0


From 038d895c0afc2f021042cf5fe22759f24c7c80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 30/91] fix: collect all the names of an import statement

---
 plugins/introspect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index c40765f..72b8406 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -141,7 +141,8 @@ class Py(Plugin):
                         yield node.module
 
             elif isinstance(node, ast.Import):
-                yield node.names[0].name
+                for alias in node.names:
+                    yield alias.name
 
     def can_handle(self, entry):
         if entry.ext.lower() == "py":
-- 
2.43.0


From 5f5131fa27272dcf05a1174a2a2422ceca7f90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 31/91] fix: do not block on fifos that look like Python files

---
 plugins/introspect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 72b8406..0495057 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -145,6 +145,8 @@ class Py(Plugin):
                     yield alias.name
 
     def can_handle(self, entry):
+        if not entry.is_file():
+            return False
         if entry.ext.lower() == "py":
             return True
         shebang = Shebang.extract_shebang(entry.path)
-- 
2.43.0


From 92cc406147b27398461a05ed1d2b6e358584c936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 32/91] fix: ignore Python files that cannot be parsed because
 of their complexity

---
 plugins/introspect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 0495057..291ec09 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -155,5 +155,5 @@ class Py(Plugin):
     def process(self, entry, cached):
         try:
             yield "imports", sorted(self.parse_imports(entry))
-        except (OSError, SyntaxError, UnicodeDecodeError) as exc:
+        except (OSError, SyntaxError, ValueError, RecursionError, MemoryError) as exc:
             raise NoData from exc
-- 
2.43.0


From cdfba1b02a5cbc4c321ff5fd3ce23a17397d48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 33/91] fix: the shake_128 and shake_256 hash plugins need a
 digest size

---
 plugins/hash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugins/hash.py b/plugins/hash.py
index 193670a..a208e00 100644
--- a/plugins/hash.py
+++ b/plugins/hash.py
@@ -38,6 +38,9 @@ class _Hash(Plugin):
             with open(entry.path, "rb") as fobj:
                 while buf := fobj.read(8192):
                     h.update(buf)
+            if h.digest_size == 0:
+                # The shake algorithms have no fixed digest size.
+                return self.name, h.hexdigest(32 if self.name == "shake_256" else 16)
             return self.name, h.hexdigest()
         except (OSError, EOFError) as exc:
             raise NoData from exc
-- 
2.43.0


From f8c6779db345b83bfde09da41fe4675fd36b8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 34/91] fix: ignore files in the fs plugin whose directory has
 vanished

---
 plugins/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/fs.py b/plugins/fs.py
index 7914163..364f94f 100644
--- a/plugins/fs.py
+++ b/plugins/fs.py
@@ -104,7 +104,10 @@ class Fs(Plugin):
         else:
             path = os.path.abspath(entry.dir)
 
-        name, remote = self.get_fs_type(path)
+        try:
+            name, remote = self.get_fs_type(path)
+        except OSError as exc:
+            raise NoData from exc
 
         yield "type", name
         yield "remote", remote
-- 
2.43.0


From 83305e94d96b497c9655dc85bda085dfd2d9f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 35/91] fix: treat consecutive asterisks that are part of a
 name as regular asterisks

---
 libff/ignore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index 1d889ad..1185ef4 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -90,7 +90,7 @@ class Glob:
 
         # Translate the wildcards to regular expression syntax.
         parts = []
-        for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
+        for part in re.split(r"(/\*\*/|(?<![^/])\*\*/|/\*\*\Z|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
             if part == "/**/":
                 part = "(?:/|/(?s:.+)/)"
             elif part == "**/":
-- 
2.43.0


From 29122e5695bf2d403db31658bf8688a8ce8d0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 36/91] fix: read all the ignore files from parent directories
 independent of how a directory is specified

---
 libff/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index e5fca70..8f7db6e 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -169,7 +169,7 @@ class _Base(BaseClass):
                 # Find ignore files in parent directories.
                 if self.context.args.ignore:
                     ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            os.path.dirname(path))
+                            path)
                 else:
                     ignores = []
 
-- 
2.43.0


From d6c91185e35db2195bddd3f0de5dfb2f9e3962d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 37/91] fix: allow newlines in the value of a test

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 2689732..c1c6d06 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -94,7 +94,7 @@ class Parser(BaseClass):
     expression_regex = re.compile(r"^\s*((?:\w+\.)?\w+?)\s*"\
                                   r"(=|:|~|%|>=|>|<=|<|\+=|\+|\-=|\-)"\
                                   r"(\{(?:\w+\.)?\w+?\}|\{\})?"\
-                                  r"\s*(.+)\s*$")
+                                  r"\s*(.+)\s*$", re.DOTALL)
 
     def __init__(self, context, tokens):
         super().__init__(context)
-- 
2.43.0


From 4c0b363eef4060a067deb0ac4fd7e6f603d9b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 38/91] fix: do not change the meaning of regular expressions
 by converting them to lower case

---
 libff/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libff/parser.py b/libff/parser.py
index c1c6d06..09c050f 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -306,13 +306,15 @@ class Parser(BaseClass):
             else:
                 ignore_case = self.args.case == "ignore"
 
-            if ignore_case:
+            # Regular expressions must not be converted to lower case, because this would change the
+            # meaning of special sequences like \S or \D.
+            if ignore_case and operator != "~":
                 value = value.lower()
 
             # Pre-compile regular expressions.
             if operator == "~":
                 try:
-                    value = re.compile(value)
+                    value = re.compile(value, re.IGNORECASE if ignore_case else 0)
                 except re.error as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
-- 
2.43.0


From 9356616459718145d5b35b79411b3a5144876bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 39/91] fix: reject regular expressions that are too large or
 too deeply nested

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 09c050f..c288d27 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -315,7 +315,7 @@ class Parser(BaseClass):
             if operator == "~":
                 try:
                     value = re.compile(value, re.IGNORECASE if ignore_case else 0)
-                except re.error as exc:
+                except (re.error, OverflowError, RecursionError) as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
             elif operator == "%":
-- 
2.43.0


From 6e097518e96480c85823db1a74fb13e5701ab4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 40/91] fix: reject durations with an invalid unit at the end

---
 libff/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index beaf9dd..5a91b93 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -105,14 +105,14 @@ def parse_duration(string):
     for match in regex_duration.finditer(string):
         if match.start(0) != end:
             raise ValueError(f"unable to parse {string!r}")
-        end = match.end(1) + 1
+        end = match.end()
 
         count, unit = match.groups()
         count = int(count)
 
         if unit == "s":
             duration += count
-        elif unit == "m":
+        elif unit == "m" or unit is None:
             duration += count * 60
         elif unit == "h":
             duration += count * 3600
-- 
2.43.0


From 31ee421f7a099bdedbbafb0194c181d95a604db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 41/91] fix: do not round file times up to the next second

---
 libff/entry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 06171ee..1a148cc 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -229,19 +229,19 @@ class Entry:
     def mtime(self):
         """The modification time of the file in seconds since epoch.
         """
-        return int(self.status.st_mtime)
+        return self.status.st_mtime_ns // 10**9
 
     @property
     def ctime(self):
         """The inode change time of the file in seconds since epoch.
         """
-        return int(self.status.st_ctime)
+        return self.status.st_ctime_ns // 10**9
 
     @property
     def atime(self):
         """The access time of the file in seconds since epoch.
         """
-        return int(self.status.st_atime)
+        return self.status.st_atime_ns // 10**9
 
     @property
     def perm(self):
-- 
2.43.0


From ea3b4178cd32bfb1d73c0e0e06c3f82f74da17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 42/91] fix: treat unclosed brackets in glob patterns as
 regular characters

---
 libff/ignore.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index 1185ef4..0e85dc3 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -90,8 +90,11 @@ class Glob:
 
         # Translate the wildcards to regular expression syntax.
         parts = []
-        for part in re.split(r"(/\*\*/|(?<![^/])\*\*/|/\*\*\Z|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
-            if part == "/**/":
+        for i, part in enumerate(re.split(r"(/\*\*/|(?<![^/])\*\*/|/\*\*\Z|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern)):
+            if i % 2 == 0:
+                # The text between the wildcards may contain brackets that do not form a range.
+                part = re.escape(part)
+            elif part == "/**/":
                 part = "(?:/|/(?s:.+)/)"
             elif part == "**/":
                 part = "(?:(?s:.+)/)?"
@@ -103,10 +106,8 @@ class Glob:
                 part = "[^/]"
             elif part.startswith("[!"):
                 part = f"(?!/)[^{part[2:-1]}]"
-            elif part.startswith("["):
-                part = f"(?!/)[{part[1:-1]}]"
             else:
-                part = re.escape(part)
+                part = f"(?!/)[{part[1:-1]}]"
             parts.append(part)
 
         return "^" + "".join(parts) + r"\Z", include, anchored, directory
-- 
2.43.0


From 4753c3a7dcb14aa7c4e8770f7d475d68dcfc83e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 43/91] fix: symbolic links to absolute paths had a wrong
 target and were reported as broken

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 1a148cc..6a91fc2 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -134,7 +134,7 @@ class Entry:
         # Collect information early to avoid having OSErrors later on.
         if stat.S_ISLNK(self.status.st_mode):
             self.link = os.readlink(self.path)
-            self.target = os.path.realpath(join(self.dir, self.link))
+            self.target = os.path.realpath(os.path.join(self.dir, self.link))
             self.broken = not os.path.exists(self.target)
         else:
             # Don't set link and target so that KeyError is raised in get_attribute().
-- 
2.43.0


From ea97c618b9f7dede70ec9028e7ef65cff2b65b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 44/91] fix: use ignore files from parent directories without
 -I too

---
 libff/main.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libff/main.py b/libff/main.py
index 8f7db6e..da3f061 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -167,11 +167,8 @@ class _Base(BaseClass):
                 ignores = []
             else:
                 # Find ignore files in parent directories.
-                if self.context.args.ignore:
-                    ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            path)
-                else:
-                    ignores = []
+                ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
+                        path)
 
             if __debug__:
                 self.logger.debug("info",
-- 
2.43.0


From 5e77673ff0369fc2c5a5c6d44815b81e67e4f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 45/91] fix: empty and missing values come first with natural
 sorting too

---
 libff/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/field.py b/libff/field.py
index da1d268..a7e9db5 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -161,6 +161,9 @@ class SortFields(OutputFields):
         # Split a full path in its components and prepare each component separately. This should
         # produce output similar to natsort.os_sort_key().
         cmp_key = []
+        if not value:
+            # Empty or missing values come first, normpath() would turn them into ".".
+            return cmp_key
         for component in os.path.normpath(value).split(os.sep):
             cmp_key += list(self.prepare_component(component))
         return cmp_key
-- 
2.43.0


From 0323d98a9b727486aeeb5fd44a66f82c9e5efa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 46/91] fix: --count failed on undecodable values if the locale
 is strict about them

---
 libff/processing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index 0fec73b..c7b6b45 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -342,9 +342,19 @@ class CollectiveMixin(BaseProcessing):
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
                     for k, v in sorted(value.items(), key=self.get_count_key):
-                        print(f"{key}[{k}]={v}")
+                        self.print_count_line(f"{key}[{k}]={v}")
                 else:
-                    print(f"{key}={value}")
+                    self.print_count_line(f"{key}={value}")
+
+    @staticmethod
+    def print_count_line(line):
+        """Print a line of the count handling encoding errors.
+        """
+        try:
+            print(line)
+        except UnicodeEncodeError:
+            encoding = sys.getfilesystemencoding()
+            print(line.encode(encoding, "backslashreplace").decode(encoding))
 
 
 class CollectiveConsoleProcessing(CollectiveMixin, BaseConsoleProcessing):
-- 
2.43.0


From ba4be71b8adf2639606a1dd9ecc063bd044a0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 47/91] fix: print the paths of entries in the root directory
 with a single slash

---
 libff/console.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index f9122ea..3a44405 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -153,7 +153,8 @@ class Console(BaseConsole):
         name = self.render_name(entry)
 
         if entry.dir:
-            dirname = self.render_directory(entry.dir + os.sep)
+            # The root directory ends with a separator already.
+            dirname = self.render_directory(entry.dir.rstrip(os.sep) + os.sep)
             path = String(dirname.value + name.value, dirname.length + name.length)
         else:
             path = name
-- 
2.43.0


From 118fde789c5e0a39000c3ea69b94430fe27df72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 48/91] fix: a deeply nested expression made the parser fail
 with a RecursionError

---
 libff/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libff/parser.py b/libff/parser.py
index c288d27..81c7d55 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -91,6 +91,9 @@ class Parser(BaseClass):
     OPENING_BRACKETS = ("(", "{{")
     CLOSING_BRACKETS = (")", "}}")
 
+    # Parsing and testing is recursive, stay away from the interpreter's recursion limit.
+    MAX_NESTING = 150
+
     expression_regex = re.compile(r"^\s*((?:\w+\.)?\w+?)\s*"\
                                   r"(=|:|~|%|>=|>|<=|<|\+=|\+|\-=|\-)"\
                                   r"(\{(?:\w+\.)?\w+?\}|\{\})?"\
@@ -100,6 +103,7 @@ class Parser(BaseClass):
         super().__init__(context)
 
         self.tokens = tokens.copy()
+        self.nesting = 0
         self.sequence = self.parse()
 
         self.optimize(self.sequence)
@@ -189,7 +193,11 @@ class Parser(BaseClass):
     def parse_bracket_sequence(self, sequences, sub_sequences):
         """Parse a part of a list of tokens inside brackets.
         """
+        self.nesting += 1
+        if self.nesting > self.MAX_NESTING:
+            raise ParserError("too many nested brackets")
         self.parse_sequence(sub_sequences)
+        self.nesting -= 1
 
         if not self.tokens:
             raise ParserError("incomplete sub sequence")
-- 
2.43.0


From 0e07f250a09c6283a8d387d04814a50fd63a3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 49/91] fix: brackets or NOT as an exclude test crashed the
 search

---
 libff/filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/filter.py b/libff/filter.py
index c8654ee..eeef75f 100644
--- a/libff/filter.py
+++ b/libff/filter.py
@@ -21,7 +21,7 @@
 import itertools
 
 from . import BaseClass
-from .parser import Parser
+from .parser import Test, Parser, ParserError
 
 
 class MatcherParser(Parser):
@@ -65,6 +65,10 @@ class Excluder(Filter):
     def __init__(self, context, tokens):
         super().__init__(context, Parser(context, tokens))
 
+        for test in itertools.chain.from_iterable(self.parser):
+            if not isinstance(test, Test):
+                raise ParserError(f"{test.name} and brackets are not supported")
+
     def test_empty(self, entry):
         """Default test method when the list of tests is empty.
         """
-- 
2.43.0


From a30858886c5661b6ec8a0a755fc795cd5274da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 50/91] fix: --json printed an opening bracket although the
 search could not be started

---
 libff/console.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 3a44405..dc090db 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -91,19 +91,17 @@ class JsonConsole(JsonlConsole):
     def __init__(self, context):
         super().__init__(context)
 
-        print("[", end="")
         self.print_comma = False
 
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        if self.print_comma:
-            print(",", end="")
+        print("," if self.print_comma else "[", end="")
         json.dump(record, sys.stdout)
         self.print_comma = True
 
     def close(self):
-        print("]")
+        print("]" if self.print_comma else "[]")
 
 
 class Console(BaseConsole):
-- 
2.43.0


From b33ddc75fb2dce4925464fab158f97b43aaf2296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 51/91] fix: data that was calculated in the main process was
 never stored in the cache

---
 libff/find.py | 1 +
 libff/main.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index 506b968..8bed8e3 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -133,3 +133,4 @@ class Find(_Base):
         self.context.close()
         self.context.walker.close()
         self.context.processing.close()
+        self.context.cache.close()
diff --git a/libff/main.py b/libff/main.py
index da3f061..fc49842 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -322,6 +322,11 @@ class Main(_Base):
         except BrokenPipeError:
             self.discard_output()
 
+        # Store the data that was calculated in the main process, e.g. for --sort. When profiling,
+        # the cache has already been closed in Walker.loop().
+        if not (__debug__ and self.args.profile):
+            self.context.cache.close()
+
         if __debug__:
             hits = self.context.cache_hits.value
             misses = self.context.cache_misses.value
-- 
2.43.0


From 13d3865faae109aab58b80eee39e34d370746a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 52/91] fix: --clean-cache removed the data of existing broken
 symbolic links

---
 libff/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/cache.py b/libff/cache.py
index 5226399..be679aa 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -203,7 +203,7 @@ class Cache(NullCache):
         tables = self.conn.execute("select name from sqlite_master where type = 'table'").fetchall()
         for table, in tables:
             for path, in self.conn.execute(f"select path from {table}").fetchall():
-                if not os.path.exists(path):
+                if not os.path.lexists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
         # It is not possible to vacuum from within a transaction.
-- 
2.43.0


From adef4b6463111da4b5b5feefeb64c8e9a17ceee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 53/91] fix: --clean-cache failed if another ff process removed
 an old table at the same time

---
 libff/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/cache.py b/libff/cache.py
index be679aa..434115a 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -200,6 +200,9 @@ class Cache(NullCache):
     def clean(self):
         """Remove entries from the database for files that no longer exist.
         """
+        # Prevent another ff process from removing old tables in the meantime.
+        self.conn.execute("begin immediate")
+
         tables = self.conn.execute("select name from sqlite_master where type = 'table'").fetchall()
         for table, in tables:
             for path, in self.conn.execute(f"select path from {table}").fetchall():
-- 
2.43.0


From c20dfda002e9d238f47e386dd63001be197c8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 54/91] fix: the search hung forever if an idle process was
 killed

---
 libff/context.py    | 43 +++++++++++++------------------------------
 libff/processing.py | 10 +++++-----
 libff/walk.py       |  5 ++++-
 3 files changed, 22 insertions(+), 36 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index d50a384..6a1ebe7 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -18,12 +18,10 @@
 #
 # -----------------------------------------------------------------------
 
-import threading
 import subprocess
 import multiprocessing
 import multiprocessing.sharedctypes
 
-from . import TIMEOUT
 from .exceptions import EX_SUBPROCESS
 
 
@@ -49,9 +47,8 @@ class Context:
         self.global_lock = None
         self.output_lock = None
         self.stop_queue = None
-        self.barrier = None
+        self.idle = None
         self.pending = None
-        self.finished = None
         self.exitcode_object = None
         self.process_succeeded = None
         self.process_failed = None
@@ -73,18 +70,13 @@ class Context:
         # the way I expected it.
         self.stop_queue = multiprocessing.Queue(self.args.jobs)
 
-        # Create a Barrier with the number of processes plus one for the main process.
-        if __debug__ and self.args.profile:
-            num_jobs = 1
-        else:
-            num_jobs = self.args.jobs + 1
-        self.barrier = multiprocessing.Barrier(num_jobs, self.check_finished)
+        # Keep track of which processes are waiting for something to do.
+        self.idle = multiprocessing.sharedctypes.RawArray("B", self.args.jobs)
 
         # Keep track of the number of objects that were put in a queue but have not been completely
         # processed yet. A queue that looks empty is no proof that there is nothing left to do,
         # because multiprocessing.Queue uses a background thread to transfer the objects.
         self.pending = multiprocessing.Value("L")
-        self.finished = multiprocessing.sharedctypes.RawValue("B", 0)
 
         # The exitcode object provides a way for --exec and --exec-batch processes to feed back
         # errors to the main process.
@@ -138,34 +130,25 @@ class Context:
         with self.pending.get_lock():
             self.pending.value -= 1
 
-    def check_finished(self):
-        """Check if there is nothing left to process. This is called by the Barrier exactly once
-           while all processes are waiting, so that they all come to the same conclusion.
+    def is_finished(self):
+        """Return True if there is nothing left to process. We must not depend on the cooperation of
+           the other processes here, because they could have terminated abnormally.
         """
         if __debug__ and self.args.profile:
             # There is only one process that does not wait for the results to be collected.
-            self.finished.value = 1
+            return True
         else:
-            self.finished.value = self.pending.value == 0
+            return self.pending.get_obj().value == 0 or self.is_stopping()
 
-    def barrier_wait(self, timeout=TIMEOUT):
-        """Wait for all processes to reach the Barrier. If all processes do that and there are no
-           more objects in transit that means that there is no more input and processing is
-           finished.
+    def set_idle(self, index, value):
+        """Remember whether a process is idle because there is nothing in the queue.
         """
-        try:
-            self.barrier.wait(timeout)
-        except threading.BrokenBarrierError:
-            self.barrier.reset()
-            return self.is_stopping()
-        else:
-            return self.finished.value == 1 or self.is_stopping()
+        self.idle[index] = value
 
     def idle_processes(self):
-        """Return the number of idle processes, i.e. processes that are waiting for the barrier
-           because there is nothing in the queue.
+        """Return the number of idle processes.
         """
-        return self.barrier.n_waiting
+        return sum(self.idle)
 
     def is_stopping(self):
         """Return True all Processes are supposed to stop.
diff --git a/libff/processing.py b/libff/processing.py
index c7b6b45..61b497a 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -115,11 +115,11 @@ class BaseProcessing(BaseClass):
 
         return False
 
-    def processing_done(self, timeout=TIMEOUT):
-        """Check if processing is done (because all processes wait on the barrier) or one or more
+    def processing_done(self):
+        """Check if processing is done (because there is nothing left to process) or one or more
            processes failed unexpectedly.
         """
-        return self.context.barrier_wait(timeout) or self.check_for_failed_processes()
+        return self.context.is_finished() or self.check_for_failed_processes()
 
     def process(self, entries):
         """Process a chunk of Entry objects.
@@ -146,8 +146,8 @@ class ImmediateBaseProcessing(BaseProcessing):
     # pylint:disable=abstract-method
 
     def loop(self):
-        while not self.processing_done(1):
-            pass
+        while not self.processing_done():
+            time.sleep(TIMEOUT)
 
 
 class BaseConsoleProcessing(ImmediateBaseProcessing):
diff --git a/libff/walk.py b/libff/walk.py
index 503f094..8df0b09 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -91,11 +91,14 @@ class FilesystemWalker(BaseClass):
                 try:
                     objs = self.queue.get(timeout=TIMEOUT)
                 except queue.Empty:
-                    if self.context.barrier_wait():
+                    if self.context.is_finished():
                         break
                     else:
+                        self.context.set_idle(index, True)
                         continue
 
+                self.context.set_idle(index, False)
+
                 if isinstance(objs, Entries):
                     if __debug__:
                         self.logger.debug_proc(self.index,
-- 
2.43.0


From c453f74f0bda8b0998fff89cab71f80cf0d8a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 55/91] fix: the search hung forever if a process was killed
 while it was sending results

---
 libff/processing.py | 106 +++++++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 46 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index 61b497a..3dd74ff 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -210,7 +210,62 @@ class ImmediateConsoleProcessing(BaseConsoleProcessing):
     """
 
 
-class CollectiveMixin(BaseProcessing):
+class ReceiverMixin(BaseProcessing):
+    """Processing mixin class that receives entries from the FilesystemWalker processes.
+    """
+    # pylint:disable=abstract-method
+
+    def __init__(self, context):
+        super().__init__(context)
+
+        self.out_queue = multiprocessing.Queue()
+        self.received = queue.Queue()
+        self.receiving = True
+
+    def process(self, entries):
+        self.context.put(self.out_queue, entries)
+
+    def receive(self):
+        """Transfer chunks of entries from the FilesystemWalker processes. This is done in a thread
+           of its own, because it blocks forever if a process is killed while it sends a chunk.
+        """
+        while self.receiving:
+            try:
+                self.received.put(self.out_queue.get(timeout=TIMEOUT))
+            except queue.Empty:
+                continue
+
+    def iter_chunks(self):
+        """Iterate over the chunks of entries until processing is done.
+        """
+        thread = threading.Thread(target=self.receive)
+        thread.daemon = True
+        thread.start()
+
+        try:
+            while True:
+                try:
+                    entries = self.received.get(timeout=TIMEOUT)
+                except queue.Empty:
+                    if self.processing_done():
+                        break
+                    else:
+                        continue
+
+                yield entries
+                self.context.task_done()
+
+        finally:
+            self.receiving = False
+            thread.join(1)
+
+    def close(self):
+        super().close()
+
+        self.out_queue.close()
+
+
+class CollectiveMixin(ReceiverMixin):
     """Processing mixin class that collects all entries first and then does the processing
        afterwards.
     """
@@ -218,14 +273,10 @@ class CollectiveMixin(BaseProcessing):
     def __init__(self, context):
         super().__init__(context)
 
-        self.out_queue = multiprocessing.Queue()
         self.entries = []
         self.count = collections.Counter()
         self.count["_total"] = 0
 
-    def process(self, entries):
-        self.context.put(self.out_queue, entries)
-
     def entries_range(self):
         """Limit the list of entries according to the -l/--limit option.
         """
@@ -236,20 +287,11 @@ class CollectiveMixin(BaseProcessing):
             return self.entries[start:stop]
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.iter_chunks():
             if self.args.count is not None:
                 self.collect_count(entries)
 
             self.entries += entries
-            self.context.task_done()
 
     def finalize(self):
         if self.args.sort is not None:
@@ -261,8 +303,6 @@ class CollectiveMixin(BaseProcessing):
     def close(self):
         super().close()
 
-        self.out_queue.close()
-
         if self.args.count is not None:
             self.print_count()
 
@@ -413,37 +453,20 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
             raise AssertionError("wrong usage of CollectiveExecProcessing class")
 
 
-class ImmediateGenerator(ImmediateBaseProcessing):
+class ImmediateGenerator(ReceiverMixin, ImmediateBaseProcessing):
     """Processing class that allows immediate iteration over the results.
     """
 
-    def __init__(self, context):
-        super().__init__(context)
-
-        self.out_queue = multiprocessing.Queue()
-
     def loop(self):
         pass
 
     def finalize(self):
         pass
 
-    def process(self, entries):
-        self.context.put(self.out_queue, entries)
-
     def __iter__(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.iter_chunks():
             for entry in entries:
                 yield self.args.output.to_dict(entry)
-            self.context.task_done()
 
 
 class CollectiveGenerator(ImmediateGenerator):
@@ -456,17 +479,8 @@ class CollectiveGenerator(ImmediateGenerator):
         self.entries = []
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.iter_chunks():
             self.entries += entries
-            self.context.task_done()
 
     def finalize(self):
         super().finalize()
-- 
2.43.0


From e5f77859efada22cf4bbecb497f306cc8a784ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 56/91] fix: mountpoints with special characters in their path
 were wrong or made ff crash

---
 libff/entry.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 6a91fc2..71cd63e 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import grp
 import pwd
 import stat
@@ -40,15 +41,24 @@ class Mountpoints:
     def __init__(self):
         self.entries = []
         try:
-            # pylint:disable=unspecified-encoding
-            with open("/proc/mounts") as lines:
+            with open("/proc/mounts", "rb") as lines:
                 for line in lines:
-                    devname, mpath, fstype, _ = line.split(None, 3)
+                    devname, mpath, fstype = map(self.unescape, line.split(b" ")[:3])
                     self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))
         except OSError:
             pass
         else:
-            self.entries.sort(reverse=True)
+            # If there is more than one filesystem mounted on the same path, the last one counts.
+            self.entries.reverse()
+            self.entries.sort(key=lambda entry: entry[0], reverse=True)
+
+    @staticmethod
+    def unescape(field):
+        """Decode a field from /proc/mounts. Whitespace characters and backslashes in it are
+           replaced by octal escape sequences.
+        """
+        return os.fsdecode(re.sub(rb"\\([0-7]{3})",
+            lambda match: bytes([int(match.group(1), 8)]), field))
 
     @lru_cache(maxsize=512)
     def get(self, path):
-- 
2.43.0


From 62e044563eeebec9f885daa212325da36c00a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 57/91] fix: mountpoints were not recognized as their own
 nearest mountpoint

---
 libff/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 71cd63e..88afe55 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -64,8 +64,9 @@ class Mountpoints:
     def get(self, path):
         """Get the mountpoint, device name and filesystem type for path.
         """
+        path = path.rstrip(os.sep) + os.sep
         for mpath, devname, fstype in self.entries:
-            if mpath == path or path.startswith(mpath):
+            if path.startswith(mpath):
                 return mpath, devname, fstype
         return os.sep, "root_device", "rootfs"
 
-- 
2.43.0


From 8150f62d8202ed1f2ba637eafc05093d8d965ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 58/91] fix: mountpoints were wrong below symbolic links

---
 libff/entry.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 88afe55..11364fe 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -372,19 +372,19 @@ class Entry:
     def mpath(self):
         """The path of the nearest mountpoint.
         """
-        return self._mountpoints.get(self.abspath)[0]
+        return self._mountpoints.get(self.realpath)[0]
 
     @property
     def devname(self):
         """The name of the device the file is located.
         """
-        return self._mountpoints.get(self.abspath)[1]
+        return self._mountpoints.get(self.realpath)[1]
 
     @property
     def fstype(self):
         """The type of the filesystem the file is located.
         """
-        return self._mountpoints.get(self.abspath)[2]
+        return self._mountpoints.get(self.realpath)[2]
 
     @property
     def pseudofs(self):
@@ -401,6 +401,17 @@ class Entry:
         """
         return os.path.abspath(self.dir)
 
+    @property
+    def realpath(self):
+        """The absolute path without symbolic links. If the entry is a symbolic link itself it is
+           not resolved.
+        """
+        if self.is_symlink():
+            dirname, name = split(self.abspath)
+            return join(os.path.realpath(dirname), name)
+        else:
+            return os.path.realpath(self.abspath)
+
     @property
     def basename(self):
         """The basename for the path.
-- 
2.43.0


From 6190d33888e1442f49230e7039024c92b66ad262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 59/91] fix: samedev and --one-file-system were wrong if the
 start directory is a symbolic link to another device

---
 libff/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 11364fe..4a489fb 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -88,7 +88,8 @@ class StartDirectory:
     def __init__(self, args, root):
         self.root = root
         self.absroot = os.path.abspath(root)
-        self.status = os.stat(self.root, follow_symlinks=args.follow_symlinks)
+        # The start directory is always followed if it is a symbolic link.
+        self.status = os.stat(self.root)
         self.device = self.status.st_dev
 
 
-- 
2.43.0


From 6599b7c6816aa888337e9754d14f31648f0e9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 60/91] fix: paths contained two slashes if a start directory
 ended with a slash

---
 libff/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/path.py b/libff/path.py
index 83e7ef3..6917531 100644
--- a/libff/path.py
+++ b/libff/path.py
@@ -54,7 +54,7 @@ def join(part1:str, part2:str) -> str:
     """
     if part1:
         if part2:
-            if part1 == separator:
+            if part1.endswith(separator):
                 return part1 + part2
             else:
                 return part1 + separator + part2
-- 
2.43.0


From 03ab97569467dbe5a07beab8f5466ff5f65c2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 61/91] fix: broken was wrong for symbolic links that treat a
 file as a directory

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 4a489fb..c7f3bdb 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -147,7 +147,7 @@ class Entry:
         if stat.S_ISLNK(self.status.st_mode):
             self.link = os.readlink(self.path)
             self.target = os.path.realpath(os.path.join(self.dir, self.link))
-            self.broken = not os.path.exists(self.target)
+            self.broken = not os.path.exists(self.path)
         else:
             # Don't set link and target so that KeyError is raised in get_attribute().
             self.broken = False
-- 
2.43.0


From 0a8c9c0d1bafbefd8d594a0fb152d15cf4547fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 62/91] fix: references to paths never matched with
 --absolute-path and --json

---
 libff/entry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/entry.py b/libff/entry.py
index c7f3bdb..980e30c 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -124,6 +124,9 @@ class Entry:
             directory, relpath = split(path)
             directory = directory or os.curdir
 
+        if args.absolute_path:
+            directory = os.path.abspath(directory)
+
         start_directory = StartDirectory(args, directory)
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
 
-- 
2.43.0


From 34145f1382f478ab98af3cc65b95873850f6c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 63/91] fix: references did not work with the root directory

---
 libff/entry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index 980e30c..0065ae2 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -116,7 +116,7 @@ class Entry:
         for directory in args.directories:
             # Go through the list of search directories and pick the first one that matches the
             # reference file.
-            dirname = os.path.abspath(directory) + os.sep
+            dirname = os.path.join(os.path.abspath(directory), "")
             if abspath.startswith(dirname):
                 relpath = abspath[len(dirname):]
                 break
@@ -155,7 +155,7 @@ class Entry:
             # Don't set link and target so that KeyError is raised in get_attribute().
             self.broken = False
 
-        self.hide = self.name[0] == "."
+        self.hide = self.name.startswith(".")
 
         self.mode = self.status.st_mode
 
-- 
2.43.0


From 73783901eae12c819c5503e00ddf1790f4c7982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 64/91] fix: references to lists ended in a traceback

---
 libff/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 81c7d55..4eefc34 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -22,7 +22,7 @@ import re
 import collections
 
 from . import BaseClass
-from .type import Path, Type
+from .type import ListOfStrings, Path, Type
 from .entry import Entry
 from .ignore import Glob
 from .attribute import Attribute
@@ -250,6 +250,9 @@ class Parser(BaseClass):
 
         ref_type_cls = self.registry.get_attribute_type(ref_attribute)
 
+        if issubclass(ref_type_cls, ListOfStrings):
+            raise ExpressionError(f"{ref_attribute} is a list and cannot be used as a reference")
+
         # Check if both attributes are comparable, i.e. they have a similar type.
         try:
             self.get_common_super_type(type_cls, ref_type_cls)
-- 
2.43.0


From 74810c37e79e56e9e36b65336a196e1347db6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 65/91] fix: directories after the tests were not recognized if
 there were others before the tests

---
 libff/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index d6066af..14cb4bc 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -245,8 +245,8 @@ class ArgumentsPostProcessor:
             # Check which arguments are existing directories and append them to
             # self.args.directories. We allow directory arguments only at the start or the end of
             # the list of tests.
-            for tests in (list(self.args.tests), reversed(self.args.tests)):
-                for test in tests:
+            for step in (1, -1):
+                for test in self.args.tests[::step]:
                     if os.sep in test and os.path.isdir(test):
                         self.args.tests.remove(test)
                         directory = os.path.normpath(test)
-- 
2.43.0


From c97d332a4df5582244daf426d4989f574c3a35b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 66/91] fix: searches with the Python API removed directories
 from the list of tests of the caller

---
 libff/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/find.py b/libff/find.py
index 8bed8e3..feef7c0 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -73,7 +73,7 @@ class Find(_Base):
         elif isinstance(query, str):
             tests = shlex.split(query)
         else:
-            tests = query
+            tests = list(query)
 
         args = FindNamespace()
         args.tests = tests
-- 
2.43.0


From 489a66c856f5a7c767546c1bfc0397acd538608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 67/91] fix: searches with the Python API hung forever if the
 number of jobs was zero or negative

---
 libff/find.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/find.py b/libff/find.py
index feef7c0..17440e8 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -23,6 +23,7 @@ import argparse
 
 from .main import _Base
 from .ignore import IGNORE_FILES
+from .argparse import type_jobs
 from .arguments import Defaults, ArgumentsPostProcessor
 from .processing import ImmediateGenerator, CollectiveGenerator
 
@@ -90,7 +91,7 @@ class Find(_Base):
         args.si = si
         args.follow_symlinks = follow_symlinks
         args.absolute_path = absolute_path
-        args.jobs = jobs
+        args.jobs = type_jobs(jobs)
         args.cache = cache
 
         processor = ArgumentsPostProcessor(args)
-- 
2.43.0


From ee39f41ba121d163a64781ddc531d9ac3f3b124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 68/91] fix: records of the Python API could not be copied or
 pickled

---
 libff/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index a7e9db5..34afc46 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -38,8 +38,9 @@ class AttributeDict(dict):
         self._fields = {field.replace(".", "_"): field for field in fields}
 
     def __getattr__(self, name):
-        if name not in self._fields:
-            raise KeyError(name)
+        # The _fields attribute is missing while the object is being copied or unpickled.
+        if name == "_fields" or name not in self._fields:
+            raise AttributeError(name)
         else:
             return self[self._fields[name]]
 
-- 
2.43.0


From d90e787725e8400018ecba406bf29a22d9a746e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 69/91] fix: searches with the Python API failed if they were
 set up in another thread

---
 libff/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/cache.py b/libff/cache.py
index 434115a..4c61d5c 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -75,7 +75,8 @@ class Cache(NullCache):
     def __init__(self, context):
         super().__init__(context)
 
-        self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
+        self.conn = sqlite3.connect(self.context.args.cache, timeout=30,
+                check_same_thread=False)
 
         self.registered = {}
 
-- 
2.43.0


From 426a1f759ec02e3472b3a40c333795681b426dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 70/91] fix: errors in the processes of a search with the
 Python API went unnoticed

---
 libff/find.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index 17440e8..f6eb462 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -25,6 +25,7 @@ from .main import _Base
 from .ignore import IGNORE_FILES
 from .argparse import type_jobs
 from .arguments import Defaults, ArgumentsPostProcessor
+from .exceptions import EX_PROCESS, ProcessError
 from .processing import ImmediateGenerator, CollectiveGenerator
 
 
@@ -126,6 +127,10 @@ class Find(_Base):
 
             yield from self.context.processing
 
+            if self.context.exitcode == EX_PROCESS:
+                raise ProcessError("One or more ff processes had unrecoverable errors! "\
+                        "Result is probably incomplete!")
+
         except KeyboardInterrupt:
             # Stop all processes immediately.
             self.context.stop()
-- 
2.43.0


From 46bf4e9e0cd35ba6a7ee37cc13673ee9c50c386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 71/91] fix: searches with the Python API left processes behind
 if they were abandoned

---
 libff/find.py | 7 +++++--
 libff/walk.py | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/libff/find.py b/libff/find.py
index f6eb462..3b5f80a 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -131,9 +131,12 @@ class Find(_Base):
                 raise ProcessError("One or more ff processes had unrecoverable errors! "\
                         "Result is probably incomplete!")
 
-        except KeyboardInterrupt:
-            # Stop all processes immediately.
+        except BaseException:
+            # Stop all processes immediately, including the ones that wait for their results to be
+            # fetched, because there was an error or the caller is not interested in more results.
             self.context.stop()
+            self.context.cache.close()
+            self.walker.kill()
             raise
 
         self.context.close()
diff --git a/libff/walk.py b/libff/walk.py
index 8df0b09..4b26627 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -54,6 +54,15 @@ class FilesystemWalker(BaseClass):
 
         self.queue.close()
 
+    def kill(self):
+        """Kill all processes immediately.
+        """
+        for process in self.processes:
+            process.kill()
+
+        for process in self.processes:
+            process.join()
+
     def put(self, chunk):
         """Put a chunk of objects in the queue for processing by the FilesystemWalker. Either these
            objects are Directory objects for searching or lists of arguments from an
-- 
2.43.0


From 38d68ccba67450a6689a70d0b2ba0d9afd614f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 72/91] fix: searches with the Python API gave no results when
 iterated a second time

---
 libff/find.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index 3b5f80a..35c5f92 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -18,6 +18,7 @@
 #
 # -----------------------------------------------------------------------
 
+import copy
 import shlex
 import argparse
 
@@ -65,6 +66,11 @@ class Find(_Base):
             si=Defaults.si,
             follow_symlinks=Defaults.follow_symlinks,
             absolute_path=False, jobs=Defaults.jobs, cache=Defaults.cache):
+        # Keep a copy of the arguments, so that it is possible to iterate more than once.
+        self.arguments = {name: copy.copy(value) for name, value in locals().items()
+                if name not in ("self", "__class__")}
+        self.started = False
+
         super().__init__()
 
         if case not in Defaults.case_choices:
@@ -115,7 +121,13 @@ class Find(_Base):
             self.context.processing = ImmediateGenerator(self.context)
 
     def __iter__(self):
+        if self.started:
+            # The components can be used only once, start another search.
+            yield from Find(**self.arguments)
+            return
+
         # Start processing.
+        self.started = True
         try:
             self.context.walker.start_processes()
 
-- 
2.43.0


From 18bdcad73a02e45c1fdf6a8d4114422e0db3f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 73/91] fix: many searches with the Python API failed with too
 many open files

---
 libff/registry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/registry.py b/libff/registry.py
index 1f95c6a..a9abc31 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -55,6 +55,10 @@ class Registry(BaseClass):
 
         self.optimize_for_slow_plugins = False
 
+        # The cache must not be shared either, otherwise it would keep old Registry objects alive
+        # together with all their open files.
+        self.get_data = functools.lru_cache(maxsize=128)(self.get_data)
+
         with self.context.global_lock:
             if not self.registered_plugins:
                 self.load_plugins()
@@ -218,7 +222,6 @@ class Registry(BaseClass):
 
         return attribute
 
-    @functools.lru_cache(maxsize=128)
     def get_data(self, entry, plugin):
         """Return all attribute values that are associated with entry.
         """
-- 
2.43.0


From bbe0e4f6a88a000043abbfaba3ef433b910b3684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 74/91] fix: the names of directories were not colored as
 directories

---
 libff/console.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index dc090db..42224a0 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -165,7 +165,10 @@ class Console(BaseConsole):
     def render_name(self, entry):
         """Render a 'name' field.
         """
-        if entry.is_symlink() and not self.args.follow_symlinks:
+        if entry.is_dir():
+            return self.render_directory(entry.name)
+
+        elif entry.is_symlink() and not self.args.follow_symlinks:
             if entry.broken:
                 return self.render_orphan(entry.name)
             else:
-- 
2.43.0


From 09008c3989169b195e3730e1556bc268dd4b1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 75/91] fix: special values in LS_COLORS were printed as text

---
 libff/console.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libff/console.py b/libff/console.py
index 42224a0..19782cf 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import sys
 import json
 import collections
@@ -264,6 +265,8 @@ class ColorConsole(Console):
        LS_COLORS environment variable. For more info see man dir_colors(5).
     """
 
+    regex_color = re.compile(r"[0-9;]*", re.ASCII)
+
     def __init__(self, context):
         super().__init__(context)
 
@@ -288,6 +291,11 @@ class ColorConsole(Console):
             except ValueError:
                 continue
             else:
+                # Skip special values like 'target' that are no escape sequences and would be
+                # printed as text.
+                if self.regex_color.fullmatch(value) is None:
+                    continue
+
                 if len(key) == 2 and key.isalpha():
                     rules[key] = value
                 else:
-- 
2.43.0


From 59fa14448182ac2d13b9d0575d527ecfb5b7dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 76/91] fix: no MIME types for files whose names are not valid
 unicode

---
 libff/builtin/mime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/builtin/mime.py b/libff/builtin/mime.py
index 98d1656..650bcae 100644
--- a/libff/builtin/mime.py
+++ b/libff/builtin/mime.py
@@ -18,6 +18,8 @@
 #
 # -----------------------------------------------------------------------
 
+import os
+
 from libff.plugin import *
 
 
@@ -53,7 +55,8 @@ class Mime(Plugin):
     def cache(self, entry):
         # pylint:disable=undefined-variable
         try:
-            detected = magic.detect_from_filename(entry.path)
+            # File names may contain bytes that cannot be encoded with UTF-8.
+            detected = magic.detect_from_filename(os.fsencode(entry.path))
             return detected.mime_type, detected.encoding, detected.name
         except (OSError, ValueError) as exc:
             raise NoData from exc
-- 
2.43.0


From 8b5d6a819484b1028d53d4d45a5c8bc8be4d8119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 77/91] fix: no media attributes for files whose names are not
 valid unicode

---
 libff/builtin/media.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libff/builtin/media.py b/libff/builtin/media.py
index 043220d..c0d711c 100644
--- a/libff/builtin/media.py
+++ b/libff/builtin/media.py
@@ -55,14 +55,26 @@ class Medium(Plugin):
         except ImportError as exc:
             raise MissingImport("pymediainfo") from exc
 
+    def parse(self, entry):
+        """Parse a media file.
+        """
+        # pylint:disable=undefined-variable
+        try:
+            entry.path.encode()
+        except UnicodeEncodeError:
+            # MediaInfo is not able to open files by names that are not valid unicode.
+            if not entry.is_file():
+                raise NoData # pylint:disable=raise-missing-from
+            with open(entry.path, "rb") as fobj:
+                return pymediainfo.MediaInfo.parse(fobj, encoding_errors="backslashreplace")
+        return pymediainfo.MediaInfo.parse(entry.path, encoding_errors="backslashreplace")
+
     def prepare_tracks(self, entry):
         """Prepare a more accessible structure of tracks from a media file.
         """
-        # pylint:disable=undefined-variable
         try:
             tracks = {}
-            for track in pymediainfo.MediaInfo.parse(entry.path,
-                    encoding_errors="backslashreplace").tracks:
+            for track in self.parse(entry).tracks:
                 track_type = track.track_type.lower()
                 if track_type in ("audio", "video", "image") and track_type not in tracks:
                     tracks[track_type] = track
-- 
2.43.0


From 13f2c79298078d63ea4f541061765ede6e4442cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 78/91] fix: git worktrees and submodules were not recognised
 as repositories

---
 plugins/git.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/git.py b/plugins/git.py
index 3f22b96..823106e 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -83,7 +83,8 @@ class Git(Plugin):
         """
         if dirname not in self._cache:
             path = os.path.join(dirname, ".git")
-            if os.path.isdir(path):
+            # In worktrees and submodules .git is a file.
+            if os.path.exists(path):
                 self._cache[dirname] = dirname, Filelist(dirname), Status(dirname)
             else:
                 if dirname == os.sep:
-- 
2.43.0


From 5a26d1394ce90f9356924e02d4f9ebb6c8ae37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 79/91] fix: the git plugin rewrote the index of git
 repositories

---
 plugins/git.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 823106e..005f4d0 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -44,8 +44,9 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "--no-renames",
-                "-z"], capture_output=True, check=False)
+        # Do not write to the repository.
+        proc = subprocess.run(["git", "--no-optional-locks", "-C", dirname, "status",
+                "--porcelain", "--no-renames", "-z"], capture_output=True, check=False)
         for line in os.fsdecode(proc.stdout).split("\0")[:-1]:
             status, filename = line[:2], line[3:]
             if status == "??":
-- 
2.43.0


From 4d647af5d190e7851ec1cec8ee90b851811cc65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 80/91] fix: no imports of python files with a byte order mark
 or an encoding declaration

---
 plugins/introspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 291ec09..bfc5f74 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -123,8 +123,8 @@ class Py(Plugin):
     def parse_imports(self, entry):
         """Extract the names of modules and packages that a Python script imports.
         """
-        # pylint:disable=unspecified-encoding
-        with open(entry.path) as fobj:
+        # The parser detects the encoding of the source code by itself.
+        with open(entry.path, "rb") as fobj:
             data = fobj.read()
 
         for node in ast.walk(ast.parse(data)):
-- 
2.43.0


From ed067def8c0e0628bb2136ca021bb9fc0337e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 81/91] fix: syntax warnings for python files were printed
 during the search

---
 plugins/introspect.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index bfc5f74..76c6cd7 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -20,6 +20,7 @@
 
 import os
 import ast
+import warnings
 
 from libff.plugin import *
 
@@ -127,7 +128,11 @@ class Py(Plugin):
         with open(entry.path, "rb") as fobj:
             data = fobj.read()
 
-        for node in ast.walk(ast.parse(data)):
+        with warnings.catch_warnings():
+            warnings.simplefilter("ignore")
+            tree = ast.parse(data)
+
+        for node in ast.walk(tree):
             if isinstance(node, ast.ImportFrom):
                 if node.module is not None:
                     if node.level > 0:
-- 
2.43.0


From 413644d742f6e2225e41f80dbf4a56c97c6f04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 82/91] fix: wrong package names of relative imports

---
 plugins/introspect.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 76c6cd7..4df115f 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -136,12 +136,12 @@ class Py(Plugin):
             if isinstance(node, ast.ImportFrom):
                 if node.module is not None:
                     if node.level > 0:
-                        parts = [node.module]
-                        dirname = entry.dir
-                        for _ in range(node.level):
-                            dirname, basename = os.path.split(dirname)
-                            parts.insert(0, basename)
-                        yield ".".join(parts)
+                        # The first dot is the package the file is in, every other one is one
+                        # level up.
+                        dirname = os.path.dirname(entry.abspath)
+                        for _ in range(node.level - 1):
+                            dirname = os.path.dirname(dirname)
+                        yield f"{os.path.basename(dirname)}.{node.module}"
                     else:
                         yield node.module
 
-- 
2.43.0


From a0d82088cd435a18647965ca1f89a427a8a1768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 83/91] fix: json output failed if a plugin provided a set of
 strings

---
 libff/console.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 19782cf..0cfc45b 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -79,7 +79,8 @@ class JsonlConsole(BaseConsole):
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        line = json.dumps(record)
+        # ListOfStrings values may be sets.
+        line = json.dumps(record, default=list)
         with self.context.output_lock:
             print(line)
             sys.stdout.flush()
@@ -98,7 +99,7 @@ class JsonConsole(JsonlConsole):
         """Dump a newline delimited JSON object to standard output.
         """
         print("," if self.print_comma else "[", end="")
-        json.dump(record, sys.stdout)
+        json.dump(record, sys.stdout, default=list)
         self.print_comma = True
 
     def close(self):
-- 
2.43.0


From b13d6bf99069b288111af7708d625754ebdfbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:49 +0000
Subject: [PATCH 84/91] fix: attributes with one letter could not be printed

---
 libff/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/field.py b/libff/field.py
index 34afc46..02a1fff 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -49,7 +49,7 @@ class Fields(list):
     """A class that stores a list of attributes as fields.
     """
 
-    regex = re.compile(r"^((?:[a-zA-Z][a-zA-Z0-9_]+\.)?[a-zA-Z][a-zA-Z0-9_]+?)"\
+    regex = re.compile(r"^((?:[a-zA-Z][a-zA-Z0-9_]*\.)?[a-zA-Z][a-zA-Z0-9_]*?)"\
             r"(?::(-?\d+)?(h|o|x|n|v)?)?$")
 
     def __init__(self, context, argument):
-- 
2.43.0


From 8430eed85e28570da0509584dba57f9ec83bdc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 85/91] fix: a broken pipe was reported if the reader of the
 help text went away

---
 libff/main.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index fc49842..5fe663e 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -221,9 +221,17 @@ class Main(_Base):
         super().__init__()
 
         try:
-            self.setup(*parse_arguments())
+            try:
+                self.setup(*parse_arguments())
+            except SystemExit:
+                # Put out the help text or the version.
+                sys.stdout.flush()
+                raise
         except BaseError as exc:
             self.handle_exception(exc)
+        except BrokenPipeError as exc:
+            self.discard_output()
+            raise SystemExit(EX_OK) from exc
 
     def loop(self):
         """Do all the processing and exit.
-- 
2.43.0


From 5113d63ab607b6c81a214945bc1f42bc89108fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 86/91] fix: do not leave worker processes behind if the main
 process is killed

---
 libff/walk.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libff/walk.py b/libff/walk.py
index 4b26627..ff6d7a9 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -82,6 +82,13 @@ class FilesystemWalker(BaseClass):
             process.start()
             self.processes.append(process)
 
+    @staticmethod
+    def is_orphaned():
+        """Return True if the main process of this walker process does not exist anymore.
+        """
+        parent = multiprocessing.parent_process()
+        return parent is not None and parent.pid != os.getppid()
+
     def loop(self, index):
         """Get arguments from the queue and process them until searching has finished.
         """
@@ -97,6 +104,11 @@ class FilesystemWalker(BaseClass):
 
         try:
             while not self.context.is_stopping():
+                if self.is_orphaned():
+                    # The main process was killed. Do not wait for the queues to be flushed, because
+                    # there is nobody left to empty them.
+                    os._exit(EX_PROCESS)
+
                 try:
                     objs = self.queue.get(timeout=TIMEOUT)
                 except queue.Empty:
-- 
2.43.0


From 424d8901c5568d0f1ede614e500116ac5c00b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 87/91] fix: profiling runs were incomplete because results in
 transit between queues got lost

---
 libff/context.py    |  6 +-----
 libff/processing.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index 6a1ebe7..c37896e 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -134,11 +134,7 @@ class Context:
         """Return True if there is nothing left to process. We must not depend on the cooperation of
            the other processes here, because they could have terminated abnormally.
         """
-        if __debug__ and self.args.profile:
-            # There is only one process that does not wait for the results to be collected.
-            return True
-        else:
-            return self.pending.get_obj().value == 0 or self.is_stopping()
+        return self.pending.get_obj().value == 0 or self.is_stopping()
 
     def set_idle(self, index, value):
         """Remember whether a process is idle because there is nothing in the queue.
diff --git a/libff/processing.py b/libff/processing.py
index 3dd74ff..ec7ffa2 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -223,7 +223,12 @@ class ReceiverMixin(BaseProcessing):
         self.receiving = True
 
     def process(self, entries):
-        self.context.put(self.out_queue, entries)
+        if __debug__ and self.args.profile:
+            # There are no processes to receive from, the entries are collected once the search is
+            # done.
+            self.received.put(entries)
+        else:
+            self.context.put(self.out_queue, entries)
 
     def receive(self):
         """Transfer chunks of entries from the FilesystemWalker processes. This is done in a thread
@@ -253,7 +258,9 @@ class ReceiverMixin(BaseProcessing):
                         continue
 
                 yield entries
-                self.context.task_done()
+
+                if not (__debug__ and self.args.profile):
+                    self.context.task_done()
 
         finally:
             self.receiving = False
-- 
2.43.0


From 3f85adab92c545f0577f0d3d33d5627009e7d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 88/91] fix: the help pages failed if a plugin or a type has no
 docstring

---
 libff/help.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/help.py b/libff/help.py
index 2753c77..763dfbd 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -302,7 +302,7 @@ class AttributesManPage(ManPage):
         """
         self.add_section(f"{plugin.name} Plugin")
         self.add()
-        self.add(plugin.__doc__)
+        self.add(plugin.__doc__ or "")
         self.add()
         self.render_attributes(plugin)
 
@@ -374,7 +374,7 @@ class TypesManPage(ManPage):
         self.add(br)
         self.add(f"Count: {type_cls.count.name.lower()}")
         self.add()
-        self.add(type_cls.__doc__)
+        self.add(type_cls.__doc__ or "")
         self.add()
 
     def render(self):
@@ -409,7 +409,7 @@ class PluginsManPage(ManPage):
         self.add_section(f"{plugin.name} Plugin")
         self.render_plugin_detail(plugin)
         self.add()
-        self.add(plugin.__doc__)
+        self.add(plugin.__doc__ or "")
 
     def render(self):
         super().render()
-- 
2.43.0


From 3703533bd421d233c99d030a2b1269a8e9f93d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:55 +0000
Subject: [PATCH 89/91] fix: show backslashes and leading dots and quotes of
 descriptions in the help pages

---
 libff/help.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libff/help.py b/libff/help.py
index 763dfbd..e0de432 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -158,6 +158,9 @@ class ManPage:
         # Turn paragraphs into one long line each.
         string = "\n\n".join(" ".join(s.split()) for s in string.split("\n\n"))
 
+        # Keep backslashes apart from the escape sequences that are added below.
+        string = string.replace("\\", "\0")
+
         def replace(match):
             if match.group(1):
                 # Make single-quoted strings italic. It should match "'s'" but not "file's".
@@ -181,8 +184,11 @@ class ManPage:
                         r"([a-z_-]+)(\(\d\))|"\
                         r"(?<![a-zA-Z])(\-[a-zA-Z]|\-\-[a-zA-Z-]+)", replace, string)
 
-        # Escape dashes.
-        return string.replace("-", "\\-")
+        # Protect lines that would be mistaken for a request.
+        string = re.sub(r"^(?=[.'])", r"\\&", string, flags=re.M)
+
+        # Escape dashes and backslashes.
+        return string.replace("-", "\\-").replace("\0", r"\e")
 
     def add(self, line=""):
         """Add a line to the internal buffer.
@@ -231,7 +237,7 @@ class ManPage:
 
             self.add_definition(attribute)
             self.add(f"Type: {type_cls.name}  ( {' '.join(type_cls.operators)} )")
-            self.add(br)
+            self.lines.append(br)
             self.add(help_text)
             self.add()
 
@@ -249,7 +255,7 @@ class ManPage:
                 self.add(f"Uses cache: {'Yes' if plugin.use_cache else 'No'}")
             else:
                 self.add(f"{name.capitalize()}: {getattr(plugin, name)}")
-            self.add(br)
+            self.lines.append(br)
 
     def print(self):
         """Print the raw manpage to stdout.
@@ -369,9 +375,9 @@ class TypesManPage(ManPage):
         """
         self.add_section(f"{type_cls.name} Type")
         self.add(f"Name:  {type_cls.name}")
-        self.add(br)
+        self.lines.append(br)
         self.add(f"Operators:  {' '.join(type_cls.operators)}")
-        self.add(br)
+        self.lines.append(br)
         self.add(f"Count: {type_cls.count.name.lower()}")
         self.add()
         self.add(type_cls.__doc__ or "")
-- 
2.43.0


From a5a788320c6b9388851483a09e70c8b1c959a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:40 +0000
Subject: [PATCH 90/91] fix: profiling runs failed if the results were sorted
 or printed with data from the cache

---
 libff/main.py | 6 ++----
 libff/walk.py | 4 +++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libff/main.py b/libff/main.py
index 5fe663e..ff6c668 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -330,10 +330,8 @@ class Main(_Base):
         except BrokenPipeError:
             self.discard_output()
 
-        # Store the data that was calculated in the main process, e.g. for --sort. When profiling,
-        # the cache has already been closed in Walker.loop().
-        if not (__debug__ and self.args.profile):
-            self.context.cache.close()
+        # Store the data that was calculated in the main process, e.g. for --sort.
+        self.context.cache.close()
 
         if __debug__:
             hits = self.context.cache_hits.value
diff --git a/libff/walk.py b/libff/walk.py
index ff6d7a9..f49faad 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -144,7 +144,9 @@ class FilesystemWalker(BaseClass):
 
                 self.context.task_done()
 
-            self.cache.close()
+            if not (__debug__ and self.args.profile):
+                # When profiling, the cache is still needed for processing the results.
+                self.cache.close()
 
         except BrokenPipeError:
             # Nobody is reading our output anymore.
-- 
2.43.0


From 8861a37319ad6b594ed722aa17d22ce9c096bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:37 +0000
Subject: [PATCH 91/91] fix: Sort by lists of strings if a plugin returns them
 as sets

---
 libff/type.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/type.py b/libff/type.py
index 0724967..f467629 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -237,6 +237,11 @@ class ListOfStrings(Type):
             return False
         return all(isinstance(v, type(String.sort_none)) for v in value)
 
+    @classmethod
+    def sort_key(cls, value):
+        # The value may be a set, which cannot be compared to a list.
+        return sorted(value) if isinstance(value, set) else value
+
 
 class Number(Type):
     """Simple number. Examples: 'file.uid=1000' 'file.links+=2'
-- 
2.43.0

