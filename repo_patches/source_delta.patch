From cd2adbf385bd44b1b6202a8107659c8dedb6e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 01/21] fix: shell help works without inspect.getargspec
 (removed in Python 3.11)

---
 sudokutools/shell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..3bec6f8 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -198,7 +198,11 @@ def signature_str(func):
         'a b=3'
     """
     arg_str = []
-    spec = inspect.getargspec(func)
+    # getargspec() has been removed in Python 3.11.
+    if hasattr(inspect, "getfullargspec"):
+        spec = inspect.getfullargspec(func)
+    else:
+        spec = inspect.getargspec(func)
     args, defaults = spec.args, spec.defaults
 
     # ignore first argument on methods.
-- 
2.43.0


From ef2104b11ec47441da2c5d06e1acc9c4a61301f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 02/21] fix: shell prints results which are no strings (get,
 get_candidates)

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 3bec6f8..3092bc7 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -331,7 +331,7 @@ class Shell(object):
         self.stack = []
 
     def _print(self, s, end='\n'):
-        self.outfile.write(s + end)
+        self.outfile.write(str(s) + end)
         self.outfile.flush()
 
     def error(self, s):
-- 
2.43.0


From c4e34aef07d047aed110ba0409db3dc86d5c659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 03/21] fix: notation.decode() ignores whitespace as intended

---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..636fe01 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -182,7 +182,7 @@ def decode(s, width=3, height=3, sep=",", nsep=""):
     # there is none present in the separators.
     if not any([c in sep for c in string.whitespace]) and \
        not any([c in nsep for c in string.whitespace]):
-        s = s.replace(string.whitespace, "")
+        s = "".join(s.split())
 
     # Split multiple groups.
     groups = [s]
-- 
2.43.0


From 9161715542c76dbac77ac8044b26acb288962c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 04/21] fix: notation.decode() rejects repeated qualifiers and
 trailing ones without numbers

---
 sudokutools/notation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 636fe01..a416774 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -227,7 +227,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
     number_str = ""     # An accumulation of all numbers for the current item.
 
     for c in group:
-        if c in present:
+        if c in present or c == current:
             raise ValueError(
                 "Malformed group '%s'. '%s' has multiple occurrences." %
                 (group, c))
@@ -268,6 +268,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From 54b5b67ea78983005486e39d707d406a1d3d1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 05/21] fix: encode_action() and decode_action() handle numbers
 and candidates

---
 sudokutools/notation.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index a416774..281baee 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -291,11 +291,14 @@ def _decode_single(group, width=3, height=3, nsep=""):
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-        s += "=" + action.number
+        s += "=" + str(action.number)
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join(sorted(action.candidates))
+        # Numbers > 9 must be separated (see the notation of coordinates).
+        nsep = "," if width * height > 9 else ""
+        s += "<>" + nsep.join([str(c) for c in sorted(action.candidates)])
+        return s
 
 
 def decode_action(s, width=3, height=3):
@@ -303,11 +306,11 @@ def decode_action(s, width=3, height=3):
     if s.startswith("-"):
         left, sep, right = s.partition(" ")
         coordinates = decode(right, width=width, height=height)
-        candidates = [int(c) for c in left]
+        candidates = _decode_candidates(left[1:], width, height)
         return RemoveCandidates(coordinates, candidates)
     elif "<>" in s:
         left, sep, right = s.partition("<>")
-        candidates = [int(c) for c in right]
+        candidates = _decode_candidates(right, width, height)
         coordinates = decode(left, width=width, height=height)
         return RemoveCandidates(coordinates, candidates)
     elif "=" in s:
@@ -319,6 +322,14 @@ def decode_action(s, width=3, height=3):
         raise ValueError("Cannot decode action '%s'" % s)
 
 
+def _decode_candidates(s, width, height):
+    # Numbers > 9 must be separated (see the notation of coordinates).
+    if width * height > 9:
+        return [int(c) for c in s.split(",")]
+    else:
+        return [int(c) for c in s]
+
+
 def _join_keys(a_dict):
     new_dict = {}
     for key, value in a_dict.items():
-- 
2.43.0


From 1db5c3d61410da9301cfc7cb0eaeb780bfc0ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 06/21] fix: Sudoku.decode() compares the empty character by
 value

---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..0c93d22 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -394,7 +394,7 @@ class Sudoku(object):
             items = sudoku_str
 
         for item in items:
-            if item is empty:
+            if item == empty:
                 sudoku[row, col] = 0
             else:
                 sudoku[row, col] = int(item)
-- 
2.43.0


From 6f85adb0905ab691405749d3f650b24af7cdb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 07/21] fix: Sudoku.decode() keeps leading and trailing empty
 fields given as whitespace

---
 sudokutools/sudoku.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 0c93d22..b25f429 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -336,7 +336,9 @@ class Sudoku(object):
         format is supported right now.
         """
         # remove leading and trailing whitespace
-        s = s.strip()
+        # (unless it represents empty fields)
+        if not empty or empty not in whitespace:
+            s = s.strip()
 
         # remove all unused whitespace
         if number_sep is None:
-- 
2.43.0


From 8af9a1da330e5a977d0bac410f50b4d6fdae1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 08/21] fix: Sudoku.decode() ignores additional whitespace if
 number_sep is given

---
 sudokutools/sudoku.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index b25f429..7b3d385 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -359,13 +359,17 @@ class Sudoku(object):
             sudoku_str = s
             candidate_str = ""
 
+        if number_sep:
+            items = sudoku_str.split(number_sep)
+            # Additional whitespace leads to items without content.
+            if empty:
+                items = [item for item in items if item]
+        else:
+            items = sudoku_str
+
         # try to get size automatically:
         if box_size is None:
-            if number_sep:
-                count = len(sudoku_str.split(number_sep))
-            else:
-                count = len(sudoku_str)
-
+            count = len(items)
             length = count**0.5
 
             if not length.is_integer():
@@ -390,11 +394,6 @@ class Sudoku(object):
         col = 0
         row = 0
 
-        if number_sep:
-            items = sudoku_str.split(number_sep)
-        else:
-            items = sudoku_str
-
         for item in items:
             if item == empty:
                 sudoku[row, col] = 0
-- 
2.43.0


From 901a1182973ba55e4f3316339b47322b24db263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 09/21] fix: candidates survive encode() and decode() with
 separated numbers

---
 sudokutools/sudoku.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 7b3d385..9dbb798 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -280,7 +280,7 @@ class Sudoku(object):
 
             for row, col in self:
                 clist = list(self.get_candidates(row, col))
-                cstr = "".join([str(i) for i in sorted(clist)])
+                cstr = col_sep.join([str(i) for i in sorted(clist)])
                 all_candidates.append(cstr)
 
             s += "|" + ",".join(all_candidates)
@@ -417,7 +417,7 @@ class Sudoku(object):
         for c in candidate_str.split(candidate_sep):
             c = c.strip()
             if number_sep:
-                candidates = [int(item) for item in c.split(number_sep)]
+                candidates = [int(item) for item in c.split(number_sep) if item]
             else:
                 candidates = [int(item) for item in c]
             sudoku.set_candidates(row, col, candidates)
-- 
2.43.0


From 0c036436c2c50bebad17ae4aab3d1d0a94cda3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 10/21] fix: view() respects number_sep

---
 sudokutools/sudoku.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 9dbb798..f20f9ad 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -590,10 +590,11 @@ def view(
     """
 
     max_length = max([len(str(n)) for n in sudoku.numbers])
-    if max_length > 1:
-        number_sep = ","
-    else:
-        number_sep = ""
+    if number_sep is None:
+        if max_length > 1:
+            number_sep = ","
+        else:
+            number_sep = ""
 
     # In case, candidates aren't calculated yet, this gives a
     # better representation.
-- 
2.43.0


From 4d3d253d2ef51adbc5994c89d51ce0cc21dddebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 11/21] fix: view() draws rules of the correct length for boxes
 of height 1

---
 sudokutools/sudoku.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index f20f9ad..abc9e28 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -611,10 +611,8 @@ def view(
 
     dash_count = sudoku.box_width + sudoku.box_width * max_field_length
 
-    rule = "-" * dash_count + "+"
-    for i in range(sudoku.box_height - 2):
-        rule += "-" * (dash_count + 1) + "+"
-    rule += "-" * dash_count + "\n"
+    # Each box is surrounded by spaces, except at the borders of the sudoku.
+    rule = "+".join(["-" * (dash_count + 1)] * sudoku.box_height)[1:-1] + "\n"
 
     s = ""
 
-- 
2.43.0


From 5f28ad6637ae6f1ab5690b4b98838b1babcc2799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 12/21] fix: sudokus of different sizes are never equal

---
 sudokutools/sudoku.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index abc9e28..69ad74a 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -153,6 +153,10 @@ class Sudoku(object):
             bool: True, if all fields are equal and false if not or other
                   is an incompatible type.
         """
+        # Sudokus of different sizes cannot be equal in all fields.
+        if isinstance(other, Sudoku) and len(self) != len(other):
+            return False
+
         try:
             for row, col in self:
                 if self[row, col] != other[row, col]:
-- 
2.43.0


From c8924cf588629f117d848646034b981e61a8f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 13/21] fix: HiddenTuple.find() yields each step only once

---
 sudokutools/solvers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..5b6a4e8 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -361,12 +361,11 @@ class HiddenTuple(SolveStep):
 
             if len(max_set) <= cls.n:
                 # hidden tuple found - only yield, if there are actions to apply
-                for (row, col) in max_set:
-                    affected = [(r, c) for r, c in max_set
-                                if sudoku.get_candidates(r, c) - set(numbers)]
+                affected = [(r, c) for r, c in max_set
+                            if sudoku.get_candidates(r, c) - set(numbers)]
 
-                    if affected:
-                        yield cls(clues=coords, affected=affected, values=numbers)
+                if affected:
+                    yield cls(clues=coords, affected=affected, values=numbers)
 
 HiddenPair = type("HiddenPair", (HiddenTuple,), dict(n=2))
 HiddenTriple = type("HiddenTriple", (HiddenTuple,), dict(n=3))
-- 
2.43.0


From 630b5655b84998ee8eaec34ebc4b41dffd40562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 14/21] fix: solvers.solve() terminates on sudokus without a
 solution

---
 sudokutools/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 5b6a4e8..0564c21 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -567,9 +567,10 @@ def solve(sudoku, report=lambda step: None):
 
     solution = sudoku.copy()
     init_candidates(solution, filled_only=True)
+    solvers = list(SOLVERS)
 
     while True:
-        for cls in SOLVERS:
+        for cls in solvers:
             count = 0
 
             for step in cls.find(solution):
@@ -582,6 +583,11 @@ def solve(sudoku, report=lambda step: None):
         else:
             break
 
+        # Calculate candidates only once: If a sudoku has no solution, fields
+        # may run out of candidates, which would be restored over and over.
+        if cls is CalculateCandidates:
+            solvers.remove(CalculateCandidates)
+
     return solution
 
 
-- 
2.43.0


From acbd2b28a226868a9843a9101139341d1bc2f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 15/21] fix: settings command of the game shell

---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 3092bc7..93558aa 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -114,7 +114,7 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value, desc = self.settings[key], self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From e2a8df4d5ddf23b6cb71037ce0742ec2d02c2beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 16/21] fix: game shell ignores empty lines

---
 sudokutools/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 93558aa..1ae5abf 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -84,6 +84,9 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
+            # ignore empty lines
+            if not splitted:
+                continue
             command = splitted[0]
 
             if command == "hint":
-- 
2.43.0


From 742fb0ac3924f5769d868cc9c6ee296ae69d292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 17/21] fix: game shell restarts hints if candidates have
 changed

---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 1ae5abf..bac0dbf 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -90,7 +90,8 @@ class GameShell(object):
             command = splitted[0]
 
             if command == "hint":
-                if self.hints is None or self.hinted_sudoku != sudoku:
+                if self.hints is None or not self.hinted_sudoku.equals(
+                        sudoku, candidates=True):
                     self.hinted_sudoku = sudoku.copy(include_candidates=True)
                     self.hints = hints(sudoku)
                 try:
-- 
2.43.0


From 8f2831ac05ad41c00f58bf61628d3ce5c9e9c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 18/21] fix: shell reports every invalid argument instead of
 crashing

---
 sudokutools/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index bac0dbf..46820a9 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -256,7 +256,10 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            # literal_eval() may raise any of these (RecursionError is
+            # a RuntimeError).
+            except (SyntaxError, ValueError, TypeError, MemoryError,
+                    RuntimeError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From 8f68d240974d54ea2238c7d001cc2fa681cf735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 19/21] fix: exit also ignores the remaining commands of its
 line

---
 sudokutools/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 46820a9..92e6ead 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -367,6 +367,10 @@ class Shell(object):
 
     def execute_line(self, line):
         for s in line.split(';'):
+            # ignore everything after exit
+            if not self.running:
+                break
+
             s = s.strip()
 
             try:
-- 
2.43.0


From f7da78223028e9c259fd9e3ca010f2c085ae767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 20/21] fix: Ctrl-C discards the current line of the
 interactive shell

---
 sudokutools/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 92e6ead..35ad1eb 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -401,6 +401,8 @@ class Shell(object):
             except KeyboardInterrupt:
                 if self.interactive:
                     self._print("\nUse 'exit' to leave the shell.")
+                    # forget the line so far
+                    lines = ""
                     line = "\n"
                 else:
                     sys.exit(2)
@@ -434,6 +436,7 @@ class Shell(object):
                     lines = ""
             except KeyboardInterrupt:
                 self._print("")
+                lines = ""
 
                 if not self.interactive:
                     sys.exit(2)
-- 
2.43.0


From 277985bd6a993f5db8bd635a26e6bde98b11c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 21/21] fix: interrupting a loop ends its definition

---
 sudokutools/shell.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 35ad1eb..e81d78a 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -488,13 +488,17 @@ class Shell(object):
 
             self.prompt = self.command_prompt
 
-            # run commands
-            for _ in range(self.__loop_n):
-                for command in self.__loop_command_list:
-                    self.execute(*command)
-
+            # The loop definition ends here, even if running
+            # the commands is interrupted.
+            n = self.__loop_n
+            commands = self.__loop_command_list
             self.__loop_n = None
             self.__loop_command_list = []
+
+            # run commands
+            for _ in range(n):
+                for command in commands:
+                    self.execute(*command)
         else:
             try:
                 n = int(n)
-- 
2.43.0

