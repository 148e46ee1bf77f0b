From ec3d1d8108b91d050c9b2a09a5b07a7e7e1a438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 01/27] fix: solve() (and rate(), score()) never ended for many
 unsolvable sudokus

---
 sudokutools/solvers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e86cc97..b637411 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -569,8 +569,18 @@ def solve(sudoku, report=lambda step: None):
     solution = sudoku.copy()
     init_candidates(solution, filled_only=True)
 
+    # Candidates are calculated only once: A field, which loses all of its
+    # candidates later on, shows that the sudoku has no solution and
+    # recalculating its candidates would repeat the same steps forever.
+    calculated = False
+
     while True:
         for cls in SOLVERS:
+            if cls is CalculateCandidates:
+                if calculated:
+                    continue
+                calculated = True
+
             count = 0
 
             for step in cls.find(solution):
-- 
2.43.0


From 9327d28b2748bd29dc30f941b74aeeb44d5a9555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 02/27] fix: HiddenSingle reported numbers which are not a
 candidate of the field

---
 sudokutools/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index b637411..e52b9d4 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -207,7 +207,7 @@ class HiddenSingle(_SingleFieldStep):
         for row, col in sudoku.empty():
             for f in sudoku.column_of, sudoku.row_of, sudoku.box_of:
                 found_hidden_single = False
-                candidates = set(sudoku.numbers)
+                candidates = set(sudoku.get_candidates(row, col))
                 for i, j in f(row, col, include=False):
                     candidates -= sudoku.get_candidates(i, j)
 
-- 
2.43.0


From bc1b226d70790b3c2e06e3f13a0f4205218c39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 03/27] fix: HiddenTuple.find() yielded every step multiple
 times

---
 sudokutools/solvers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index e52b9d4..5b4e617 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -361,12 +361,11 @@ class HiddenTuple(SolveStep):
 
             if len(max_set) <= cls.n:
                 # hidden tuple found - only yield, if there are actions to apply
-                for (row, col) in max_set:
-                    affected = [(r, c) for r, c in max_set
-                                if sudoku.get_candidates(r, c) - set(numbers)]
+                affected = [(r, c) for r, c in max_set
+                            if sudoku.get_candidates(r, c) - set(numbers)]
 
-                    if affected:
-                        yield cls(clues=coords, affected=affected, values=numbers)
+                if affected:
+                    yield cls(clues=coords, affected=affected, values=numbers)
 
 HiddenPair = type("HiddenPair", (HiddenTuple,), dict(n=2))
 HiddenTriple = type("HiddenTriple", (HiddenTuple,), dict(n=3))
-- 
2.43.0


From 5b622bad792f53df380278b7ea091572014e09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 04/27] fix: the help command of the shell failed with Python
 >= 3.11

---
 sudokutools/shell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 20c2ecb..9e9213f 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -198,7 +198,12 @@ def signature_str(func):
         'a b=3'
     """
     arg_str = []
-    spec = inspect.getargspec(func)
+    # getargspec() has been removed in Python 3.11,
+    # getfullargspec() doesn't exist in Python 2.
+    try:
+        spec = inspect.getfullargspec(func)
+    except AttributeError:
+        spec = inspect.getargspec(func)
     args, defaults = spec.args, spec.defaults
 
     # ignore first argument on methods.
-- 
2.43.0


From 69294c108574f20bd9f4544b983fdfbec407a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 05/27] fix: an empty line crashed the game shell

---
 sudokutools/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 9e9213f..1fb87b4 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -84,6 +84,8 @@ class GameShell(object):
             print("> ", end="")
             line = input()
             splitted = line.split()
+            if not splitted:
+                continue
             command = splitted[0]
 
             if command == "hint":
-- 
2.43.0


From eb505ef298445123b1df5af7deb2315c003497f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 06/27] fix: the settings command crashed the game shell

---
 sudokutools/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 1fb87b4..4a283cb 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -71,7 +71,7 @@ class GameShell(object):
             init_candidates(self.sudokus[0], filled_only=True)
 
     def get_setting(self, key):
-        return self.settings[key][0]
+        return self.settings[key]
 
     def run(self):
         print("sudokutools game shell %s" % __version__)
@@ -116,7 +116,7 @@ class GameShell(object):
                     print(s)
             elif command == "settings":
                 for key in sorted(self.settings):
-                    value, desc = self.settings[key]
+                    value, desc = self.settings[key], self.settings_desc[key]
                     s = "%s = %s" % (key, value)
                     s = s.ljust(20, " ")
                     s += " # %s" % desc
-- 
2.43.0


From 3d0b9bf6b6cb63d7c3c1870795b97a40d4e69ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 07/27] fix: the game shell gave outdated hints after
 candidates changed

---
 sudokutools/shell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 4a283cb..a9a6692 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -89,7 +89,8 @@ class GameShell(object):
             command = splitted[0]
 
             if command == "hint":
-                if self.hints is None or self.hinted_sudoku != sudoku:
+                if self.hints is None or not sudoku.equals(
+                        self.hinted_sudoku, candidates=True):
                     self.hinted_sudoku = sudoku.copy(include_candidates=True)
                     self.hints = hints(sudoku)
                 try:
-- 
2.43.0


From 86d66058036b27cdbc519a55619f3f9fa69bb9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 08/27] fix: notation.decode() did not remove whitespace

---
 sudokutools/notation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index bece0f8..619c922 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -182,7 +182,8 @@ def decode(s, width=3, height=3, sep=",", nsep=""):
     # there is none present in the separators.
     if not any([c in sep for c in string.whitespace]) and \
        not any([c in nsep for c in string.whitespace]):
-        s = s.replace(string.whitespace, "")
+        for c in string.whitespace:
+            s = s.replace(c, "")
 
     # Split multiple groups.
     groups = [s]
-- 
2.43.0


From f73cd03ea032e9575bf2003c365d5ec96d535b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 09/27] fix: notation.decode() accepted a qualifier directly
 following itself

---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 619c922..0368c04 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -228,7 +228,7 @@ def _decode_single(group, width=3, height=3, nsep=""):
     number_str = ""     # An accumulation of all numbers for the current item.
 
     for c in group:
-        if c in present:
+        if c in present or c == current:
             raise ValueError(
                 "Malformed group '%s'. '%s' has multiple occurrences." %
                 (group, c))
-- 
2.43.0


From 53e98709b4eba76377c7af452c54d329963b4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 10/27] fix: notation.decode() accepted a trailing qualifier
 without numbers

---
 sudokutools/notation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 0368c04..8e17313 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -269,6 +269,11 @@ def _decode_single(group, width=3, height=3, nsep=""):
         else:
             numbers = [int(n) - 1 for n in number_str.split(nsep)]
 
+        if not numbers:
+            raise ValueError(
+                "Malformed group '%s'. No numbers given for '%s'" %
+                (group, current))
+
         all_numbers[current] = numbers
     elif not present:
         raise ValueError("Empty group '%s'" % group)
-- 
2.43.0


From 84391954bd3268da865ffc976e21687f87d7a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 11/27] fix: encode_action() failed for numbers and returned
 None for removals

---
 sudokutools/notation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 8e17313..d04ef32 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -292,11 +292,12 @@ def _decode_single(group, width=3, height=3, nsep=""):
 def encode_action(action, width=3, height=3):
     if isinstance(action, SetNumber):
         s = encode(action.coordinates, width=width, height=height)
-        s += "=" + action.number
+        s += "=" + str(action.number)
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join(sorted(action.candidates))
+        s += "<>" + "".join([str(c) for c in sorted(action.candidates)])
+        return s
 
 
 def decode_action(s, width=3, height=3):
-- 
2.43.0


From 5c9aef0890f9c48931f4f57dd075d66eec9cd8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 12/27] fix: decode() compared the empty character by identity

---
 sudokutools/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 6539d81..0c93d22 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -394,7 +394,7 @@ class Sudoku(object):
             items = sudoku_str
 
         for item in items:
-            if item is empty:
+            if item == empty:
                 sudoku[row, col] = 0
             else:
                 sudoku[row, col] = int(item)
-- 
2.43.0


From 45d2760795293a4c8a3a0cc30d1aa883f5b2a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 13/27] fix: view() ignored the number_sep argument

---
 sudokutools/sudoku.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 0c93d22..97bdcb2 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -589,10 +589,11 @@ def view(
     """
 
     max_length = max([len(str(n)) for n in sudoku.numbers])
-    if max_length > 1:
-        number_sep = ","
-    else:
-        number_sep = ""
+    if number_sep is None:
+        if max_length > 1:
+            number_sep = ","
+        else:
+            number_sep = ""
 
     # In case, candidates aren't calculated yet, this gives a
     # better representation.
-- 
2.43.0


From 79af7d8129a31f03fece2036a8d82ceed2b2850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:10 +0000
Subject: [PATCH 14/27] fix: view() drew rules of wrong length for boxes with a
 height of 1

---
 sudokutools/sudoku.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 97bdcb2..66e2e25 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -610,10 +610,7 @@ def view(
 
     dash_count = sudoku.box_width + sudoku.box_width * max_field_length
 
-    rule = "-" * dash_count + "+"
-    for i in range(sudoku.box_height - 2):
-        rule += "-" * (dash_count + 1) + "+"
-    rule += "-" * dash_count + "\n"
+    rule = "-+-".join(["-" * (dash_count - 1)] * sudoku.box_height) + "\n"
 
     s = ""
 
-- 
2.43.0


From c4b2a96041f0062f6a47d969664986f04ea141f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 15/27] fix: candidates encoded with separators could not be
 decoded again

---
 sudokutools/sudoku.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 66e2e25..1f6ac36 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -280,7 +280,7 @@ class Sudoku(object):
 
             for row, col in self:
                 clist = list(self.get_candidates(row, col))
-                cstr = "".join([str(i) for i in sorted(clist)])
+                cstr = col_sep.join([str(i) for i in sorted(clist)])
                 all_candidates.append(cstr)
 
             s += "|" + ",".join(all_candidates)
@@ -416,7 +416,8 @@ class Sudoku(object):
         for c in candidate_str.split(candidate_sep):
             c = c.strip()
             if number_sep:
-                candidates = [int(item) for item in c.split(number_sep)]
+                candidates = [int(item) for item in c.split(number_sep)
+                              if item]
             else:
                 candidates = [int(item) for item in c]
             sudoku.set_candidates(row, col, candidates)
-- 
2.43.0


From e9871f672591ac15b37d163669ae4046dcb00532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 16/27] fix: a sudoku could be equal to a larger one

---
 sudokutools/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 1f6ac36..8d8738f 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -153,6 +153,9 @@ class Sudoku(object):
             bool: True, if all fields are equal and false if not or other
                   is an incompatible type.
         """
+        if isinstance(other, Sudoku) and len(self) != len(other):
+            return False
+
         try:
             for row, col in self:
                 if self[row, col] != other[row, col]:
-- 
2.43.0


From b98c9f6166b9fd1634505d10701396e3fecf56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 17/27] fix: decode() with number_sep failed on repeated
 whitespace

---
 sudokutools/sudoku.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudokutools/sudoku.py b/sudokutools/sudoku.py
index 8d8738f..7cf4e3c 100644
--- a/sudokutools/sudoku.py
+++ b/sudokutools/sudoku.py
@@ -363,7 +363,8 @@ class Sudoku(object):
         # try to get size automatically:
         if box_size is None:
             if number_sep:
-                count = len(sudoku_str.split(number_sep))
+                count = len([item for item in sudoku_str.split(number_sep)
+                             if item])
             else:
                 count = len(sudoku_str)
 
@@ -392,7 +393,8 @@ class Sudoku(object):
         row = 0
 
         if number_sep:
-            items = sudoku_str.split(number_sep)
+            # consecutive whitespace leads to empty items
+            items = [item for item in sudoku_str.split(number_sep) if item]
         else:
             items = sudoku_str
 
-- 
2.43.0


From 875bb29884e8ddb498bbfc6e0ae9419a4db13920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 18/27] fix: decode_action() rejected removals of the form "-12
 r1c1"

The leading minus was parsed as a candidate, so every such move failed.
---
 sudokutools/notation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index d04ef32..87b3d79 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -305,7 +305,7 @@ def decode_action(s, width=3, height=3):
     if s.startswith("-"):
         left, sep, right = s.partition(" ")
         coordinates = decode(right, width=width, height=height)
-        candidates = [int(c) for c in left]
+        candidates = [int(c) for c in left[1:]]
         return RemoveCandidates(coordinates, candidates)
     elif "<>" in s:
         left, sep, right = s.partition("<>")
-- 
2.43.0


From cf2b02bc3b4669de17d80f2654f8777049596cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 19/27] fix: get and get_candidates always failed in the shell

The shell could only print text: a number or a set of candidates
led to a TypeError and therefore to an error message.
---
 sudokutools/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index a9a6692..fbb3647 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -335,7 +335,7 @@ class Shell(object):
         self.stack = []
 
     def _print(self, s, end='\n'):
-        self.outfile.write(s + end)
+        self.outfile.write(str(s) + end)
         self.outfile.flush()
 
     def error(self, s):
-- 
2.43.0


From b98311a3c1244954fef4031c2b4438c804caafa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 20/27] fix: HiddenTuple.find() yielded steps twice if a box
 equals a row or column

---
 sudokutools/solvers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 5b4e617..2102775 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -326,7 +326,7 @@ class HiddenTuple(SolveStep):
     @classmethod
     def find(cls, sudoku):
         # keep track of yielded steps
-        yielded_coords = []
+        yielded = []
 
         # we work through rows, cols and quads in 3 steps, since the
         # empty fields can changed in-between
@@ -338,7 +338,10 @@ class HiddenTuple(SolveStep):
                     clist.append(coords)
             for coords in clist:
                 for step in cls.__find_at(sudoku, coords):
-                    yield step
+                    # A box may be the same unit as a row or column.
+                    if (step.clues, step.values) not in yielded:
+                        yielded.append((step.clues, step.values))
+                        yield step
 
     @classmethod
     def __find_at(cls, sudoku, coords):
-- 
2.43.0


From 72fbc55047b81a0b3d31022235cc53bb91104c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:26 +0000
Subject: [PATCH 21/27] fix: malformed arguments like {[1]} crashed the shell

---
 sudokutools/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index fbb3647..e6a3405 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -256,7 +256,9 @@ def parse(s):
                     else:
                         args.append(literal_eval(value))
 
-            except (SyntaxError, ValueError):
+            # literal_eval() may raise any of these for malformed input.
+            except (SyntaxError, ValueError, TypeError, MemoryError,
+                    RuntimeError):
                 raise ValueError("Invalid argument: %s " % value +
                                  "(Did you forget quotation marks?)")
 
-- 
2.43.0


From e0e94bb93c255f8161acfbe66013b2d168e80806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 22/27] fix: exit did not skip the remaining commands of its
 line

---
 sudokutools/shell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index e6a3405..95fd92c 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -366,6 +366,10 @@ class Shell(object):
 
     def execute_line(self, line):
         for s in line.split(';'):
+            # exit skips the rest of the line.
+            if not self.running:
+                break
+
             s = s.strip()
 
             try:
-- 
2.43.0


From 41c8e362b394b6cf66d863650d4d11f2e9643e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 23/27] fix: a loop interrupted with Ctrl-C is over

The prompt was reset, but the loop stayed defined, so all following
commands silently went into it.
---
 sudokutools/shell.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 95fd92c..09f24d7 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -484,13 +484,15 @@ class Shell(object):
 
             self.prompt = self.command_prompt
 
-            # run commands
-            for _ in range(self.__loop_n):
-                for command in self.__loop_command_list:
-                    self.execute(*command)
-
+            # The loop is done, even if its execution is interrupted.
+            loop_n, command_list = self.__loop_n, self.__loop_command_list
             self.__loop_n = None
             self.__loop_command_list = []
+
+            # run commands
+            for _ in range(loop_n):
+                for command in command_list:
+                    self.execute(*command)
         else:
             try:
                 n = int(n)
-- 
2.43.0


From 0a911e099b32c7370243bac1ad88d536d947c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 24/27] fix: an interrupted line is not run again with the next
 one

After Ctrl-C the interrupted line was kept and the next line appended
to it.
---
 sudokutools/shell.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 09f24d7..8f95300 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -425,12 +425,13 @@ class Shell(object):
                 if line.endswith('\\'):
                     lines += line[:-1]
                 else:
-                    lines += line
+                    # The line is done, even if its execution is interrupted.
+                    complete_line = lines + line
+                    lines = ""
 
                     # ignore empty lines
-                    if lines:
-                        self.execute_line(lines)
-                    lines = ""
+                    if complete_line:
+                        self.execute_line(complete_line)
             except KeyboardInterrupt:
                 self._print("")
 
-- 
2.43.0


From ce013a97acefb7709b8b3041e3e0cacfbe78a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:02 +0000
Subject: [PATCH 25/27] fix: Ctrl-C drops the beginning of a continued line

It was executed instead, although the user interrupted typing it.
---
 sudokutools/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudokutools/shell.py b/sudokutools/shell.py
index 8f95300..072671a 100644
--- a/sudokutools/shell.py
+++ b/sudokutools/shell.py
@@ -400,6 +400,7 @@ class Shell(object):
             except KeyboardInterrupt:
                 if self.interactive:
                     self._print("\nUse 'exit' to leave the shell.")
+                    lines = ""
                     line = "\n"
                 else:
                     sys.exit(2)
-- 
2.43.0


From 81eff9cdbff99531b5179713e9d43f0952a382b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 26/27] fix: a step applied to a second sudoku made only the
 changes the first one required

---
 sudokutools/solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudokutools/solvers.py b/sudokutools/solvers.py
index 2102775..f36c79c 100644
--- a/sudokutools/solvers.py
+++ b/sudokutools/solvers.py
@@ -106,8 +106,9 @@ class SolveStep(object):
 
     def apply(self, sudoku):
         """Apply this solve step to the sudoku."""
-        if not self.actions:
-            self.build_actions(sudoku)
+        # Which changes are required depends on the given sudoku.
+        self.actions = []
+        self.build_actions(sudoku)
 
         for action in self.actions:
             action.func(sudoku, action.row, action.col, action.value)
-- 
2.43.0


From 5b3e2d0525bd05d7bf8f90a3ae96b0eaaea664e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 27/27] fix: numbers above 9 in moves removing candidates were
 run together

---
 sudokutools/notation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sudokutools/notation.py b/sudokutools/notation.py
index 87b3d79..5a05efb 100644
--- a/sudokutools/notation.py
+++ b/sudokutools/notation.py
@@ -296,7 +296,8 @@ def encode_action(action, width=3, height=3):
         return s
     elif isinstance(action, RemoveCandidates):
         s = encode(action.coordinates, width=width, height=height)
-        s += "<>" + "".join([str(c) for c in sorted(action.candidates)])
+        nsep = "," if width * height > 9 else ""
+        s += "<>" + nsep.join([str(c) for c in sorted(action.candidates)])
         return s
 
 
@@ -305,11 +306,11 @@ def decode_action(s, width=3, height=3):
     if s.startswith("-"):
         left, sep, right = s.partition(" ")
         coordinates = decode(right, width=width, height=height)
-        candidates = [int(c) for c in left[1:]]
+        candidates = _decode_candidates(left[1:], width, height)
         return RemoveCandidates(coordinates, candidates)
     elif "<>" in s:
         left, sep, right = s.partition("<>")
-        candidates = [int(c) for c in right]
+        candidates = _decode_candidates(right, width, height)
         coordinates = decode(left, width=width, height=height)
         return RemoveCandidates(coordinates, candidates)
     elif "=" in s:
@@ -321,6 +322,14 @@ def decode_action(s, width=3, height=3):
         raise ValueError("Cannot decode action '%s'" % s)
 
 
+def _decode_candidates(s, width, height):
+    """Decode candidates, which are separated, if there are numbers > 9."""
+    if s and width * height > 9:
+        return [int(c) for c in s.split(",")]
+    else:
+        return [int(c) for c in s]
+
+
 def _join_keys(a_dict):
     new_dict = {}
     for key, value in a_dict.items():
-- 
2.43.0

