From 9e3c3cd1e781c4214b27bdad8aa04ad4f1a04287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 01/18] fix: aquapelago clue cells are shaded

---
 solver/aquapelago.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/aquapelago.py b/solver/aquapelago.py
index f3d2458..08412b8 100644
--- a/solver/aquapelago.py
+++ b/solver/aquapelago.py
@@ -34,6 +34,7 @@ class AquapelagoSolver(Solver):
         for (r, c, d, tp), num in puzzle.text.items():
             validate_direction(r, c, d)
             validate_type(tp, "normal")
+            self.add_program_line(f"black({r}, {c}).")
             if isinstance(num, int):
                 self.add_program_line(grid_src_color_connected((r, c), color="black", adj_type="x"))
                 self.add_program_line(count_reachable_src(num, (r, c), color="black", adj_type="x"))
-- 
2.43.0


From 21248cf3f290c6c93db1063918ab229e03890e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 02/18] fix: firefly counts the bends of its own line only

---
 solver/firefly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index ba23ec5..a1812c0 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -19,7 +19,7 @@ def restrict_num_bend(r: int, c: int, num: int, color: str) -> str:
     A grid_in/grid_out rule should be defined first.
     """
     rule = f"reachable({r}, {c}, {r}, {c}).\n"
-    rule += f"reachable({r}, {c}, R, C) :- {color}(R, C), grid(R1, C1), reachable({r}, {c}, R1, C1), adj_loop_directed(R1, C1, R, C).\n"
+    rule += f"reachable({r}, {c}, R, C) :- {color}(R, C), {color}(R1, C1), reachable({r}, {c}, R1, C1), adj_loop_directed(R1, C1, R, C).\n"
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "l"), not grid_out(R, C, "r").\n'
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "u"), not grid_out(R, C, "d").\n'
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "r"), not grid_out(R, C, "l").\n'
-- 
2.43.0


From 321b1f4a381cd225007de78b26a9419bce0ccee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 03/18] fix: firefly lines are connected also without numbers

---
 solver/firefly.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index a1812c0..e188b14 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -25,9 +25,6 @@ def restrict_num_bend(r: int, c: int, num: int, color: str) -> str:
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "r"), not grid_out(R, C, "l").\n'
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "d"), not grid_out(R, C, "u").\n'
     rule += f":- #count{{ R, C: grid(R, C), reachable({r}, {c}, R, C), bend(R, C) }} != {num}.\n"
-
-    rule += "firefly_all(R, C) :- firefly(R, C).\n"
-    rule += "firefly_all(R, C) :- dead_end(R, C).\n"
     return rule
 
 
@@ -47,10 +44,11 @@ class FireflySolver(Solver):
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
         self.add_program_line(defined(item="dead_end"))
-        self.add_program_line(defined(item="firefly_all"))
         self.add_program_line(grid(puzzle.row + 1, puzzle.col + 1))
         self.add_program_line(direction("lurd"))
         self.add_program_line("{ firefly(R, C) } :- grid(R, C), not dead_end(R, C).")
+        self.add_program_line("firefly_all(R, C) :- firefly(R, C).")
+        self.add_program_line("firefly_all(R, C) :- dead_end(R, C).")
         self.add_program_line(fill_path(color="firefly", directed=True))
         self.add_program_line(adjacent(_type="loop_directed"))
         self.add_program_line(directed_loop(color="firefly"))
-- 
2.43.0


From 34e2c883eafa284ddffea44dddbede11bfed94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 04/18] fix: edges ruled out by a helper cross are no room
 borders

---
 solver/heyablock.py | 4 ++--
 solver/heyawake.py  | 4 ++--
 solver/hinge.py     | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/solver/heyablock.py b/solver/heyablock.py
index 64c3176..3c0ed0c 100644
--- a/solver/heyablock.py
+++ b/solver/heyablock.py
@@ -47,13 +47,13 @@ class HeyablockSolver(Solver):
                 self.add_program_line(count(("gt", 0), color="gray", _type="area", _id=i))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP)) is True]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/heyawake.py b/solver/heyawake.py
index 13ecad3..66f328a 100644
--- a/solver/heyawake.py
+++ b/solver/heyawake.py
@@ -153,13 +153,13 @@ class HeyawakeSolver(Solver):
                         self.add_program_line(limit_border(lmt_border, ar, puzzle, _type="right", color="gray"))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP)) is True]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/hinge.py b/solver/hinge.py
index da7e168..375b619 100644
--- a/solver/hinge.py
+++ b/solver/hinge.py
@@ -47,9 +47,9 @@ class HingeSolver(Solver):
         for r in range(1, puzzle.row):
             c = 0
             while c < puzzle.col:
-                if Point(r, c, Direction.TOP) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.TOP)) is True:
                     c0 = c
-                    while c < puzzle.col and Point(r, c, Direction.TOP) in puzzle.edge:
+                    while c < puzzle.col and puzzle.edge.get(Point(r, c, Direction.TOP)) is True:
                         self.add_program_line(f"edge_top({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r}, {c0}, "H").')
                         c += 1
@@ -59,9 +59,9 @@ class HingeSolver(Solver):
         for c in range(1, puzzle.col):
             r = 0
             while r < puzzle.row:
-                if Point(r, c, Direction.LEFT) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True:
                     r0 = r
-                    while r < puzzle.row and Point(r, c, Direction.LEFT) in puzzle.edge:
+                    while r < puzzle.row and puzzle.edge.get(Point(r, c, Direction.LEFT)) is True:
                         self.add_program_line(f"edge_left({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r0}, {c}, "V").')
                         r += 1
-- 
2.43.0


From f2b13fec040af894358dff89cad482614a6e64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:02 +0000
Subject: [PATCH 05/18] fix: mannequin distances in long winding rooms

---
 solver/mannequin.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/solver/mannequin.py b/solver/mannequin.py
index 44aafe9..7b9b8b7 100644
--- a/solver/mannequin.py
+++ b/solver/mannequin.py
@@ -1,7 +1,5 @@
 """The Mannequin Gate solver."""
 
-from typing import Tuple
-
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Point, Puzzle
 from noqx.rule.common import area, count, display, grid, shade_c
@@ -10,14 +8,13 @@ from noqx.rule.neighbor import adjacent, area_adjacent
 from noqx.rule.reachable import grid_color_connected
 
 
-def distance_in_area(grid_size: Tuple[int, int]) -> str:
-    """Generate a rule to calculate the distance between grids in an area."""
-    r, c = grid_size
+def distance_in_area(max_size: int) -> str:
+    """Generate a rule to calculate the distance between grids in an area of at most max_size cells."""
     rule = "dist(R, C, R, C, -1) :- grid(R, C).\n"
     rule += "dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), dist(R0, C0, R, C, N).\n"
-    # The following r + c upper bound is not rigorous.
+    # A path in an area passes through less than max_size other cells.
     # TODO Actually it's better to pre-calculate the distance in python for this puzzle.
-    rule += f"dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), N < {r + c}, (R0, C0) != (R, C), area(A, R, C), area(A, R0, C0), N - 1 = #min{{ N1 : adj_4(R0, C0, R1, C1), area(A, R1, C1), dist(R, C, R1, C1, N1) }}.\n"
+    rule += f"dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), N < {max_size}, (R0, C0) != (R, C), area(A, R, C), area(A, R0, C0), N - 1 = #min{{ N1 : adj_4(R0, C0, R1, C1), area(A, R1, C1), dist(R, C, R1, C1, N1) }}.\n"
     return rule.strip()
 
 
@@ -52,10 +49,10 @@ class MannequinSolver(Solver):
         self.add_program_line(adjacent())
         self.add_program_line(grid_color_connected(color="not gray", grid_size=(puzzle.row, puzzle.col)))
         self.add_program_line(area_adjacent())
-        self.add_program_line(distance_in_area(grid_size=(puzzle.row, puzzle.col)))
         self.add_program_line(mannequin_constraint(color="gray"))
 
         areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
+        self.add_program_line(distance_in_area(max_size=max(map(len, areas))))
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
             self.add_program_line(count(target=2, color="gray", _type="area", _id=i))
-- 
2.43.0


From 17a9dda102b688cea6a09ffab93c19a2a0d25816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 06/18] fix: nagare winds blowing straight off the board

---
 solver/nagare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solver/nagare.py b/solver/nagare.py
index 4acdd0d..c12c681 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -16,6 +16,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
     """Generate a constraint for the wind direction."""
     if d in ("l", "r"):
         cols = range(0, c) if d == "l" else range(puzzle.col - 1, c, -1)
+        if not cols:  # the wind blows straight off the board
+            return ""
 
         c1, c2 = cols[0], cols[-1]
         for c_ in cols:
@@ -29,6 +31,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
 
     if d in ("u", "d"):
         rows = range(0, r) if d == "u" else range(puzzle.row - 1, r, -1)
+        if not rows:  # the wind blows straight off the board
+            return ""
 
         r1, r2 = rows[0], rows[-1]
         for r_ in rows:
-- 
2.43.0


From 4d23e4c284ce60c8e1c2f4bc1181c1b3a5e970a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 07/18] fix: a region size of 0 is invalid

---
 solver/ncells.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/ncells.py b/solver/ncells.py
index 6a2b231..3e21037 100644
--- a/solver/ncells.py
+++ b/solver/ncells.py
@@ -35,6 +35,7 @@ class NCellsSolver(Solver):
         self.reset()
         fail_false(puzzle.param["region_size"].isdigit(), "Invalid region size.")
         size = int(puzzle.param["region_size"])
+        fail_false(size > 0, "Invalid region size.")
         fail_false(puzzle.row * puzzle.col % size == 0, "It's impossible to divide grid into regions of this size!")
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(edge(puzzle.row, puzzle.col))
-- 
2.43.0


From c3a8413db75d607d1481303f9b26c045ea1a62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:11 +0000
Subject: [PATCH 08/18] fix: gray clue cells of light and shadow are shaded

---
 solver/lightshadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/lightshadow.py b/solver/lightshadow.py
index 3617d3c..b93f7c9 100644
--- a/solver/lightshadow.py
+++ b/solver/lightshadow.py
@@ -38,7 +38,7 @@ class LightShadowSolver(Solver):
 
         for (r, c, _, _), num in puzzle.text.items():
             current_excluded = [src for src in all_src if src != (r, c)]
-            color = "black" if puzzle.surface.get(Point(r, c)) == Color.BLACK else "not black"
+            color = "black" if puzzle.surface.get(Point(r, c), Color.GREEN) in Color.DARK else "not black"
             self.add_program_line(f"{color}({r}, {c}).")
             self.add_program_line(grid_src_color_connected((r, c), exclude_cells=current_excluded, color=color))
 
-- 
2.43.0


From b432dc268f130c843632efcde2952657262387ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 09/18] fix: numlin loops that belong to no clue

The bits of a loop without clues could be chosen freely, so that every path
cell passed the check for an unknown source.
---
 solver/numlin.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solver/numlin.py b/solver/numlin.py
index 69f0178..0d5a3d5 100644
--- a/solver/numlin.py
+++ b/solver/numlin.py
@@ -96,6 +96,11 @@ class NumlinSolver(Solver):
         self.add_program_line(grid_bit_color_connected(adj_type="loop", color="numlin"))
         self.add_program_line(avoid_unknown_src_bit(adj_type="loop", color="numlin"))
 
+        # bits of a loop without clues can be chosen freely, hence every path cell should be derived from some clue
+        self.add_program_line("clue_path(R, C) :- clue(R, C).")
+        self.add_program_line("clue_path(R, C) :- clue_path(R1, C1), numlin(R, C), adj_loop(R, C, R1, C1).")
+        self.add_program_line(":- numlin(R, C), not clue_path(R, C).")
+
         for (r, c, _, d), draw in puzzle.line.items():
             self.add_program_line(f':-{" not" * draw} grid_direction({r}, {c}, "{d}").')
 
-- 
2.43.0


From 4d8d9377368deaabedefdb09cab455b39177b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 10/18] fix: binairo on boards that are not square

A row has as many cells as there are columns, so that the number of white
circles of each row is half the number of columns.
---
 solver/binairo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/binairo.py b/solver/binairo.py
index f5cac57..b46d594 100644
--- a/solver/binairo.py
+++ b/solver/binairo.py
@@ -48,8 +48,8 @@ class BinairoSolver(Solver):
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c(color="circle_M__1"))
         self.add_program_line(invert_c(color="circle_M__1", invert="circle_M__2"))
-        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="row"))
-        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="col"))
+        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="row"))
+        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="col"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="row"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="col"))
         self.add_program_line(avoid_rect(1, 3, color="circle_M__1"))
-- 
2.43.0


From fd8df278ce0a13311978c689847d981e88ed8478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 11/18] fix: the second diagonal of sudoku boards that are not
 9x9

---
 solver/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index a21eaf7..c569e9a 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -60,7 +60,7 @@ class SudokuSolver(Solver):
         if puzzle.param["diagonal"]:  # diagonal rule
             for i in range(n):
                 self.add_program_line(f"area({n + 1}, {i}, {i}).")
-                self.add_program_line(f"area({n + 2}, {i}, {8 - i}).")
+                self.add_program_line(f"area({n + 2}, {i}, {n - 1 - i}).")
 
         if puzzle.param["untouch"]:  # untouch rule
             self.add_program_line(avoid_num_adjacent(adj_type="x"))
-- 
2.43.0


From 29a7317e6d247c1df4de8249f756b6246626475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 12/18] fix: sudoku boards of other sizes are rejected with a
 message

---
 solver/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index c569e9a..e080d2f 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -36,6 +36,7 @@ class SudokuSolver(Solver):
         fail_false(puzzle.row == puzzle.col, "This puzzle must be square.")
         n = puzzle.row
         sep = {9: (3, 3), 8: (2, 4), 6: (2, 3), 4: (2, 2)}
+        fail_false(n in sep, f"Sudoku boards of size {n} are not supported.")
 
         self.add_program_line(grid(n, n))
         self.add_program_line(adjacent(_type="x"))
-- 
2.43.0


From 2b44612c23a1db5ad2278ddc704592df8d429b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 13/18] fix: pattern tables of tapa and tapaloop grow with
 every solve

---
 solver/tapa.py     | 2 ++
 solver/tapaloop.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/solver/tapa.py b/solver/tapa.py
index 08c8742..084c4f4 100644
--- a/solver/tapa.py
+++ b/solver/tapa.py
@@ -41,6 +41,8 @@ def parse_pattern(pattern: str) -> Tuple[int, ...]:
 
 def tapa_pattern_rule() -> str:
     """Generate pattern reference dictionary and tapa pattern map."""
+    pattern_ref.clear()
+    pattern_idx.clear()
     for i in range(256):
         pat = bin(i)[2:].zfill(8)
         parsed = parse_pattern(pat)
diff --git a/solver/tapaloop.py b/solver/tapaloop.py
index 2d57557..29b48a9 100644
--- a/solver/tapaloop.py
+++ b/solver/tapaloop.py
@@ -75,6 +75,8 @@ def parse_shape_clue(inner: Tuple[int, ...], outer: Tuple[int, ...]) -> Optional
 
 def tapaloop_pattern_rule() -> str:
     """Generate pattern reference dictionary and tapaloop pattern map."""
+    pattern_ref.clear()
+    pattern_idx.clear()
     for i in range(4096):
         pat = bin(i)[2:].zfill(12)
         inner = tuple(map(int, pat[:8]))
-- 
2.43.0


From 7a8300a9807899dab5d3060f89a5f209db6170b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 14/18] fix: one answer is listed several times

---
 noqx/clingo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index 1ed75f5..e0d98da 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -44,6 +44,7 @@ class ClingoSolver:
         self.clingo_instance.configuration.sat_prepro = 2
         self.clingo_instance.configuration.asp.trans_ext = "dynamic"  # type: ignore
         self.clingo_instance.configuration.asp.eq = 1  # type: ignore
+        self.clingo_instance.configuration.solve.project = "show"  # type: ignore
         self.clingo_instance.configuration.solve.parallel_mode = Config.parallel_threads  # type: ignore
         self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore
         self.clingo_instance.add(program=program)
-- 
2.43.0


From 54e3ac088045a456486b3c20c574c9a32abf22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 15/18] fix: triplace clues of one-cell runs

---
 solver/triplace.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/solver/triplace.py b/solver/triplace.py
index 9d37267..94799b5 100644
--- a/solver/triplace.py
+++ b/solver/triplace.py
@@ -24,7 +24,7 @@ class TriplaceSolver(Solver):
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
         fail_false((puzzle.row * puzzle.col - len(puzzle.symbol)) % 3 == 0, "The grid cannot be divided into 3-ominoes!")
-        sums: List[Tuple[int, List[Tuple[int, int]]]] = []
+        sums: List[Tuple[int, List[Tuple[int, int]], str]] = []
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
             if pos == "sudoku_1" and isinstance(num, int):
@@ -35,7 +35,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_left(R, C + 1)"))
 
             if pos == "sudoku_2" and isinstance(num, int):
                 area_points: List[Tuple[int, int]] = []
@@ -45,7 +45,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_top(R + 1, C)"))
 
         self.add_program_line(defined(item="hole"))
         self.add_program_line(grid(puzzle.row, puzzle.col, with_holes=True))
@@ -68,13 +68,8 @@ class TriplaceSolver(Solver):
 
         t_be = tag_encode("belong_to_shape", "omino", 3, "grid")
         area_id = 0
-        for num, coord_list in sums:
+        for num, coord_list, edge_tag in sums:
             self.add_program_line(area(_id=area_id, src_cells=coord_list))
-
-            edge_tag = "edge_top(R + 1, C)"
-            if len(coord_list) > 1 and coord_list[0][0] == coord_list[1][0]:  # the rule is in order
-                edge_tag = "edge_left(R, C + 1)"
-
             self.add_program_line(f":- #count {{ R, C: area({area_id}, R, C), {t_be}(R, C, 0, _), {edge_tag} }} != {num}.")
             area_id += 1
 
-- 
2.43.0


From f8a66de75365a0371268aa5fed1018354d36f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 16/18] fix: battleship fleets of another style are refused

---
 solver/battleship.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 220d55e..069c535 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -23,7 +23,7 @@ class BattleshipSolver(Solver):
         self.reset()
         self.add_program_line(grid(puzzle.row, puzzle.col))
 
-        fleet_name = "battleship_B"  # set a default battleship fleet name
+        fleet_name = ""
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             shape, style = symbol_name.split("__")
             validate_direction(r, c, d)
@@ -66,6 +66,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r + 1}, {c}), {fleet_name}({r + 1}, {c}).")
                 self.add_program_line(f":- grid({r - 1}, {c}), not {fleet_name}({r - 1}, {c}).")
 
+        fleet_name = fleet_name or "battleship_B"  # set a default battleship fleet name
         self.add_program_line(shade_c(color=fleet_name))
         self.add_program_line(adjacent(_type=4))
         self.add_program_line(adjacent(_type="x"))
-- 
2.43.0


From 81535e745f5c82367a70fb00664c584f3101de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 17/18] fix: battleship middle parts at the border are refused

---
 solver/battleship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 069c535..4abd7ca 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -43,7 +43,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r}, {c - 1}), {fleet_name}({r}, {c - 1}).")
 
             if style == "2":
-                fail_false(0 < c < puzzle.col - 1 and 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
+                fail_false(0 < c < puzzle.col - 1 or 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
                 self.add_program_line(f":- #count {{ R, C: {fleet_name}(R, C), adj_4({r}, {c}, R, C) }} != 2.")
 
             if style == "3":
-- 
2.43.0


From 3b47d9862da8133ee839943a096d80d73b37d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 18/18] fix: country frame edges force the road through the
 cells at the frame

---
 solver/country.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/country.py b/solver/country.py
index ff4e64a..0db3f96 100644
--- a/solver/country.py
+++ b/solver/country.py
@@ -48,10 +48,10 @@ class CountrySolver(Solver):
                     self.add_program_line(count(num, color="country_road", _type="area", _id=i))
 
         for (r, c, d, _), draw in puzzle.edge.items():
-            if d == Direction.TOP and r > 0 and draw:
+            if d == Direction.TOP and 0 < r < puzzle.row and draw:
                 self.add_program_line(f":- not country_road({r}, {c}), not country_road({r - 1}, {c}).")
 
-            if d == Direction.LEFT and c > 0 and draw:
+            if d == Direction.LEFT and 0 < c < puzzle.col and draw:
                 self.add_program_line(f":- not country_road({r}, {c}), not country_road({r}, {c - 1}).")
 
         for (r, c, _, d), draw in puzzle.line.items():
-- 
2.43.0

