"""R03: the rooms of a board.  The real full_bfs on boards with a symbolic wall at every place, from every start cell."""

import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import z3

import puz
import sym
from core import penpa as pp


class Walls:
    """The edge map of a board: each inner wall is absent (0), drawn (1) or crossed out (2)."""

    def __init__(self, ctx, rows, cols, crosses, outer):
        from noqx.puzzle import Direction, Point

        self.ctx, self.v = ctx, {}
        for r in range(rows + 1):
            for c in range(cols + 1):
                if c < cols and (0 < r < rows or outer):
                    self.v[Point(r, c, Direction.TOP)] = ctx.int(f"h{r}_{c}", 0, 1 + crosses) if 0 < r < rows else 1
                if r < rows and (0 < c < cols or outer):
                    self.v[Point(r, c, Direction.LEFT)] = ctx.int(f"v{r}_{c}", 0, 1 + crosses) if 0 < c < cols else 1

    def state(self, k):
        v = self.v.get(k, 0)
        return v if isinstance(v, int) else self.ctx.concretize(v)

    def get(self, k, default=None):
        return {0: default, 1: True, 2: False}[self.state(k)]

    def __getitem__(self, k):
        s = self.state(k)
        if s == 0:
            raise KeyError(k)
        return s == 1

    def __contains__(self, k):
        return self.state(k) != 0

    def keys(self):
        return [k for k in self.v if self.state(k)]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def __bool__(self):
        return bool(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def values(self):
        return [self[k] for k in self.keys()]


def between(rows, cols):
    """(cell, neighbour, name of the wall between them)."""
    for r in range(rows):
        for c in range(cols):
            if r:
                yield (r, c), (r - 1, c), f"h{r}_{c}"
            if c:
                yield (r, c), (r, c - 1), f"v{r}_{c}"


def check(rows, cols, res, open_, clues):
    """Conditions on the result: open_(wall name) is the formula that the wall is not drawn."""
    cells = {(r, c) for r in range(rows) for c in range(cols)}
    rooms = [[tuple(x) for x in room] for room in res]
    flat = [x for room in rooms for x in room]
    if sorted(flat) != sorted(cells):
        return z3.BoolVal(False)
    of = {x: i for i, room in enumerate(rooms) for x in room}
    cs = [z3.Not(open_(w)) for a, b, w in between(rows, cols) if of[a] != of[b]]
    link = {}
    for a, b, w in between(rows, cols):
        if of[a] == of[b]:
            link.setdefault(a, []).append((b, w))
            link.setdefault(b, []).append((a, w))
    for room in rooms:  # every cell is reached from the first one
        reach = {x: z3.BoolVal(x == room[0]) for x in room}
        for _ in room:
            reach = {x: z3.Or(reach[x], *[z3.And(reach[y], open_(w)) for y, w in link.get(x, [])]) for x in room}
        cs += reach.values()
    for room, clue in zip(rooms, res.values()):
        have = [x for x in room if x in clues]
        cs.append(z3.BoolVal((clue is None) if not have else clue is not None and tuple(clue) in have))
    return z3.And(cs)


def partition(rows, cols, crosses, outer, clues, nstarts=99, tier="quick"):
    """The rooms are exactly the sets of cells connected without crossing a drawn wall, each with its clue cell."""
    puz.load_repo()
    from noqx.puzzle import Point
    from noqx.rule import helper

    pr = pp.Prover()
    text = {Point(r, c): 1 for r, c in clues}

    def fn(ctx):
        fn.starts = starts = []

        def choice(seq):
            seq = sorted(seq)
            # the first start is any cell; the later ones run through the remaining cells in either direction
            i = ctx.choose(range(len(seq)) if nstarts > len(seq) else [0, len(seq) - 1]) if not starts else (0 if ctx.first else len(seq) - 1)
            if not starts:
                ctx.first = i % 2 == 0
            starts.append(list(seq[i]))
            return seq[i]

        old = random.choice
        random.choice = choice
        try:
            res = helper.full_bfs(rows, cols, Walls(ctx, rows, cols, crosses, outer), *([text] if clues else []))
        finally:
            random.choice = old
        return check(rows, cols, res, lambda w: z3.Int(w) != 1, set(clues))

    for path in sym.explore(fn, asp_mode=False, max_paths=200000):
        pr.stats["paths"] += 1
        m = pr.refute(path.conds, z3.BoolVal(False) if path.exc is not None else path.result)
        if m is not None:
            env = pp.model_env(path, m)
            raise puz.Violation("rooms", {"rows": rows, "cols": cols, "walls": env, "outer": outer, "clues": [list(x) for x in clues], "starts": fn.starts}, "the rooms of a board are not what its walls make them")
    return pr.out(functions=["noqx.rule.helper.full_bfs"])


def replay(case):
    """The real full_bfs on the concrete board, with the recorded start cells and then with random ones."""
    from noqx.puzzle import Direction, Point
    from noqx.rule import helper

    rows, cols = case["rows"], case["cols"]
    edges = {}
    for r in range(rows + 1):
        for c in range(cols + 1):
            for d, D, ok, inner in (("h", Direction.TOP, c < cols, 0 < r < rows), ("v", Direction.LEFT, r < rows, 0 < c < cols)):
                v = case["walls"].get(f"{d}{r}_{c}", 0) if inner else int(case["outer"])
                if ok and v:
                    edges[Point(r, c, D)] = v == 1
    clues = {tuple(x) for x in case["clues"]}
    text = {Point(*x): 1 for x in clues}
    print("board", rows, cols, "walls", {(k.r, k.c, k.d.value): v for k, v in edges.items()}, "clues", sorted(clues))
    real = random.choice
    for n in range(50):
        starts = [tuple(x) for x in case["starts"]] if n == 0 else []
        random.choice = lambda seq: starts.pop(0) if starts and starts[0] in seq else real(seq)
        try:
            res = helper.full_bfs(rows, cols, edges, *([text] if clues else []))
            ok = z3.is_true(z3.simplify(check(rows, cols, res, lambda w: z3.BoolVal(case["walls"].get(w, 0) != 1), clues)))
        except Exception as e:
            print("raised", repr(e))
            return 10
        finally:
            random.choice = real
        if not ok:
            print("rooms:", res)
            return 10
    return 0


def JOBS(tier):
    out = []
    add = lambda *a: out.append(("R03", "partition", 3 ** (a[0] * a[1]), a))
    for rows, cols, crosses in ((1, 1, 1), (1, 4, 1), (4, 1, 1), (2, 2, 1), (2, 3, 0), (3, 2, 0)):
        for outer in (False, True):
            add(rows, cols, crosses, outer, [])
        add(rows, cols, crosses, False, [(0, 0)] + ([(rows - 1, cols - 1)] if rows * cols > 1 else []))
    add(2, 4, 0, False, [(0, 3), (1, 1)], 2)
    add(4, 2, 0, True, [(3, 0), (1, 1)], 2)
    if tier != "quick":
        for rows, cols, crosses in ((2, 3, 1), (3, 2, 1), (2, 4, 0), (4, 2, 0), (3, 3, 0)):
            for outer in (False, True):
                add(rows, cols, crosses, outer, [], 99 if rows * cols < 9 else 2)
        add(2, 5, 0, True, [], 2)
        add(5, 2, 0, True, [(4, 0)], 2)
    return out
