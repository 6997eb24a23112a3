"""Rule specifications: starbattle .. tents."""

import itertools

from puz import Spec

from specs.a3 import TETRO
from specs.a6 import rect_division
from specs.lib import (
    gline,
    no_crossing,
    only_rects,
    room_cfgs,
    std,
)


class StarBattle(Spec):
    name = "starbattle"
    boards = [(4, 4), (5, 5), (3, 4), (2, 2)]
    thorough_boards = [(8, 8)]
    cfgs = [
        {"board": (4, 4), "layout": ["AAAB", "CAAB", "CCDB", "CDDD"], "k": "1"},
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"], "k": "1", "x": True},
        {"board": (5, 5), "layout": ["AABBB", "AACBB", "DCCCE", "DDCEE", "DDDEE"], "k": "1"},
        {"board": (4, 4), "layout": ["AAAA", "BAAA", "BBAC", "DDDC"], "k": "1"},
        {"board": (4, 4), "layout": ["ABBC", "ABBC", "ABCC", "DDDC"], "k": "1"},
        {"board": (2, 2), "layout": ["AA", "AA"], "k": "0"},
        {"board": (2, 2), "layout": ["AA", "AA"], "k": "x"},
        {"board": (8, 8), "layout": ["AAAABBBB", "ACCABBDD", "ACCBBBDD", "ECCCFFDD", "EEEFFFGD", "EEHHFGGG", "EHHHGGGG", "HHHHGGGG"], "k": "2"},
    ]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        b.param["stars"] = b.cfg["k"]
        k = b.choose(["", "s", "d", "ss", "sd", "m", "ms"])
        cs = []
        for ch in k:
            if ch == "m":
                b.put("symbol", -1, b.cols - 1, "star__2", tag="m")
            else:
                cs.append(b.cell())
                b.put("symbol", *cs[-1], "star__2" if ch == "s" else "star__0")
        b.distinct(*cs)

    def spec(self, s):
        k = s.cfg["k"]
        if not k.isdigit():
            s.bad(1)
            return
        x = s.xmap("star__2")
        for q in s.cells:
            for n in s.adj8(*q):
                s.req(s.And(x[q], x[n]) ^ 1)
        for r in range(s.rows):
            s.req(s.Exactly([x[r, c] for c in range(s.cols)], int(k)))
        for c in range(s.cols):
            s.req(s.Exactly([x[r, c] for r in range(s.rows)], int(k)))
        for cs in s.room_list().values():
            s.req(s.Exactly([x[q] for q in cs], int(k)))
        for t in s.sel("symbol"):
            if t.tag != "m":
                s.on(t, lambda r, c: x[r, c] ^ (t.val == "star__0"))


def fixed_forms(cells):
    """All rotations and reflections."""
    out = set()
    cs = list(cells)
    for _ in range(2):
        cs = [(r, -c) for r, c in cs]
        for _ in range(4):
            cs = [(c, -r) for r, c in cs]
            mr, mc = min(r for r, _ in cs), min(c for _, c in cs)
            out.add(tuple(sorted((r - mr, c - mc) for r, c in cs)))
    return sorted(out)


class StatuePark(Spec):
    name = "statuepark"
    boards = [(6, 7), (3, 3), (4, 3)]
    thorough_boards = [(6, 6), (7, 7)]
    cfgs = [
        {"board": (6, 6), "set": "tetro"},
        {"board": (6, 7), "set": "tetro"},
        {"board": (7, 7), "set": "tetro"},
        {"board": (3, 3), "set": "tetro"},
        {"board": (4, 3), "set": "double_tetro"},
        {"board": (3, 3), "set": "pento"},
        {"board": (3, 3), "set": "hexo"},
    ]
    may_be_empty = True

    def build(self, b):
        b.param["shapeset"] = b.cfg["set"]
        k = b.choose(["", "b", "w", "B", "W"] + (["bw", "bb"] if b.rows < 6 else []))
        cs = []
        for ch in k:
            cs.append(b.cell())
            if ch in "bw":
                b.put("symbol", *cs[-1], "circle_M__2" if ch == "b" else "circle_M__1")
            else:
                b.put("surface", *cs[-1], b.Color["GRAY" if ch == "B" else "GREEN"])
        b.distinct(*cs)

    def spec(self, s):
        if s.cfg["set"] == "hexo":
            s.bad(1)
            return
        x = s.xmap("gray")
        if s.cfg["set"] == "pento":
            s.req(0)  # twelve pieces of five cells
            return
        n = 2 if s.cfg["set"] == "double_tetro" else 1
        w = {q: v ^ 1 for q, v in x.items()}
        s.req(s.connected(w))
        by = {q: [] for q in s.cells}
        for name, cells in TETRO.items():
            ls = []
            for f in fixed_forms(cells):
                for r0, c0 in s.cells:
                    cs = [(r0 + r, c0 + c) for r, c in f]
                    if not all(q in x for q in cs):
                        continue
                    rim = {a for q in cs for a in s.adj(*q)} - set(cs)
                    l = s.And(*[x[q] for q in cs], *[x[q] ^ 1 for q in rim])
                    ls.append(l)
                    for q in cs:
                        by[q].append(l)
            s.req(s.Exactly(ls, n))
        for q in s.cells:
            s.req(s.Implies(x[q], s.Or(by[q])))
        for t in s.sel("symbol"):
            s.on(t, lambda r, c: x[r, c] ^ (t.val == "circle_M__1"))
        s.shade_givens(x)


class Stostone(Spec):
    name = "stostone"
    boards = [(2, 3), (2, 4), (4, 3), (4, 4), (3, 3)]
    thorough_boards = [(6, 5)]
    cfgs = [
        {"board": (2, 3), "layout": ["AAB", "ABB"]},
        {"board": (2, 4), "layout": ["AABB", "AAAB"], "x": True},
        {"board": (2, 4), "layout": ["AAAA", "BBBB"]},
        {"board": (4, 3), "layout": ["AAB", "ACB", "CCB", "CDD"]},
        {"board": (4, 3), "layout": ["AAA", "ABB", "ABB", "AAB"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
        {"board": (4, 4), "layout": ["AAAB", "CAAB", "CCDB", "CDDD"]},
        {"board": (3, 3), "layout": ["AAB", "CAB", "CCC"]},
        {"board": (6, 5), "layout": ["AABBB", "AACBB", "DCCCE", "DDCEE", "DDDEE", "FFFEE"]},
    ]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2, range(1, 5))

    def spec(self, s):
        if s.rows % 2:
            s.bad(1)
            return
        x = s.xmap("gray")
        same = s.comp(x)
        rooms, ro = s.room_list(), s.room_of()
        s.one_per_room(s.sel("text"))
        for cs in rooms.values():
            s.req(s.Or([x[q] for q in cs]))
        for a in s.cells:
            for q in s.cells:
                if a < q:
                    if ro[a] == ro[q]:
                        s.req(s.Implies(s.And(x[a], x[q]), same(a, q)))
                    elif q in s.adj(*a):
                        s.req(s.And(x[a], x[q]) ^ 1)
        # after falling each column is filled up to the middle; a stone falls as a whole
        h = s.rows // 2
        for c in range(s.cols):
            s.req(s.Exactly([x[r, c] for r in range(s.rows)], h))
        for a in s.cells:
            for q in s.cells:
                if a < q:
                    for i in range(h):
                        j = i + q[0] - a[0]  # same fall: this many more above
                        bi = s.Exactly([x[r, a[1]] for r in range(a[0])], i)
                        bj = s.Exactly([x[r, q[1]] for r in range(q[0])], j) if j >= 0 else 0
                        s.req(s.Implies(s.And(same(a, q), bi), bj))
        for it in s.sel("text"):
            if s.isint(it):
                s.on_room(it, lambda cs: s.num_is([x[c] for c in cs], it.val))
        s.shade_givens(x)


class Sudoku(Spec):
    name = "sudoku"
    boards = [(4, 4), (6, 6), (3, 3), (4, 6)]
    thorough_boards = [(8, 8), (9, 9)]
    cfgs = [
        *[{"board": (4, 4), "v": v} for v in ("", "d", "u", "a")],
        *[{"board": (6, 6), "v": v} for v in ("", "d", "u", "a")],
        {"board": (3, 3), "v": ""},
        {"board": (4, 6), "v": ""},
        *[{"board": (8, 8), "v": v} for v in ("", "d", "u", "a")],
        *[{"board": (9, 9), "v": v} for v in ("", "d", "u", "a")],
    ]
    may_be_empty = True
    SEP = {4: (2, 2), 6: (2, 3), 8: (2, 4), 9: (3, 3)}

    def build(self, b):
        v = b.cfg["v"]
        b.param.update(diagonal="d" in v, untouch="u" in v, antiknight="a" in v)
        k = b.choose(["", "n", "nn", "?"])
        ts = []
        for ch in k:
            ts.append(b.cell())
            b.put("text", *ts[-1], "?" if ch == "?" else b.int(1, b.rows))
        b.distinct(*ts)

    def spec(self, s):
        n, v = s.rows, s.cfg["v"]
        if n != s.cols or n not in self.SEP or any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N = s.numbers(range(1, n + 1))
        h, w = self.SEP[n]
        groups = [[(i, j) for j in range(n)] for i in range(n)] + [[(j, i) for j in range(n)] for i in range(n)]
        groups += [[(r + i, c + j) for i in range(h) for j in range(w)] for r in range(0, n, h) for c in range(0, n, w)]
        if "d" in v:
            groups += [[(i, i) for i in range(n)], [(i, n - 1 - i) for i in range(n)]]
        for g in groups:
            assert len(g) == n
            for k in range(1, n + 1):
                s.req(s.Exactly([N[q][k] for q in g], 1))
        moves = [(1, 1), (1, -1)] if "u" in v else []
        moves += [(1, 2), (1, -2), (2, 1), (2, -1)] if "a" in v else []
        for r, c in s.cells:
            for dr, dc in moves:
                if s.inb(r + dr, c + dc):
                    for k in range(1, n + 1):
                        s.req(s.And(N[r, c][k], N[r + dr, c + dc][k]) ^ 1)
        s.num_givens(N)


def some_numbers(s, values):
    """A number or nothing in each cell; N, cell -> literal: has a number."""
    N = {q: {v: s.x("number", *q, v) for v in values} for q in s.cells}
    has = {}
    for q in s.cells:
        s.req(s.AtMost(list(N[q].values()), 1))
        has[q] = s.Or(list(N[q].values()))
    s.witness("white", lambda r, c: has[r, c] ^ 1)
    s.witness("black", lambda r, c: has[r, c])
    for t in s.sel("symbol"):
        if t.val == "ox_E__1":
            s.on(t, lambda r, c: has[r, c])
        elif t.val in ("ox_E__4", "ox_E__7"):
            s.on(t, lambda r, c: has[r, c] ^ 1)
    for t in s.sel("text"):
        s.in_range(t, N)
        s.on(t, lambda r, c: s.by_val(t.val, lambda v: N[r, c].get(v, 0)))
    return N, has


class Sukoro(Spec):
    name = "sukoro"
    boards = [(2, 2), (3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]
    layouts = False

    def build(self, b):
        if self.layouts:
            b.rooms(b.cfg["layout"])
        k = b.choose(["", "n", "nn", "o", "x", "n7", "o*", "?"])
        cs = []
        for ch in k:
            cs.append(b.cell())
            if ch in "n?":
                b.put("text", *cs[-1], "?" if ch == "?" else b.int(0, self.top(b)))
            else:
                b.put("symbol", *cs[-1], {"o": "ox_E__1", "x": "ox_E__4", "7": "ox_E__7", "*": "star__1"}[ch])
        b.distinct(*cs)

    def top(self, b):
        return 4

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N, has = some_numbers(s, range(5))
        s.req(s.connected(has))
        for q in s.cells:
            for v, l in N[q].items():
                s.req(s.Implies(l, s.Exactly([has[n] for n in s.adj(*q)], v)))
                for n in s.adj(*q):
                    s.req(s.And(l, N[n][v]) ^ 1)


class SukoroRoom(Sukoro):
    name = "sukororoom"
    boards = [(3, 3), (2, 4), (3, 4)]
    thorough_boards = [(4, 4)]
    cfgs = room_cfgs([(3, 3), (2, 4), (3, 4), (4, 4)])
    layouts = True
    may_be_empty = True

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N, has = some_numbers(s, range(5))
        s.req(s.connected(has))
        for q in s.cells:
            for v, l in N[q].items():
                s.req(s.Implies(l, s.Exactly([has[n] for n in s.adj(*q)], v)))
        for cs in s.room_list().values():
            s.req(s.Or(s.And([has[q] for q in cs]), s.Or([has[q] for q in cs]) ^ 1))
            for v in range(5):
                s.req(s.AtMost([N[q][v] for q in cs], 1))


class View(Sukoro):
    name = "view"
    boards = [(2, 2), (3, 3), (2, 4), (4, 2)]
    thorough_boards = [(4, 3)]

    def top(self, b):
        return b.rows + b.cols - 2

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N, has = some_numbers(s, range(s.rows + s.cols - 1))
        s.req(s.connected(has))
        free = {q: l ^ 1 for q, l in has.items()}
        for q in s.cells:
            for v, l in N[q].items():
                s.req(s.Implies(l, s.Exactly(s.visible(*q, free), v)))
                for n in s.adj(*q):
                    s.req(s.And(l, N[n][v]) ^ 1)
        for v in range(s.rows + s.cols - 1, s.rows + s.cols + 1):
            for q in s.cells:
                s.req(s.x("number", *q, v) ^ 1)


class Symmarea(Spec):
    name = "symmarea"
    boards = [(2, 2), (2, 3), (3, 2), (1, 5)]
    thorough_boards = [(3, 3)]
    cfgs = [{"fast": True}, {"fast": False}]

    def build(self, b):
        b.param = {"fast_mode": b.cfg["fast"]}
        n = b.choose([0, 1, 2])
        b.texts(n, range(1, 5), ["?"] if n == 1 else [])
        if n == 1:
            b.edges([0, 1], dirs=("left",))

    def spec(self, s):
        ts = list(s.sel("text"))
        if any(not s.isint(t) for t in ts):
            s.bad(1)
            return
        if s.cfg["fast"]:
            s.incomplete = True
        same = s.regions()
        size = {a: s.g.unary([same(a, q) for q in s.cells]) for a in s.cells}
        n = len(s.cells)

        def ex(a, k):
            ge = size[a]
            return s.And(ge[k] if k < len(ge) else 0, (ge[k + 1] if k + 1 < len(ge) else 0) ^ 1)

        clue = s.has(ts)
        for a in s.cells:
            has = s.Or([s.And(clue[q], same(a, q)) for q in s.cells])
            for k in range(1, n + 1):
                e = ex(a, k)
                s.req(s.Iff(s.x("number", *a, k), s.And(e, s.Or(has, 1 if k == 1 else 0))))
                s.req(s.Iff(s.x("numberx", *a, k), s.And(e, has ^ 1)))
                for q in s.adj(*a):
                    if q > a:
                        s.req(s.And(s.open(a, q) ^ 1, e, ex(q, k)) ^ 1)
            # half-turn symmetry about some centre
            sums = []
            for sr in range(2 * s.rows - 1):
                for sc in range(2 * s.cols - 1):
                    sums.append(
                        s.And(
                            [
                                s.Implies(same(a, q), same(a, (sr - q[0], sc - q[1])) if s.inb(sr - q[0], sc - q[1]) else 0)
                                for q in s.cells
                            ]
                        )
                    )
            if s.cfg["fast"]:
                s.req(s.Implies(has, s.Or(sums)))
            else:
                s.req(s.Or(sums))
        for it in ts:
            s.on(it, lambda r, c: s.by_val(it.val, lambda v: ex((r, c), v)))


def run_clue(s, at, vals, on, link):
    """The runs of a ring of eight places have the lengths of a clue; on: occupied, link[i]: i and i + 1 belong together."""
    size = {v: [] for v in range(9)}
    every = s.And(link)
    size[8].append(every)
    for v in range(1, 9):
        for i in range(8):
            ls = [on[i], link[i - 1] ^ 1]
            ls += [link[(i + j) % 8] for j in range(v - 1)]
            ls.append(link[(i + v - 1) % 8] ^ 1)
            size[v].append(s.And(ls))
    none = s.Or(on) ^ 1
    size[0].append(none)
    s.req(s.Implies(at, s.Exactly([l for v in size.values() for l in v], len(vals))))
    ints = [v for v in vals if v != "?"]
    if "?" in vals:
        s.unsure(s.And(at, none))
    for v in range(9):
        ent = [s.eq(e, v) for e in ints]
        for j in range(1, len(ent) + 1):
            s.req(s.Implies(s.And(at, s.AtLeast(ent, j)), s.AtLeast(size[v], j)))


RING = [(-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1)]


class Tapa(Spec):
    name = "tapa"
    boards = [(2, 3), (3, 3), (4, 3), (3, 4)]
    thorough_boards = [(4, 4), (5, 4)]

    LISTS = "11 12 22 13 31 23 33 15 01 111 112 122 1111 1? ?3 ?? 1?1 2?1 ???".split()

    def build(self, b):
        n = b.rows * b.cols
        k = b.choose(["", "n", "?", "L", "LB", "nn", "z"] if n <= 9 else ["", "n", "L", "nL"])
        spots = [(0, 0), (0, 1), (1, 1), (b.rows - 1, 1), (1, b.cols - 1)]

        def clue(r, c, vals):
            for i, v in enumerate(vals):
                b.put("text", r, c, "?" if v == "?" else int(v) if isinstance(v, str) else v, pos=f"tapa_{i}")

        if k == "n":
            clue(*(b.cell() if n <= 9 else b.choose(spots)), [b.int(0, 8)])
        elif k == "?":
            clue(*b.cell(), "?")
        elif k[:1] == "L":
            clue(*b.choose([(0, 1), (1, 1)] if n <= 9 else [(1, 1), (b.rows - 1, 1)]), b.choose(self.LISTS if k == "L" else ["11", "?1"]))
            self.more(b, k[1:])
        elif k == "nL":
            clue(*b.choose(spots[3:]), b.choose("1234"))
            clue(0, 0, b.choose(["1", "?", "11"]))
        elif k == "nn":
            clue(0, 1, [b.int(0, 5)])
            clue(1, 0, b.choose("125?"))
        elif k == "z":
            b.texts(1, range(1, 3))

    def more(self, b, k):
        if k:
            b.surfaces(1, ["GRAY", "GREEN"])

    def clues(self, s):
        """[(row, column, literal, values)]"""
        out, cur = [], []
        for t in s.sel("text"):
            if t.pos == "tapa_0":
                cur.append([t])
            elif t.pos.startswith("tapa"):
                cur[-1].append(t)
        for ts in cur:
            for r, c, l in s.where(ts[0]):
                out.append((r, c, l, [t.val for t in ts]))
        return out

    def spec(self, s):
        if any(t.pos == "normal" for t in s.sel("text")):
            s.bad(1)
            return
        x = s.xmap("black")
        s.req(s.connected(x))
        s.req(s.no2x2(x))
        for r, c, l, vals in self.clues(s):
            s.req(s.Implies(l, x[r, c] ^ 1))
            on = [x.get((r + dr, c + dc), 0) for dr, dc in RING]
            run_clue(s, l, vals, on, [s.And(on[i], on[(i + 1) % 8]) for i in range(8)])
        s.shade_givens(x)


class Tapaloop(Tapa):
    name = "tapaloop"
    boards = [(3, 3), (3, 4), (4, 4)]
    thorough_boards = [(5, 4), (5, 5)]
    cfgs = [{"all": False}, {"all": True}]
    may_be_empty = True

    def build(self, b):
        b.param["visit_all"] = b.cfg["all"]
        super().build(b)

    def more(self, b, k):
        if k:
            gline(b)

    def spec(self, s):
        if any(t.pos == "normal" for t in s.sel("text")):
            s.bad(1)
            return
        D = s.path()
        vis = s.single_loop(D)
        s.witness("tapaloop", lambda r, c: vis[r, c])
        clue = s.has([t for t in s.sel("text")])
        for q in s.cells:
            s.req(s.Implies(clue[q], vis[q] ^ 1))
            if s.cfg["all"]:
                s.req(s.Or(clue[q], vis[q]))
        for r, c, l, vals in self.clues(s):
            ring = [(r + dr, c + dc) for dr, dc in RING]
            on = [vis.get(q, 0) for q in ring]
            link = []
            for i in range(8):
                a, q = ring[i], ring[(i + 1) % 8]
                link.append(s.lnk(D, a, q) if a in vis and q in vis else 0)
            run_clue(s, l, vals, on, link)
        s.line_givens(D)


class Tasquare(Spec):
    name = "tasquare"
    boards = [(2, 3), (3, 3), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(0, 7), colors=("BLACK", "GREEN"))

    def spec(self, s):
        x = s.xmap("black")
        s.req(s.connected({q: v ^ 1 for q, v in x.items()}))
        only_rects(s, x, square=True)
        same = s.comp(x)
        for t in s.sel("text"):
            for r, c, l in s.where(t):
                s.req(s.Implies(l, x[r, c] ^ 1))
                if s.isint(t):
                    touch = [s.Or([same(n, q) for n in s.adj(r, c)]) for q in s.cells]
                    s.req(s.Implies(l, s.num_is(touch, t.val)))
                else:
                    s.req(s.Implies(l, s.Or([x[n] for n in s.adj(r, c)])))
        s.shade_givens(x)


class Tatamibari(Spec):
    name = "tatamibari"
    boards = [(2, 2), (3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        k = b.choose(["", "+", "-", "|", "?", "+-", "-|", "|e", "--?", "||", "+|-"])
        ts = []
        for ch in k:
            if ch == "e":
                b.edges(1)
            else:
                ts.append((ch, b.cell()))
                b.put("text", *ts[-1][1], ch)
                if len(ts) > 1 and ts[-2][0] == ch:
                    b.after(ts[-2][1], ts[-1][1])
        b.distinct(*[q for _, q in ts])

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        same, R = rect_division(s)
        no_crossing(s)
        clue = s.has(ts)
        for q in s.cells:
            s.req(s.Exactly([s.And(clue[a], same(a, q)) for a in s.cells], 1))
        for t in ts:
            for r, c, l in s.where(t):
                for (r1, c1, r2, c2), q in R.items():
                    if r1 <= r <= r2 and c1 <= c <= c2:
                        h, w = r2 - r1, c2 - c1
                        if not {"+": h == w, "-": h < w, "|": h > w, "?": True}[t.val]:
                            s.req(s.And(l, q) ^ 1)


class Tentaisho(Spec):
    name = "tentaisho"
    boards = [(2, 2), (2, 3), (3, 3), (3, 4)]
    thorough_boards = [(4, 4)]

    # dots as direction, row, column; holes as "h", row, column
    DOTS = {
        (2, 2): ["", "c00", "t10", "l01", "x11", "c00c11", "c00c01c10c11", "c00l11", "c10c11h00h01", "t11h00h10", "l01h11", "*00", "c00G11", "c00t10", "x11c01"],
        (2, 3): ["c01", "c01c12", "l01l02", "l02c00c10", "x11x12", "x11t12", "c00c12h02", "x11h02h12", "c00c02c10c12h01h11"],
        (3, 3): ["c11", "c00c22", "x11c22l22c12", "x22c00l01t20", "c11c00c02", "t12c01c21", "c10c11c12", "l01t12l22t20c11", "c22h00h11", "x22h00h01h02h10h20", "t10t12h11h01h21"],
        (3, 4): ["l12", "c11c12", "x11x13x23l11", "t10t11t12t13c20c21c22c23", "c01c12c23", "x12c22", "c00c03l22c20h11h12"],
        (4, 4): ["x22", "c00c11c22c33", "x11x13x31x33x22", "t11l12c22t23", "c11c12h33h30"],
    }

    def build(self, b):
        at = {"t": "top", "l": "left", "x": "top_left", "c": "center", "*": "center"}
        k = b.choose(self.DOTS[b.rows, b.cols])
        for i in range(0, len(k), 3):
            ch, r, c = k[i], int(k[i + 1]), int(k[i + 2])
            if ch in at:
                b.put("symbol", r, c, "star__1" if ch == "*" else "circle_SS__" + ("1" if i % 2 else "2"), d=at[ch])
            else:
                b.put("surface", r, c, b.Color["GREEN" if ch == "G" else "BLACK"])
        if b.choose(["", "e"]):
            b.edges(1)

    def spec(self, s):
        sy = list(s.sel("symbol"))
        if not sy or any(not t.val.startswith("circle_SS") for t in sy) or any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        hole = s.has(list(s.sel("surface")))
        same = s.regions()
        cnt = {q: [] for q in s.cells}
        for t in sy:
            for r, c, l in s.where(t):
                on = {
                    "center": [(r, c)],
                    "top": [(r - 1, c), (r, c)],
                    "left": [(r, c - 1), (r, c)],
                    "top_left": [(r - 1, c - 1), (r - 1, c), (r, c - 1), (r, c)],
                }[t.d]
                sr, sc = on[0][0] + on[-1][0], on[0][1] + on[-1][1]
                for q in on:
                    s.unsure(s.And(l, hole[q]))
                    s.req(s.Implies(l, same(on[0], q)))
                for q in s.cells:
                    m = (sr - q[0], sc - q[1])
                    s.req(s.Implies(s.And(l, same(on[0], q)), same(on[0], m) if s.inb(*m) else 0))
                    cnt[q].append(s.And(l, same(on[0], q)))
        for q in s.cells:
            s.req(s.Implies(hole[q] ^ 1, s.Exactly(cnt[q], 1)))
            for n in s.adj(*q):
                s.req(s.Implies(s.Xor(hole[q], hole[n]), same(q, n) ^ 1))
                s.req(s.Implies(s.And(hole[q], hole[n]), s.open(q, n) if q < n else s.open(n, q)))


class Tents(Spec):
    name = "tents"
    boards = [(2, 2), (3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    TREES = {
        (2, 2): ["", "00", "0011", "0001"],
        (3, 3): ["", "11", "0102", "0112", "0022", "001122", "01101221"],
        (2, 4): ["00", "0103", "000102", "0013", "011102"],
        (4, 3): ["10", "0031", "011121", "002032", "00022022"],
        (4, 4): ["00032033", "0110133132", "1122"],
    }

    def build(self, b):
        tr = b.choose(self.TREES[b.rows, b.cols])
        for r, c in zip(tr[::2], tr[1::2]):
            b.put("symbol", int(r), int(c), "tents__1")
        k = b.choose(["", "t", "l", "tl", "A", "Al", "?", "tt"])
        cs = []
        for ch in k:
            r, c = b.cell()
            if ch == "A":
                b.put("symbol", r, c, "tents__2")
                b.distinct((r, c), *[(int(i), int(j)) for i, j in zip(tr[::2], tr[1::2])])
            else:
                at = (-1, c) if ch == "t" else (r, -1)
                if ch == "t" and cs:
                    b.distinct(at, cs[-1])
                if ch == "t":
                    cs.append(at)
                b.put("text", *at, "?" if ch == "?" else b.int(0, 2))

    def spec(self, s):
        x = s.xmap("tents__2")
        tr = s.has([t for t in s.sel("symbol") if t.val == "tents__1"])
        for q in s.cells:
            for n in s.adj8(*q):
                s.req(s.And(x[q], x[n]) ^ 1)
            s.req(s.And(x[q], tr[q]) ^ 1)
        trees = [t for t in s.sel("symbol") if t.val == "tents__1"]
        s.req(s.Exactly(list(x.values()), len(trees)))
        # Hall's condition: every set of trees has at least as many tents next to it
        nb = []
        for t in trees:
            near = {q: [] for q in s.cells}
            for r, c, l in s.where(t):
                for n in s.adj(r, c):
                    near[n].append(l)
            nb.append({q: s.Or(v) for q, v in near.items()})
        for k in range(1, len(trees) + 1):
            for sub in itertools.combinations(nb, k):
                s.req(s.AtLeast([s.And(x[q], s.Or([n[q] for n in sub])) for q in s.cells], k))
        for t in s.sel("symbol"):
            if t.val == "tents__2":
                s.on(t, lambda r, c: x[r, c])
        for t in s.sel("text"):
            if s.isint(t):
                for r, c, l in s.where(t):
                    line = [x[i, c] for i in range(s.rows)] if r == -1 else [x[r, i] for i in range(s.cols)]
                    s.req(s.Implies(l, s.num_is(line, t.val)))
