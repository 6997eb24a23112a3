"""Rule specifications: numlin .. ripple."""

from puz import Spec

from specs.a3 import TETRO  # noqa: F401
from specs.lib import (
    borders,
    edges_around,
    givens,
    gline,
    hole_edges,
    rect_is_comp,
    rects,
    room_cfgs,
    std,
)


class Numlin(Spec):
    name = "numlin"
    boards = [(3, 3), (2, 4), (3, 4), (4, 4)]
    thorough_boards = [(4, 3), (4, 5)]
    cfgs = [{"all": a, "no2": n} for a in (True, False) for n in (True, False)]
    may_be_empty = True

    def scenarios(self, tier):
        for r, c, cfg in super().scenarios(tier):
            if tier == "thorough" or (r, c) != (4, 4) or cfg["all"]:
                yield r, c, cfg

    def build(self, b):
        b.param.update(visit_all=b.cfg["all"], no_2x2=b.cfg["no2"])
        small = b.rows * b.cols <= 9
        k = b.choose(["11", "1122", "1212", "AA33", "11l"] + (["", "1", "112", "111", "112233"] if small else []))
        cs = []
        for ch in k:
            if ch == "l":
                gline(b)
            else:
                cs.append(b.cell())
                b.put("text", *cs[-1], int(ch) if ch.isdigit() else ch)
        b.distinct(*cs)
        # equal clues are interchangeable
        first = {}
        for ch, rc in zip(k, cs):
            if ch in first:
                b.after(first[ch], rc)
            first[ch] = rc

    def spec(self, s):
        ts = list(s.sel("text"))
        by = {}
        for t in ts:
            by.setdefault(t.val, []).append(t)
        if not by or any(len(v) != 2 for v in by.values()):
            s.bad(1)
            return
        D = s.path()
        same = s.closure(s.cells, lambda a, q: s.lnk(D, a, q))
        clue = s.has(ts)
        vis = {q: s.Or(s.deg(D, q)) for q in s.cells}
        kind = {k: s.has(v) for k, v in by.items()}
        own = {q: {k: s.Or([s.And(same(q, a), kind[k][a]) for a in s.cells]) for k in by} for q in s.cells}
        for q in s.cells:
            dg = s.deg(D, q)
            s.req(s.Implies(clue[q], s.Exactly(dg, 1)))
            s.req(s.Implies(clue[q] ^ 1, s.Exactly(dg, 2) if s.cfg["all"] else s.Or(s.Exactly(dg, 2), s.Exactly(dg, 0))))
            s.req(s.Implies(vis[q], s.Exactly(list(own[q].values()), 1)))
            for k, v in by.items():
                s.req(s.Implies(s.And(vis[q], own[q][k]), s.Exactly([s.And(same(q, a), clue[a]) for a in s.cells], 2)))
        if s.cfg["no2"]:
            for r in range(s.rows - 1):
                for c in range(s.cols - 1):
                    a = (r, c)
                    s.req(
                        s.And(vis[a], *[same(a, q) for q in ((r, c + 1), (r + 1, c), (r + 1, c + 1))]) ^ 1
                    )
        s.line_givens(D)
        s.witness("numlin", lambda r, c: vis[r, c])
        ids = {k: i + 1 for i, k in enumerate(by)}
        s.witness(
            "reachable_grid_bit_adj_loop",
            lambda r, c, bit: s.And(vis[r, c], s.Or([own[r, c][k] for k, i in ids.items() if i >> bit & 1])),
        )


class NumRope(Spec):
    name = "numrope"
    boards = [(2, 2), (2, 3), (3, 2), (3, 3)]
    thorough_boards = [(3, 4)]

    # ropes: connected runs of cells
    ROPES = {
        (2, 2): [[], [[(0, 0), (0, 1), (1, 1)]], [[(0, 0), (1, 0)], [(0, 1), (1, 1)]]],
        (2, 3): [[], [[(0, 0), (0, 1), (0, 2), (1, 2)]], [[(1, 0), (0, 0)], [(0, 1), (1, 1), (1, 2)]]],
        (3, 2): [[[(0, 0), (1, 0), (2, 0)], [(0, 1), (1, 1)]], [[(2, 0), (2, 1), (1, 1), (0, 1)]]],
        (3, 3): [[[(0, 0), (1, 0), (1, 1), (1, 2)], [(2, 1), (2, 2)]]],
        (3, 4): [[[(0, 0), (1, 0), (1, 1), (1, 2)], [(2, 1), (2, 2), (2, 3)], [(0, 2), (0, 3)]]],
    }

    def build(self, b):
        self.ropes = b.choose(self.ROPES[b.rows, b.cols])
        b.ropes = self.ropes
        big = b.rows * b.cols > 6
        on = {q for rope in self.ropes for q in rope}
        for rope in self.ropes:
            for a, q in zip(rope, rope[1:]):
                dr, dc = q[0] - a[0], q[1] - a[1]
                d = {(0, 1): "rl", (0, -1): "lr", (1, 0): "du", (-1, 0): "ud"}[dr, dc]
                b.put("line", *a, True, pos=d[0])
                b.put("line", *q, True, pos=d[1])
        k = b.choose(["", "n", "nn", "h", "s", "sn", "?", "x", "g"] if not big else ["", "n", "s", "sn"])
        cs = []
        for ch in k:
            rc = b.cell()
            if ch in "hsg":
                for q in on:
                    b.distinct(rc, q)
                b.put("surface", *rc, b.Color["GREEN" if ch == "g" else "GRAY" if ch == "h" else "BLACK"])
            if ch in "ns?":
                b.put("text", *rc, "?" if ch == "?" else b.int(1, 9) if ch == "n" else b.int(2, 20))
            if ch == "x":
                b.put("line", *rc, False, pos="r")
            cs.append(rc)
        b.distinct(*cs)

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        if any(t.val.name == "GREEN" for t in s.sel("surface")) or any(t.val is False for t in s.sel("line")):
            s.bad(1)
            return
        hole = s.has(list(s.sel("surface")))
        N = {q: {v: s.x("number", *q, v) for v in range(1, 10)} for q in s.cells}
        for q in s.cells:
            s.req(s.Ite(hole[q], s.Or(list(N[q].values())) ^ 1, s.Exactly(list(N[q].values()), 1)))
            for n in s.adj(*q):
                if n > q:
                    for v in range(1, 10):
                        s.req(s.And(N[q][v], N[n][v]) ^ 1)
        for rope in s.b.ropes:
            up, down = [], []
            for a, q in zip(rope, rope[1:]):
                up.append(s.Or([s.And(N[a][v], N[q][v + 1]) for v in range(1, 9)]))
                down.append(s.Or([s.And(N[a][v], N[q][v - 1]) for v in range(2, 10)]))
            s.req(s.Or(s.And(up), s.And(down)))
        for t in s.sel("text"):
            for r, c, l in s.where(t):
                dg = [N[n] for n in s.adj(r, c)]
                s.req(s.Implies(s.And(l, hole[r, c]), s.sum_is(dg, t.val)))
                for v, k in s.dist(t.val).items():
                    s.req(s.Implies(s.And(l, hole[r, c] ^ 1, k), N[r, c].get(v, 0)))
                    if v not in N[r, c]:
                        s.unsure(s.And(l, k, hole[r, c] ^ 1))


def islands(s, w, exact=True):
    """Every group of w cells holds exactly one clue; a number is the size of its group."""
    sw = s.comp(w)
    ts = list(s.sel("text"))
    clue = s.has(ts)
    for a in s.cells:
        s.req(s.Implies(w[a], s.Exactly([s.And(clue[q], sw(a, q)) for q in s.cells], 1)))
        s.req(s.Implies(clue[a], w[a]))
    for t in ts:
        if s.isint(t):
            s.on(t, lambda r, c: s.num_is([sw((r, c), q) for q in s.cells], t.val))


class Nuribou(Spec):
    name = "nuribou"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        n = b.rows * b.cols
        std(b, 2, range(1, n), colors=("BLACK", "GREEN"))
        if not b.items:
            b.texts(3, range(1, 5))

    def spec(self, s):
        x = s.xmap("black")
        w = {q: v ^ 1 for q, v in x.items()}
        islands(s, w)
        strips = []
        for q in rects(s):
            r1, c1, r2, c2 = q
            if r1 == r2 or c1 == c2:
                strips.append((q, rect_is_comp(s, x, *q)))
        for a in s.cells:
            s.req(
                s.Implies(x[a], s.Or([l for (r1, c1, r2, c2), l in strips if r1 <= a[0] <= r2 and c1 <= a[1] <= c2]))
            )
        ln = lambda q: (q[2] - q[0]) + (q[3] - q[1])
        cells = lambda q: [(r, c) for r in range(q[0], q[2] + 1) for c in range(q[1], q[3] + 1)]
        for i, (q, l) in enumerate(strips):
            for q2, l2 in strips[:i]:
                if ln(q) == ln(q2) and any(b in s.adjx(*a) for a in cells(q) for b in cells(q2)):
                    s.req(s.And(l, l2) ^ 1)
        s.shade_givens(x)


class Nurikabe(Spec):
    name = "nurikabe"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]

    def build(self, b):
        n = b.rows * b.cols
        std(b, 2, range(1, n), colors=("BLACK", "GREEN"))
        if not b.items:
            b.texts(3, range(1, 6))

    def spec(self, s):
        x = s.xmap("black")
        w = {q: v ^ 1 for q, v in x.items()}
        s.req(s.connected(x))
        s.req(s.no2x2(x))
        islands(s, w)
        s.shade_givens(x)


class Nurimisaki(Spec):
    name = "nurimisaki"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        std(b, 2, range(2, 5), colors=("BLACK", "GREEN"))
        if not b.items:
            b.texts(3, range(2, 4), ["?"])

    def spec(self, s):
        x = s.xmap("black")
        w = {q: v ^ 1 for q, v in x.items()}
        s.req(s.connected(w))
        s.req(s.no2x2(x))
        s.req(s.no2x2(w))
        ts = list(s.sel("text"))
        clue = s.has(ts)
        for q in s.cells:
            one = s.Exactly([w[n] for n in s.adj(*q)], 1)
            s.req(s.Implies(clue[q], s.And(w[q], one)))
            s.req(s.Implies(s.And(w[q], clue[q] ^ 1), one ^ 1))
        for t in ts:
            if s.isint(t):
                s.on(t, lambda r, c: s.num_is([1, *s.visible(r, c, w)], t.val))
        s.shade_givens(x)


class Nuriuzu(Spec):
    name = "nuriuzu"
    boards = [(3, 3), (2, 4)]
    thorough_boards = [(4, 3)]
    may_be_empty = True

    def build(self, b):
        k = b.choose(["", "c", "t", "l", "cc", "ct", "lc", "tl", "ccc", "cB", "tG", "x"])
        cs = []
        for ch in k:
            if ch in "ctl":
                rc = b.cell(rmin=1 if ch == "t" else 0, cmin=1 if ch == "l" else 0)
                if any(c == ch for c, _ in cs):
                    b.after([v for c, v in cs if c == ch][-1], rc)
                cs.append((ch, rc))
                b.put("symbol", *rc, "circle_SS__1", d={"c": "center", "t": "top", "l": "left"}[ch])
            elif ch == "x":
                b.put("symbol", *b.cell(), "star__1")
            else:
                b.surfaces(1, ["BLACK" if ch == "B" else "GREEN"])

    def spec(self, s):
        sy = list(s.sel("symbol"))
        if not sy or any(not t.val.startswith("circle_SS") for t in sy):
            s.bad(1)
            return
        x = s.xmap("black")
        w = {q: v ^ 1 for q, v in x.items()}
        s.req(s.no2x2(x))
        s.req(s.no2x2(w))
        sw = s.comp(w)
        cnt = {q: [] for q in s.cells}
        for t in sy:
            for r, c, l in s.where(t):
                on = [(r, c)] + ([(r - 1, c)] if t.d == "top" else [(r, c - 1)] if t.d == "left" else [])
                R, C = on[0][0] + on[-1][0], on[0][1] + on[-1][1]
                for q in on:
                    s.req(s.Implies(l, w[q]))
                for q in s.cells:
                    m = (R - q[0], C - q[1])
                    s.req(s.Implies(s.And(l, sw(on[0], q)), sw(on[0], m) if m in w else 0))
                    cnt[q].append(s.And(l, sw(on[0], q)))
        for q in s.cells:
            s.req(s.Implies(w[q], s.Exactly(cnt[q], 1)))
        s.shade_givens(x)


class Onsen(Spec):
    name = "onsen"
    boards = [(2, 2), (3, 3), (2, 4), (3, 4), (4, 4)]
    thorough_boards = [(4, 5)]
    cfgs = [
        {"board": (2, 2), "layout": ["AB", "CD"]},
        {"board": (2, 4), "layout": ["AABB", "CCDD"]},
        {"board": (4, 5), "layout": ["AABBB", "AABBB", "CCDDD", "CCDDD"]},
        {"board": (3, 3), "layout": ["AAA", "AAA", "AAA"]},
        {"board": (3, 3), "layout": ["AAB", "ABB", "AAB"], "x": True},
        {"board": (2, 4), "layout": ["AABB", "AABB"]},
        {"board": (2, 4), "layout": ["AAAB", "AAAB"]},
        {"board": (3, 4), "layout": ["AABB", "AABB", "CCCC"]},
        {"board": (3, 4), "layout": ["ABBB", "ABBB", "ACCB"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
        {"board": (4, 4), "layout": ["AABB", "AACB", "DDCC", "DDCC"]},
    ]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        big = b.rows * b.cols > 9
        k = b.choose(["n", "?", "n?"] if big else ["", "n", "?", "nn", "n?", "nl", "??"])
        ts = []
        for ch in k:
            if ch == "l":
                gline(b)
            else:
                ts.append(b.cell())
                b.put("text", *ts[-1], b.among([1, 2, 3, 4] if len(k) == 1 else [2, 4]) if ch == "n" else "?")
        b.distinct(*ts)

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        D = s.path()
        rooms, ro = s.room_list(), s.room_of()
        vis = {}
        for q in s.cells:
            dg = s.deg(D, q)
            vis[q] = s.Or(dg)
            s.req(s.Implies(vis[q], s.Exactly(dg, 2)))
        s.witness("onsen_loop", lambda r, c: vis[r, c])
        cl = s.closure(s.cells, lambda a, q: s.lnk(D, a, q))
        same = lambda a, q: s.And(vis[a], cl(a, q))
        clue = s.has(ts)
        for q in s.cells:
            s.req(s.Implies(vis[q], s.Exactly([s.And(clue[a], same(q, a)) for a in s.cells], 1)))
            s.req(s.Implies(clue[q], vis[q]))
        for k, cs in rooms.items():
            s.req(s.Or([vis[q] for q in cs]))
        for t in ts:
            for r, c, l in s.where(t):
                home = [same((r, c), q) for q in rooms[ro[r, c]]]
                for k, cs in rooms.items():
                    on = [same((r, c), q) for q in cs]
                    if s.isint(t):
                        ok = s.num_is(on, t.val)
                    else:
                        ok = s.Or([s.And(s.Exactly(on, v), s.Exactly(home, v)) for v in range(1, len(cs) + 1)])
                    s.req(s.Implies(s.And(l, s.Or(on)), ok))
                    out = [s.And(same((r, c), q), s.lnk(D, q, n)) for q in cs for n in s.adj(*q) if ro[n] != k]
                    s.req(s.Implies(l, s.AtMost(out, 2)))
        s.line_givens(D)


class Paintarea(Spec):
    name = "paintarea"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)],
        own={(2, 4): [["AABB", "CBBD"], ["ABBB", "ACDB"]], (4, 3): [["ABB", "AAC", "ADC", "EDC"], ["AAA", "BBC", "BDD", "BBB"]], (4, 4): [["AABB", "CDDB", "CDEE", "CFEG"], ["ABCC", "ABBD", "EEFD", "EGGD"]]},
    )
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2, range(0, 5))

    def spec(self, s):
        x = s.xmap("gray")
        for cs in s.room_list().values():
            s.req(s.Or(s.And([x[q] for q in cs]), s.Or([x[q] for q in cs]) ^ 1))
        s.req(s.connected(x))
        s.req(s.no2x2(x))
        s.req(s.no2x2({q: v ^ 1 for q, v in x.items()}))
        for t in s.sel("text"):
            if s.isint(t):
                s.on(t, lambda r, c: s.num_is([x[n] for n in s.adj(r, c)], t.val))
        s.shade_givens(x)


class Patchwork(Spec):
    name = "patchwork"
    boards = [(2, 2), (3, 3), (2, 4), (3, 2)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        k = b.choose(["", "n", "nn", "?", "B", "W", "G", "nG", "e", "ne", "nB"])
        ts = []
        for ch in k:
            if ch in "n?":
                ts.append(b.cell())
                b.put("text", *ts[-1], b.int(0, 5) if ch == "n" else "?")
            elif ch == "e":
                b.edges(1)
            else:
                b.surfaces(1, [{"B": "BLACK", "W": "GREEN", "G": "GRAY"}[ch]])
        b.distinct(*ts)

    def spec(self, s):
        x = s.xmap("black")
        same = s.regions()
        gray = s.has([t for t in s.sel("surface") if t.val.name == "GRAY"])
        for q in s.cells:
            s.req(s.Implies(gray[q], x[q] ^ 1))
            sq = []
            for r1, c1, r2, c2 in rects(s):
                if r2 - r1 == c2 - c1 and r1 <= q[0] <= r2 and c1 <= q[1] <= c2:
                    sq.append(
                        s.And([same(q, a) if r1 <= a[0] <= r2 and c1 <= a[1] <= c2 else same(q, a) ^ 1 for a in s.cells])
                    )
            s.req(s.Or(sq))
            for n in s.adj(*q):
                if n > q:
                    s.req(
                        s.Implies(
                            s.And(s.open(q, n) ^ 1, gray[q] ^ 1, gray[n] ^ 1), s.Xor(x[q], x[n])
                        )
                    )
        s.witness("white", lambda r, c: s.And(x[r, c] ^ 1, gray[r, c] ^ 1))
        for t in s.sel("text"):
            if s.isint(t):
                s.on(t, lambda r, c: s.num_is([s.And(same((r, c), q), x[q]) for q in s.cells], t.val))
        for t in s.sel("surface"):
            if t.val.name != "GRAY":
                s.on(t, lambda r, c: x[r, c] if t.val.name == "BLACK" else x[r, c] ^ 1)


# pentominoes by letter, drawn
PENTO_ART = {
    "F": ".XX XX. .X.",
    "I": "XXXXX",
    "L": "X. X. X. XX",
    "N": ".X .X XX X.",
    "P": "XX XX X.",
    "T": "XXX .X. .X.",
    "U": "X.X XXX",
    "V": "X.. X.. XXX",
    "W": "X.. XX. .XX",
    "X": ".X. XXX .X.",
    "Y": ".X XX .X .X",
    "Z": "XX. .X. .XX",
}


def art_cells(art):
    return [(r, c) for r, row in enumerate(art.split()) for c, ch in enumerate(row) if ch == "X"]


def fixed_forms(cells):
    """All rotations and reflections, moved to the origin."""
    out = set()
    cur = list(cells)
    for flip in range(2):
        for _ in range(4):
            cur = [(c, -r) for r, c in cur]
            mr, mc = min(r for r, _ in cur), min(c for _, c in cur)
            out.add(tuple(sorted((r - mr, c - mc) for r, c in cur)))
        cur = [(r, -c) for r, c in cur]
    return sorted(out)


PENTO = {k: fixed_forms(art_cells(v)) for k, v in PENTO_ART.items()}


def placements(s, forms):
    """Placements of the forms on the board, as sets of cells."""
    out = []
    for f in forms:
        h, w = max(r for r, _ in f), max(c for _, c in f)
        for r in range(s.rows - h):
            for c in range(s.cols - w):
                out.append(frozenset((r + a, c + b) for a, b in f))
    return out


class Pentominous(Spec):
    name = "pentominous"
    boards = [(2, 5), (3, 5), (2, 3), (4, 4), (2, 6), (3, 4)]
    thorough_boards = [(4, 5), (5, 5)]
    may_be_empty = True
    TWO = {(2, 6): ["0005", "0515", "0313", "0004"], (3, 4): ["0001", "0010", "2223", "0323", "0023"]}  # two holes

    def build(self, b):
        n = b.rows * b.cols
        k = n % 5
        ch = b.choose(["", "t", "e"] if k == 2 else ["", "t", "tt", "e", "x"] if k == 0 else ["", "t", "e", "bad", "g"])
        if k == 2:
            h = [int(i) for i in b.choose(self.TWO[b.rows, b.cols])]
            b.put("surface", h[0], h[1], b.Color.BLACK)
            b.put("surface", h[2], h[3], b.Color.BLACK)
        if k == 1:
            hole = b.cell() if n <= 6 else b.choose([(0, 0), (1, 2), (3, 1)])
            b.put("surface", *hole, b.Color[b.choose(["BLACK", "GRAY"]) if ch != "g" else "GREEN"])
        letters = [x for x in "FILNPTUVWXYZ"] if n <= 10 else list("LPVUWY")
        if ch == "t":
            b.texts(1, None, letters)
        elif ch == "tt":
            b.texts(2, None, ["L", "P", "I"])
        elif ch == "e":
            b.edges(1)
        elif ch == "x":
            b.put("text", *b.cell(), "Q")
        elif ch == "bad":
            b.put("surface", 0, 1, b.Color.BLACK)
            if k == 1:
                b.distinct((0, 1), hole)

    def spec(self, s):
        sf = list(s.sel("surface"))
        hole = s.has(sf)
        if any(t.val.name == "GREEN" for t in sf) or any(t.val == "Q" for t in s.sel("text")):
            s.bad(1)
            return
        if (len(s.cells) - len(sf)) % 5:
            s.bad(1)
            return
        same = s.regions()
        hole_edges(s, hole)
        for t in s.sel("text"):
            for r, c, l in s.where(t):
                s.unsure(s.And(l, hole[r, c]))
        is_ = {}
        for k, forms in PENTO.items():
            for pl in placements(s, forms):
                a = min(pl)
                l = s.And([same(a, q) if q in pl else same(a, q) ^ 1 for q in s.cells] + [hole[q] ^ 1 for q in pl])
                for q in pl:
                    is_.setdefault(q, {}).setdefault(k, []).append(l)
        is_ = {q: {k: s.Or(v) for k, v in d.items()} for q, d in is_.items()}
        for q in s.cells:
            s.req(s.Or(hole[q], *is_.get(q, {}).values()))
            for n in s.adj(*q):
                if n > q:
                    for k in PENTO:
                        s.req(s.And(same(q, n) ^ 1, is_.get(q, {}).get(k, 0), is_.get(n, {}).get(k, 0)) ^ 1)
        for t in s.sel("text"):
            s.on(t, lambda r, c: is_.get((r, c), {}).get(t.val, 0))


class Pentopia(Spec):
    name = "pentopia"
    boards = [(3, 4), (4, 4), (3, 5)]
    thorough_boards = [(4, 5), (5, 5)]
    unique = True

    def build(self, b):
        k = b.choose(["", "a", "B", "G", "aB"])
        masks = [64, 128, 16, 32, 64 + 32, 128 + 16, 64 + 128, 16 + 32, 64 + 16 + 32]
        for ch in k:
            if ch == "a":
                b.put("symbol", *b.cell(), f"arrow_cross__{b.choose(masks)}", pos="multiple")
            else:
                b.surfaces(1, ["BLACK" if ch == "B" else "GREEN"])

    def spec(self, s):
        x = s.xmap("black")
        cover = {q: [] for q in s.cells}
        for k, forms in PENTO.items():
            ls = []
            for pl in placements(s, forms):
                ring = {n for q in pl for n in s.adj8(*q)} - pl
                l = s.And([x[q] for q in pl] + [x[q] ^ 1 for q in ring])
                ls.append(l)
                for q in pl:
                    cover[q].append(l)
            s.req(s.AtMost(ls, 1))
        for q in s.cells:
            s.req(s.Implies(x[q], s.Or(cover[q])))
        for t in s.sel("symbol"):
            m = int(t.val.split("__")[1])
            want = {"u": m & 64, "l": m & 128, "d": m & 16, "r": m & 32}
            for r, c, l in s.where(t):
                s.req(s.Implies(l, x[r, c] ^ 1))
                up, down, left, right = s.rays(r, c)
                ray = {"u": up, "d": down, "l": left, "r": right}
                first = lambda d, i: s.And(x[ray[d][i]], *[x[q] ^ 1 for q in ray[d][:i]])
                ok = []
                for i in range(max(s.rows, s.cols)):
                    # the nearest shaded cell is i + 1 steps away, exactly in the directions pointed at
                    cond = []
                    for d, wd in want.items():
                        if wd:
                            cond.append(first(d, i) if i < len(ray[d]) else 0)
                        else:
                            cond.append(s.Or([x[q] for q in ray[d][: i + 1]]) ^ 1)
                    ok.append(s.And(cond))
                s.req(s.Implies(l, s.Or(ok)))
        s.shade_givens(x)


class PipeLink(Spec):
    name = "pipelink"
    boards = [(2, 2), (2, 4), (3, 4), (4, 4)]
    thorough_boards = [(4, 5), (5, 5)]

    def build(self, b):
        k = b.choose(["", "1", "2", "x", "22", "4"] if b.rows * b.cols < 16 else ["", "2", "4"])
        cs = []
        for ch in k:
            rc = b.cell()
            if ch == "1":
                b.put("line", *rc, True, pos=b.choose("lurd"))
            elif ch == "x":
                b.put("line", *rc, False, pos="d")
            elif ch == "4":
                for d in "lurd":
                    b.put("line", *rc, True, pos=d)
            else:
                for d in b.choose(["lr", "ud", "lu", "rd", "ld", "ru"]):
                    b.put("line", *rc, True, pos=d)
            cs.append(rc)
        b.distinct(*cs)

    def spec(self, s):
        if any(t.val is False for t in s.sel("line")):
            s.bad(1)
            return
        D = s.path()
        cross = {}
        for q in s.cells:
            dg = s.deg(D, q)
            cross[q] = s.And(dg)
            s.req(s.Or(s.Exactly(dg, 2), cross[q]))
        # two half-cells, joined unless the lines cross
        nodes = [(r, c, h) for r, c in s.cells for h in "HV"]

        def link(a, q):
            if a[:2] == q[:2]:
                return cross[a[:2]] ^ 1
            if a[2] != q[2] or q[:2] not in s.adj(*a[:2]):
                return 0
            hor = a[0] == q[0]
            return s.lnk(D, a[:2], q[:2]) if hor == (a[2] == "H") else 0

        adj = lambda r, c, h: [(r, c, "V" if h == "H" else "H")] + [(*n, h) for n in s.adj(r, c) if (n[0] == r) == (h == "H")]
        rch = s.reach_link({nodes[0]: 1}, nodes, link, adj)
        for n in nodes:
            s.req(rch[n])
        given = {}
        for t in s.sel("line"):
            for r, c, l in s.where(t):
                given.setdefault((r, c), {}).setdefault(t.pos, []).append(l)
        for (r, c), d in given.items():
            some = s.Or([l for v in d.values() for l in v])
            for p in "lurd":
                s.req(s.Implies(some, s.Iff(D[r, c, p], s.Or(d.get(p, [])))))


class Putteria(Spec):
    name = "putteria"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)],
        own={(3, 3): [["ABC", "DBC", "DDD"], ["ABB", "CDB", "CCB"], ["ABB", "ABC", "DDC"]], (2, 4): [["AABC", "AABC"], ["ABAA", "AAAC"]], (4, 3): [["AAA", "BBC", "BDD", "BBB"], ["ABB", "CBB", "CBD", "BBD"]], (4, 4): [["AABB", "AACD", "EECD", "FFCG"], ["AAAA", "AABC", "DBBE", "DDBE"]]},
    )
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "n", "nn", "x", "B", "G", "nx", "nB"])
        ts = []
        for ch in k:
            if ch in "nx":
                ts.append(b.cell())
                b.put("text", *ts[-1], b.int(1, 7) if ch == "n" else "?")
            else:
                b.surfaces(1, ["GRAY" if ch == "B" else "GREEN"])
        b.distinct(*ts)

    def spec(self, s):
        if any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        G = s.xmap("gray")
        rooms, ro = s.room_list(), s.room_of()
        N = {}
        for q in s.cells:
            n = len(rooms[ro[q]])
            N[q] = {n: s.x("number", *q, n)}
            s.req(s.Xor(G[q], N[q][n]))
            for a in s.adj(*q):
                s.req(s.Or(G[q], G[a]))
        for k, cs in rooms.items():
            s.req(s.Exactly([G[q] ^ 1 for q in cs], 1))
        for a in s.cells:
            for q in s.cells:
                if q > a and (q[0] == a[0] or q[1] == a[1]) and len(rooms[ro[a]]) == len(rooms[ro[q]]):
                    s.req(s.Or(G[a], G[q]))
        for t in s.sel("surface"):
            s.on(t, lambda r, c: G[r, c])
        for t in s.sel("text"):
            if not s.isint(t):
                s.on(t, lambda r, c: G[r, c])
        s.num_givens(N)


class RailPool(Spec):
    name = "railpool"
    boards = [(2, 3), (2, 4), (3, 4), (4, 4)]
    thorough_boards = [(4, 5)]
    cfgs = [
        {"board": (2, 3), "layout": ["AAB", "ABB"]},
        {"board": (2, 3), "layout": ["AAA", "AAA"]},
        {"board": (2, 4), "layout": ["AABB", "AACC"], "x": True},
        {"board": (3, 4), "layout": ["AABB", "ACCB", "AABB"]},
        {"board": (4, 4), "layout": ["AABB", "ACCB", "DCEE", "DDEE"]},
        {"board": (4, 5), "layout": ["AABBB", "ACCBB", "DCEEE", "DDEEE"]},
    ]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "1", "2", "?", "2?", "1+?", "l", "k", "1k", "g", "??"])
        ts = []
        mx = max(b.rows, b.cols)
        for ch in k.split("+") if "+" in k else [k]:
            if ch in ("1", "2", "?", "2?", "??"):
                rc = b.cell()
                ts.append(rc)
                vals = {"1": "n", "2": "nn", "?": "?", "2?": "n?", "??": "??"}[ch]
                prev = None
                for j, v in enumerate(vals):
                    e = b.int(1, mx) if v == "n" else "?"
                    if v == "n" and prev is not None:
                        b.assume(e.z > prev.z)
                    prev = e
                    b.put("text", *rc, e, pos=f"tapa_{j}")
            elif ch == "l":
                gline(b)
            elif ch in ("k", "g"):
                b.surfaces(1, ["BLACK" if ch == "k" else "GREEN"])
            elif ch == "1k":
                b.put("text", *b.cell(), b.int(1, mx), pos="tapa_0")
                b.surfaces(1, ["GRAY"])

    def spec(self, s):
        if any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        ts = list(s.sel("text"))
        s.one_per_room([t for t in ts if t.pos == "tapa_0"])
        hole = s.has(list(s.sel("surface")))
        D = s.path()
        for q in s.cells:
            s.req(s.Ite(hole[q], s.Or(s.deg(D, q)) ^ 1, s.Exactly(s.deg(D, q), 2)))
        s.req(s.one_component({q: v ^ 1 for q, v in hole.items()}, lambda a, q: s.lnk(D, a, q)))
        # straight segments: maximal runs of links in one direction
        segs = {}
        for r, c in s.cells:
            for dr, dc, d in ((0, 1, "r"), (1, 0, "d")):
                run = [(r, c)]
                while True:
                    n = (run[-1][0] + dr, run[-1][1] + dc)
                    if n not in s._cellset():
                        break
                    run.append(n)
                    L = len(run) - 1
                    l = s.And(
                        [D[a[0], a[1], d] for a in run[:-1]]
                        + [D[r, c, s.OPP[d]] ^ 1, D[n[0], n[1], d] ^ 1]
                    )
                    for a in run:
                        segs.setdefault(a, {}).setdefault(L, []).append(l)
        ro, rooms = s.room_of(), s.room_list()
        has = {}
        for k, cs in rooms.items():
            has[k] = {
                L: s.Or([l for q in cs for l in segs.get(q, {}).get(L, [])]) for L in range(1, max(s.rows, s.cols))
            }
        groups = {}
        for t in ts:
            groups.setdefault(id(t.r) if not isinstance(t.r, int) else ("c", t.r, t.c if isinstance(t.c, int) else id(t.c)), []).append(t)
        # texts put at one symbolic cell share its coordinates
        cells = []
        for t in ts:
            for g in cells:
                if g[0].r is t.r and g[0].c is t.c:
                    g.append(t)
                    break
            else:
                cells.append([t])
        for g in cells:
            for r, c, l in s.where(g[0]):
                k = ro[r, c]
                s.req(s.Implies(l, s.Exactly(list(has[k].values()), len(g))))
                for t in g:
                    if s.isint(t):
                        s.req(s.Implies(l, s.dist_is(has[k], t.val)))
        s.line_givens(D)


class Ripple(Spec):
    name = "ripple"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)],
        own={(4, 4): [["ABBC", "ABBD", "AEDD", "FEED"], ["AABB", "CCBB", "CCDD", "EFFD"]]},
    )
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "n", "nn", "x", "nx"])
        ts = []
        for ch in k:
            ts.append(b.cell())
            b.put("text", *ts[-1], b.int(1, 5) if ch == "n" else "?")
        b.distinct(*ts)

    def spec(self, s):
        rooms, ro = s.room_list(), s.room_of()
        hole = s.has([t for t in s.sel("text") if not s.isint(t)])
        N = {}
        for q in s.cells:
            N[q] = {v: s.x("number", *q, v) for v in range(1, len(rooms[ro[q]]) + 1)}
            s.req(s.Ite(hole[q], s.Or(list(N[q].values())) ^ 1, s.Exactly(list(N[q].values()), 1)))
        for a in s.cells:
            for q in s.cells:
                if q <= a:
                    continue
                for v in N[a]:
                    if v not in N[q]:
                        continue
                    line = a[0] == q[0] or a[1] == q[1]
                    if ro[a] == ro[q] or line and abs(a[0] - q[0]) + abs(a[1] - q[1]) <= v:
                        s.req(s.And(N[a][v], N[q][v]) ^ 1)
        s.num_givens(N)
