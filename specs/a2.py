from puz import Spec
from specs.lib import (
    borders,
    edges_around,
    givens,
    std,
    gline,
    hole_edges,
    no_crossing,
    no_rects,
    only_rects,
    room_cfgs,
    room_counts,
    sizes_are,
)


class CBanana(Spec):
    name = "cbanana"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        std(b, 2 if b.rows * b.cols < 12 else 1, range(1, 8))

    def spec(self, s):
        x = s.xmap("gray")
        w = {k: v ^ 1 for k, v in x.items()}
        only_rects(s, x)
        no_rects(s, w)
        s.witness("white", lambda r, c: w[r, c])
        for it in s.sel("text"):
            if s.isint(it):
                for r, c, l in s.where(it):
                    for m in (x, w):
                        n = s.reach({(r, c): m[r, c]}, m).values()
                        s.req(s.Implies(s.And(l, m[r, c]), s.num_is(n, it.val)))
        s.shade_givens(x)


class Chocona(Spec):
    name = "chocona"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2, range(0, 6))

    def spec(self, s):
        x = s.xmap("gray")
        only_rects(s, x)
        room_counts(s, x)
        s.shade_givens(x)


class CircleSquare(Spec):
    name = "circlesquare"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        b.symbols([0, 1, 2], ["circle_M__1", "circle_M__2"])
        givens(b)

    def spec(self, s):
        x = s.xmap("gray")
        s.req(s.connected(x))
        s.req(s.no2x2(x))
        only_rects(s, {k: v ^ 1 for k, v in x.items()}, square=True)
        for it in s.sel("symbol"):
            s.on(it, lambda r, c: x[r, c] if it.val.endswith("2") else x[r, c] ^ 1)
        s.shade_givens(x)


class Cocktail(Spec):
    name = "cocktail"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2 if b.rows * b.cols < 12 else 1, range(0, 6))

    def spec(self, s):
        x = s.xmap("gray")
        s.req(s.connected(x, s.adj8))
        s.req(s.no2x2(x))
        for cs in s.room_list().values():
            s.req(s.connected({c: x[c] for c in cs}))
        for a, n in borders(s):
            s.req(s.And(x[a], x[n]) ^ 1)
        room_counts(s, x)
        s.shade_givens(x)


class Cojun(Spec):
    name = "cojun"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = []
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4)],
        own={(3, 3): [["ABC", "AAC", "AAA"], ["AAB", "ABB", "AAA"], ["ABB", "ABC", "DDC"]], (2, 4): [["AABB", "CCBB"], ["AABB", "BBBC"]], (4, 3): [["AAB", "ACB", "CCB", "DDD"], ["ABC", "BBC", "BBD", "BDD"]], (4, 4): [["AAAB", "CDBB", "CDBB", "CEEE"], ["AABB", "CCBC", "CCCC", "CCCD"]]},
    )
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        b.texts([0, 1, 2], range(1, 8), ["?"] if b.rows == 3 else [])

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        ro, rooms = s.room_of(), s.room_list()
        N = {rc: {v: s.x("number", *rc, v) for v in range(1, len(rooms[ro[rc]]) + 1)} for rc in s.cells}
        for rc in s.cells:
            s.req(s.Exactly(list(N[rc].values()), 1))
            for n in s.adj(*rc):
                for v in N[rc]:
                    s.req(s.And(N[rc][v], N[n].get(v, 0)) ^ 1)
            n = (rc[0] + 1, rc[1])
            if s.inb(*n) and ro[n] == ro[rc]:
                for v in N[rc]:
                    for w in N[n]:
                        if v < w:
                            s.req(s.And(N[rc][v], N[n][w]) ^ 1)
        for cs in rooms.values():
            for v in range(1, len(cs) + 1):
                s.req(s.Exactly([N[c][v] for c in cs], 1))
        s.num_givens(N)


class Compass(Spec):
    name = "compass"
    boards = [(2, 3), (3, 2), (3, 3), (2, 4)]
    thorough_boards = [(3, 4)]

    def build(self, b):
        n = b.choose([0, 1, 2])
        cs = b.slots(n)
        for i, (r, c) in enumerate(cs):
            ps = b.choose(["4", "5", "6", "7", "47", "56", "4?"]) if n == 1 else ["57", "46"][i]
            for p in ps.replace("?", ""):
                b.put("text", r, c, "?" if "?" in ps else b.int(0, 5), pos="sudoku_" + p)
        h = b.choose([0, 1, 2]) if n == 1 else b.choose([0, 1])
        hs = b.slots(h)
        for r, c in hs:
            b.put("surface", r, c, b.Color["GRAY" if n == 1 else "BLACK"])
        b.distinct(*cs, *hs)
        if n == 2 and not h:
            b.edges([0, 1], draws=(True,))

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        same = s.regions()
        hole = s.has(s.sel("surface"))
        hole_edges(s, hole)
        clue = s.has(ts)
        for rc in s.cells:
            s.req(s.Implies(hole[rc] ^ 1, s.Exactly([s.And(clue[n], same(rc, n)) for n in s.cells], 1)))
        for it in ts:
            if not s.isint(it):
                continue
            f = {
                "sudoku_4": lambda a, q: q[0] < a[0],
                "sudoku_6": lambda a, q: q[1] < a[1],
                "sudoku_7": lambda a, q: q[0] > a[0],
                "sudoku_5": lambda a, q: q[1] > a[1],
            }[it.pos]
            s.on(it, lambda r, c: s.num_is([same((r, c), q) for q in s.cells if f((r, c), q)], it.val))


class Context(Spec):
    name = "context"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(0, 6))

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        x = s.xmap("gray")
        s.req(s.no_adj(x))
        s.req(s.connected({k: v ^ 1 for k, v in x.items()}))
        for it in s.sel("text"):
            s.on(
                it,
                lambda r, c: s.Ite(
                    x[r, c],
                    s.num_is([x[n] for n in s.adjx(r, c)], it.val),
                    s.num_is([x[n] for n in s.adj(r, c)], it.val),
                ),
            )
        s.shade_givens(x)


class Coral(Spec):
    name = "coral"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        k, m = b.choose([(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1)])
        c = b.cell()[1]
        for i in range(k):
            b.put("text", -1 - i, c, b.int(1, min(3, b.rows)))
        r = b.cell()[0]
        for i in range(m):
            b.put("text", r, -1 - i, b.int(1, min(3, b.cols)))
        if m == 0 and k < 2:
            givens(b)

    def spec(self, s):
        x = s.xmap("black")
        s.req(s.connected(x))
        w = {k: v ^ 1 for k, v in x.items()}
        border = {rc: w[rc] for rc in s.cells if rc[0] in (0, s.rows - 1) or rc[1] in (0, s.cols - 1)}
        rch = s.reach(border, w)
        for rc in s.cells:
            s.req(s.Implies(w[rc], rch[rc]))
        s.req(s.no2x2(x))

        def runs(ln, L):
            out = []
            for i in range(len(ln) - L + 1):
                l = s.And(ln[i : i + L])
                if i:
                    l = s.And(l, ln[i - 1] ^ 1)
                if i + L < len(ln):
                    l = s.And(l, ln[i + L] ^ 1)
                out.append(l)
            return out

        def line(items, ln, l):
            for L in range(1, max(s.rows, s.cols) + 1):
                vals = [s.eq(i.val, L) for i in items]
                rn = runs(ln, L)
                s.req(s.Implies(l, s.Or([s.And(s.Exactly(vals, k), s.Exactly(rn, k)) for k in range(len(items) + 1)])))

        top = [i for i in s.sel("text") if isinstance(i.r, int) and i.r < 0]
        left = [i for i in s.sel("text") if isinstance(i.c, int) and i.c < 0]
        if top:
            for c in range(s.cols):
                line(top, [x[r, c] for r in range(s.rows)], s.eq(top[0].c, c))
        if left:
            for r in range(s.rows):
                line(left, [x[r, c] for c in range(s.cols)], s.eq(left[0].r, r))
        s.shade_givens(x)


class Country(Spec):
    name = "country"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = []
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4)],
        own={(2, 4): [["AAAA", "ABBB"], ["AABB", "AABB"]], (4, 4): [["AAAA", "ABBC", "ADBC", "ADDC"], ["AABB", "CBBB", "CCBB", "CCCB"]]},
    )
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        n = b.choose([0, 1, 2])
        b.texts(n, range(0, 6), ["?"] if n == 1 else [])
        if n == 1:
            gline(b)

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.witness("*2", lambda r, c: vis.get((r, c)))
        ro = s.room_of()
        bd = borders(s)
        for k in s.room_list():
            s.req(s.Exactly([s.lnk(D, a, n) for a, n in bd if k in (ro[a], ro[n])], 2))
        for a, n in bd:
            s.req(s.Or(vis[a], vis[n]))
        room_counts(s, vis)
        s.line_givens(D)


class Creek(Spec):
    name = "creek"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(0, 6), d="top_left", region={"rmax": b.rows, "cmax": b.cols})

    def spec(self, s):
        x = s.xmap("gray")
        s.req(s.connected({k: v ^ 1 for k, v in x.items()}))
        for it in s.sel("text"):
            if s.isint(it):
                for r, c, l in s.where(it):
                    q = [x[a, e] for a in (r - 1, r) for e in (c - 1, c) if s.inb(a, e)]
                    s.req(s.Implies(l, s.num_is(q, it.val)))
        s.shade_givens(x)


def turns(s, D, rc):
    r, c = rc
    return s.Or([s.And(D[r, c, a], D[r, c, d]) for a in "ud" for d in "lr"])


class Detour(Spec):
    name = "detour"
    boards = [(4, 3), (2, 4), (4, 4)]
    thorough_boards = []
    cfgs = room_cfgs([(4, 3), (2, 4), (4, 4)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        n = b.choose([0, 1, 2])
        b.texts(n, range(0, 6), ["?"] if n == 1 else [], pos="sudoku_0")
        if n == 1:
            gline(b)

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.req(s.And(list(vis.values())))
        room_counts(s, {rc: turns(s, D, rc) for rc in s.cells})
        s.line_givens(D)


class Dominion(Spec):
    name = "dominion"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        n = b.choose([1, 2, 3])
        for i, (r, c) in enumerate(b.slots(n)):
            b.put("text", r, c, "A" if i == 0 else b.choose(["A", "B"]) if i == 1 else b.choose(["B", "C"]))
        givens(b)

    def spec(self, s):
        x = s.xmap("black")
        w = {k: v ^ 1 for k, v in x.items()}
        for rc in s.cells:
            s.req(s.Implies(x[rc], s.Exactly([x[n] for n in s.adj(*rc)], 1)))
        ts = list(s.sel("text"))
        tot = {rc: [] for rc in s.cells}
        for it in ts:
            s.on(it, lambda r, c: w[r, c])
            rch = s.reach({(r, c): l for r, c, l in s.where(it)}, w)
            for rc in s.cells:
                tot[rc].append(rch[rc])
            for o in ts:
                if o is not it:
                    s.on(o, lambda r, c: rch[r, c] if o.val == it.val else rch[r, c] ^ 1)
        for rc in s.cells:
            s.req(s.Or(x[rc], *tot[rc]))
        s.shade_givens(x)


class Doppelblock(Spec):
    name = "doppelblock"
    boards = [(4, 4), (3, 3), (2, 3)]
    thorough_boards = [(5, 5)]
    may_be_empty = True

    def build(self, b):
        if b.choose([0, 1]):
            b.put("text", -1, b.cell()[1], b.int(0, 7) if b.choose([1, 0]) else "?")
        if b.choose([0, 1]):
            b.put("text", b.cell()[0], -1, b.int(0, 7))
        k = b.choose(["none", "num", "?", "BLACK", "GRAY", "GREEN"])
        r, c = b.cell()
        if k == "num":
            b.put("text", r, c, b.int(1, max(b.rows - 2, 1)))
        elif k == "?":
            b.put("text", r, c, "?")
        elif k != "none":
            b.put("surface", r, c, b.Color[k])

    def spec(self, s):
        if s.rows != s.cols or any(i.val.name == "GREEN" for i in s.sel("surface")):
            s.bad(1)
            return
        for it in s.sel("text"):
            if not s.isint(it) and all(s.inb(r, c) for r, c, _ in s.where(it)):
                s.bad(1)
                return
        n = s.rows
        K = range(1, n - 1)
        N = {rc: {v: s.x("number", *rc, v) for v in K} for rc in s.cells}
        x = s.xmap("black")
        for rc in s.cells:
            s.req(s.Exactly([*N[rc].values(), x[rc]], 1))
        rows = [[(r, c) for c in range(n)] for r in range(n)]
        cols = [[(r, c) for r in range(n)] for c in range(n)]
        for ln in rows + cols:
            s.req(s.Exactly([x[c] for c in ln], 2))
            for v in K:
                s.req(s.Exactly([N[c][v] for c in ln], 1))
        for it in s.sel("text"):
            if not s.isint(it):
                continue
            for r, c, l in s.where(it):
                if s.inb(r, c):
                    s.req(s.Implies(l, s.by_val(it.val, lambda v: N[r, c].get(v, 0))))
                    continue
                ln = cols[c] if r == -1 else rows[r]
                parts = []
                for i, q in enumerate(ln):
                    mid = s.And(s.Or([x[a] for a in ln[:i]]), s.Or([x[a] for a in ln[i + 1 :]]))
                    d = {0: (s.And(mid, s.Or(list(N[q].values())))) ^ 1}
                    for v in K:
                        d[v] = s.And(mid, N[q][v])
                    parts.append(d)
                s.req(s.Implies(l, s.dist_is(s.g.sum_dist(parts), it.val)))
        for it in s.sel("surface"):
            s.on(it, lambda r, c: x[r, c])


class Dotchi(Spec):
    name = "dotchi"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = []
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        n = b.choose([0, 1, 2])
        b.symbols(n, ["circle_L__1", "circle_L__2"])
        if n == 1:
            gline(b)

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.witness("*2", lambda r, c: vis.get((r, c)))
        items = list(s.sel("symbol"))
        for it in items:
            s.on(it, lambda r, c: vis[r, c] if it.val.endswith("1") else vis[r, c] ^ 1)
        ro = s.room_of()
        white = s.has([i for i in items if i.val.endswith("1")])
        for a in s.cells:
            for n in s.cells:
                if n > a and ro[a] == ro[n]:
                    s.req(s.Implies(s.And(white[a], white[n]), s.Iff(turns(s, D, a), turns(s, D, n))))
        s.line_givens(D)


class DoubleBack(Spec):
    name = "doubleback"
    boards = [(4, 4), (4, 5), (3, 4)]
    thorough_boards = [(5, 5)]
    cfgs = [
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "AABB", "AABB"]},
        {"board": (4, 4), "layout": ["ABBB", "ABBB", "AABB", "AABB"]},
        {"board": (4, 4), "layout": ["ABBB", "AACC", "AACC", "AACC"]},
        {"board": (3, 4), "layout": ["AAAB", "ABBB", "ABBB"]},
        {"board": (3, 4), "layout": ["AAAA", "BBBA", "BAAA"]},
        {"board": (4, 5), "layout": ["AAABB", "AAABB", "CCCDD", "CCCDD"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "AABB", "AABB"], "x": True},
        {"board": (5, 5), "layout": ["AABBB", "AABBB", "CCDDD", "CCDDD", "CCDDD"]},
    ]

    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["none", "BLACK", "GRAY", "GREEN", "line"])
        if k == "line":
            gline(b)
        elif k != "none":
            b.surfaces(1, [k])

    def spec(self, s):
        if any(i.val.name == "GREEN" for i in s.sel("surface")):
            s.bad(1)
            return
        blk = s.has(s.sel("surface"))
        D = s.path()
        vis = s.single_loop(D)
        for rc in s.cells:
            s.req(s.Iff(vis[rc], blk[rc] ^ 1))
        ro = s.room_of()
        bd = borders(s)
        for k, cs in s.room_list().items():
            # the black cell must not take the whole room away or cut it in two (not a drawing of this type)
            for rc in cs:
                if blk[rc]:
                    rest = [c for c in cs if c != rc]
                    seen = set(rest[:1])
                    while True:
                        new = {n for a in seen for n in s.adj(*a) if n in rest} - seen
                        if not new:
                            break
                        seen |= new
                    if len(seen) != len(rest) or not rest:
                        s.unsure(blk[rc])
            s.req(s.Exactly([s.lnk(D, a, n) for a, n in bd if k in (ro[a], ro[n])], 4))
        s.line_givens(D)


class EasyAsABC(Spec):
    name = "easyasabc"
    boards = [(3, 3), (4, 4), (2, 3)]
    thorough_boards = [(5, 5)]
    cfgs = [{"l": "ABC"}, {"l": "AB"}]
    may_be_empty = True

    def build(self, b):
        b.param = {"letters": b.cfg["l"]}
        L = b.cfg["l"]
        for side in b.choose([(), ("t",), ("b",), ("l",), ("r",), ("in",), ("t", "r"), ("l", "b"), ("bad",)]):
            r, c = b.cell()
            v = b.choose(list(L)[:2])
            if side == "bad":
                b.put("text", r, c, "AB")
            else:
                b.put("text", {"t": -1, "b": b.rows}.get(side, r), {"l": -1, "r": b.cols}.get(side, c), v)

    def spec(self, s):
        if s.rows != s.cols or any(len(i.val) != 1 for i in s.sel("text")):
            s.bad(1)
            return
        n = s.rows
        L = s.param["letters"]
        K = range(1, len(L) + 1)
        N = {rc: {v: s.x("number", *rc, v) for v in K} for rc in s.cells}
        for rc in s.cells:
            s.req(s.AtMost(list(N[rc].values()), 1))
        rows = [[(r, c) for c in range(n)] for r in range(n)]
        cols = [[(r, c) for r in range(n)] for c in range(n)]
        s.witness("white", lambda r, c: s.Or(list(N[r, c].values())) ^ 1)
        for ln in rows + cols:
            for v in K:
                s.req(s.Exactly([N[c][v] for c in ln], 1))
        for it in s.sel("text"):
            v = L.index(it.val) + 1
            for r, c, l in s.where(it):
                if s.inb(r, c):
                    s.req(s.Implies(l, N[r, c][v]))
                    continue
                ln = cols[c] if r in (-1, n) else rows[r]
                if r == n or c == n:
                    ln = ln[::-1]
                first, none = [], 1
                for q in ln:
                    first.append(s.And(none, N[q][v]))
                    none = s.And(none, s.Or(list(N[q].values())) ^ 1)
                s.req(s.Implies(l, s.Or(first)))


class Factors(Spec):
    name = "factors"
    boards = [(3, 3), (2, 3), (4, 4)]
    thorough_boards = []
    cfgs = room_cfgs([(3, 3), (2, 3), (4, 4)])
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        n = b.choose([0, 1, 2])
        b.texts(n, [1, 2, 6, 8, 12] if n == 1 else [2, 6], ["?"] if n == 1 else [], pos="sudoku_0", tag="p")
        if n == 0:
            b.texts([0, 1], range(1, 5), ["?"], tag="n")

    def spec(self, s):
        if s.rows != s.cols or any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        n = s.rows
        N = s.numbers(range(1, n + 1))
        for i in range(n):
            for v in range(1, n + 1):
                s.req(s.Exactly([N[i, c][v] for c in range(n)], 1))
                s.req(s.Exactly([N[r, i][v] for r in range(n)], 1))

        def product(cs):
            d = {1: 1}
            for c in cs:
                e = {}
                for p, l in d.items():
                    for v, k in N[c].items():
                        e.setdefault(p * v, []).append(s.And(l, k))
                d = {k: s.Or(v) for k, v in e.items()}
            return d

        for it in s.sel("text", tag="p"):
            s.on_room(it, lambda cs: s.dist_is(product(cs), it.val))
        for it in s.sel("text", tag="n"):
            s.in_range(it, N)
            s.on(it, lambda r, c: s.by_val(it.val, lambda v: N[r, c].get(v, 0)))


class Fillmat(Spec):
    name = "fillmat"
    boards = [(3, 3), (2, 4), (3, 4), (1, 5)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        b.texts([0, 1, 2], range(1, 6), ["?"])
        if len(b.items) < 2:
            b.edges([0, 1])

    def spec(self, s):
        same = s.regions()
        no_crossing(s)
        size = {a: [same(a, q) for q in s.cells] for a in s.cells}
        for a in s.cells:
            s.req(s.AtMost(size[a], 4))
            for q in s.cells:
                if q[0] != a[0] and q[1] != a[1]:
                    s.req(same(a, q) ^ 1)
            for q in s.adj(*a):
                if q > a:
                    for k in range(1, 5):
                        s.req(s.And(s.open(a, q) ^ 1, s.Exactly(size[a], k), s.Exactly(size[q], k)) ^ 1)
        # a bar: the two directions exclude each other
        for a in s.cells:
            h = s.Or([same(a, q) for q in s.cells if q[0] == a[0] and q != a])
            v = s.Or([same(a, q) for q in s.cells if q[1] == a[1] and q != a])
            s.req(s.And(h, v) ^ 1)
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is(size[r, c], it.val))


class Fillomino(Spec):
    name = "fillomino"
    boards = [(2, 2), (2, 3), (3, 2), (1, 7)]
    thorough_boards = [(3, 3)]
    cfgs = [{"fast": True}, {"fast": False}]

    def build(self, b):
        b.param = {"fast_mode": b.cfg["fast"]}
        n = b.choose([0, 1, 2])
        b.texts(n, range(1, 5), ["?"] if n == 1 else [])
        if n == 1:
            b.edges([0, 1], dirs=("left",))

    def spec(self, s):
        ts = list(s.sel("text"))
        if any(not s.isint(t) for t in ts):
            s.bad(1)
            return
        same = s.regions()
        size = {a: s.g.unary([same(a, q) for q in s.cells]) for a in s.cells}
        n = len(s.cells)

        def ex(a, k):
            ge = size[a]
            return s.And(ge[k] if k < len(ge) else 0, (ge[k + 1] if k + 1 < len(ge) else 0) ^ 1)

        clue = s.has(ts)
        for a in s.cells:
            has = s.Or([s.And(clue[q], same(a, q)) for q in s.cells])
            for k in range(1, n + 1):
                e = ex(a, k)
                s.req(s.Iff(s.x("number", *a, k), s.And(e, s.Or(has, 1 if k == 1 else 0))))
                s.req(s.Iff(s.x("numberx", *a, k), s.And(e, has ^ 1)))
                if s.cfg["fast"] and k > 5:
                    s.req(s.And(e, has ^ 1) ^ 1)
                for q in s.adj(*a):
                    if q > a:
                        s.req(s.And(s.open(a, q) ^ 1, e, ex(q, k)) ^ 1)
        for it in ts:
            s.on(it, lambda r, c: s.by_val(it.val, lambda v: ex((r, c), v)))


class Fillpix(Spec):
    name = "fillpix"
    boards = [(3, 3), (2, 4), (4, 3), (1, 5)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(0, 11))

    def spec(self, s):
        x = s.xmap("gray")
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is([x[n] for n in s.adj8(r, c)] + [x[r, c]], it.val))
        s.shade_givens(x)


class Firefly(Spec):
    name = "firefly"
    boards = [(2, 2), (1, 3), (2, 3)]
    thorough_boards = [(3, 3)]

    def build(self, b):
        n = b.choose([1, 2])
        cs = b.slots(n, {"rmax": b.rows, "cmax": b.cols})
        for i, (r, c) in enumerate(cs):
            b.put("symbol", r, c, "firefly__" + b.choose(["1", "2", "3", "4"]), d="top_left")
            k = b.choose(["none", "int", "?"] if n == 1 else ["none", "int"]) if i == 0 else "int"
            if k != "none":
                b.put("text", r, c, b.int(0, 4) if k == "int" else "?", d="top_left")
        if n == 1 and b.choose([0, 1]):
            b.edges(1, inner=False)

    def spec(self, s):
        R, C = s.rows, s.cols
        V = [(r, c) for r in range(R + 1) for c in range(C + 1)]
        E = {}
        for r in range(R + 1):
            for c in range(C):
                E[(r, c), (r, c + 1)] = s.x("edge_top", r, c)
        for r in range(R):
            for c in range(C + 1):
                E[(r, c), (r + 1, c)] = s.x("edge_left", r, c)
        A = {}
        for (a, q), l in E.items():
            A[a, q] = A[q, a] = l
        for it in s.sel("edge"):
            for r, c, l in s.where(it):
                v = s.x("edge_" + it.d, r, c)
                s.req(s.Implies(l, v if it.val else v ^ 1))
        nb = {v: [q for q in V if (v, q) in A] for v in V}
        ff = list(s.sel("symbol"))
        fly = {v: [] for v in V}
        dot = {e: [] for e in A}
        for it in ff:
            dr, dc = {"1": (0, 1), "2": (1, 0), "3": (0, -1), "4": (-1, 0)}[it.val[-1]]
            for r, c, l in s.where(it):
                fly[r, c].append(l)
                q = (r + dr, c + dc)
                if q in fly:
                    dot[(r, c), q].append(l)
                else:
                    s.req(l ^ 1)
        fly = {v: s.Or(l) for v, l in fly.items()}
        dot = {e: s.Or(l) for e, l in dot.items()}
        for v in V:
            s.req(s.Implies(fly[v] ^ 1, s.Or(s.Exactly([A[v, q] for q in nb[v]], 2), s.Or([A[v, q] for q in nb[v]]) ^ 1)))

        def trace(start):
            """Oriented edges of the line(s) leaving by the given oriented edges."""
            cur = dict(start)
            for _ in range(len(A)):
                new = {}
                for u, v in A:
                    pre = [s.And(cur[t, u], fly[u] ^ 1) for t in nb[u] if t != v]
                    new[u, v] = s.Or(cur[u, v], s.And(A[u, v], s.Or(pre)))
                if new == cur:
                    break
                cur = new
            return cur

        for e in A:
            s.req(s.Implies(dot[e], A[e]))
        allo = trace(dot)
        s.witness("grid_out", lambda r, c, d: allo.get(((r, c), (r + s.DIR[d][0], c + s.DIR[d][1])), 0))
        s.witness("grid_in", lambda r, c, d: allo.get(((r + s.DIR[d][0], c + s.DIR[d][1]), (r, c)), 0))
        s.witness("firefly", lambda r, c: s.And(fly[r, c] ^ 1, s.Or([A[(r, c), q] for q in nb[r, c]])))
        s.witness("firefly_all", lambda r, c: s.Or([A[(r, c), q] for q in nb[r, c]]))
        for u, v in E:
            s.req(s.Iff(A[u, v], s.Xor(allo[u, v], allo[v, u])))
            s.req(s.And(allo[u, v], allo[v, u]) ^ 1)
        s.req(s.one_component(fly | {v: s.Or(fly[v], *[A[v, q] for q in nb[v]]) for v in V}, lambda a, q: A[a, q], lambda r, c: nb[r, c]))
        for it in ff:
            num = next((t for t in s.sel("text") if t.r is it.r and t.c is it.c), None)
            if num is None or not s.isint(num):
                continue
            dr, dc = {"1": (0, 1), "2": (1, 0), "3": (0, -1), "4": (-1, 0)}[it.val[-1]]
            st = {e: 0 for e in A}
            for r, c, l in s.where(it):
                if ((r, c), (r + dr, c + dc)) in st:
                    st[(r, c), (r + dr, c + dc)] = l
            o = trace(st)
            bends = []
            for v in V:
                for u in nb[v]:
                    for w in nb[v]:
                        if u != w and (u[0] + w[0], u[1] + w[1]) != (2 * v[0], 2 * v[1]):
                            bends.append(s.And(o[u, v], o[v, w], fly[v] ^ 1))
            s.req(s.num_is(bends, num.val))


class FiveCells(Spec):
    name = "fivecells"
    boards = [(2, 5), (5, 2), (2, 3), (1, 5)]
    thorough_boards = [(3, 5)]
    K = 5

    def build(self, b):
        if b.rows * b.cols % self.K:
            return
        n = b.choose([0, 1, 2])
        b.texts(n, range(0, 5), ["?"])
        if n < 2:
            b.edges([0, 1])

    may_be_empty = True

    def spec(self, s):
        if len(s.cells) % self.K:
            s.bad(1)
            return
        same = s.regions()
        sizes_are(s, same, self.K)
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is(edges_around(s, r, c), it.val))


class FourCells(FiveCells):
    name = "fourcells"
    boards = [(2, 4), (4, 2), (2, 3), (3, 4), (4, 4)]
    thorough_boards = [(4, 5)]
    K = 4


class Geradeweg(Spec):
    name = "geradeweg"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = []

    def build(self, b):
        n = b.choose([0, 1, 2])
        b.texts(n, range(0, 4), ["?"])
        if n < 2:
            gline(b)

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.witness("*2", lambda r, c: vis.get((r, c)))
        s.line_givens(D)

        def arm(r, c, d):
            dr, dc = s.DIR[d]
            out = {0: D[r, c, d] ^ 1}
            run, k = D[r, c, d], 0
            while run:
                k += 1
                r, c = r + dr, c + dc
                if not s.inb(r, c):
                    break
                out[k] = s.And(run, D[r, c, d] ^ 1)
                run = s.And(run, D[r, c, d])
            return out

        for it in s.sel("text"):
            for r, c, l in s.where(it):
                if s.isint(it):
                    s.req(s.Implies(l, s.Iff(vis[r, c], s.eq(it.val, 0) ^ 1)))
                else:
                    s.req(s.Implies(l, vis[r, c]))
                ar = {d: arm(r, c, d) for d in "udlr"}
                for i, a in enumerate("udlr"):
                    for e in "udlr"[i + 1 :]:
                        on = s.And(l, D[r, c, a], D[r, c, e])
                        if {a, e} in ({"u", "d"}, {"l", "r"}):
                            if s.isint(it):
                                s.req(s.Implies(on, s.dist_is(s.g.sum_dist([ar[a], ar[e]]), it.val)))
                        else:
                            s.req(s.Implies(on, s.Or([s.And(p, ar[e].get(k, 0)) for k, p in ar[a].items()])))
                            if s.isint(it):
                                s.req(s.Implies(on, s.dist_is(ar[a], it.val)))


class Gokigen(Spec):
    name = "gokigen"
    boards = [(2, 2), (2, 3), (3, 2), (3, 3), (1, 4)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        n = b.choose([0, 1, 2, 3])
        b.texts(n, range(0, 6), ["?"] if n < 3 else [], d="top_left", region={"rmax": b.rows, "cmax": b.cols})

    def spec(self, s):
        R, C = s.rows, s.cols
        dn = {rc: s.x("edge_diag_down", *rc) for rc in s.cells}
        up = {rc: s.x("edge_diag_up", *rc) for rc in s.cells}
        for rc in s.cells:
            s.req(s.Xor(dn[rc], up[rc]))
        V = [(r, c) for r in range(R + 1) for c in range(C + 1)]
        A = {}
        for r, c in s.cells:
            A[(r, c), (r + 1, c + 1)] = A[(r + 1, c + 1), (r, c)] = dn[r, c]
            A[(r + 1, c), (r, c + 1)] = A[(r, c + 1), (r + 1, c)] = up[r, c]
        nb = {v: [q for q in V if (v, q) in A] for v in V}
        # no cycle: repeatedly removing vertices of degree at most 1 removes everything
        alive = {v: 1 for v in V}
        for _ in range(len(V)):
            new = {v: s.And(alive[v], s.AtLeast([s.And(A[v, q], alive[q]) for q in nb[v]], 2)) for v in V}
            if new == alive:
                break
            alive = new
        for v in V:
            s.req(alive[v] ^ 1)
        for it in s.sel("text"):
            if s.isint(it):
                for r, c, l in s.where(it):
                    s.req(s.Implies(l, s.num_is([A[(r, c), q] for q in nb[r, c]], it.val)))
        s.witness("grid_direction", lambda r, c, d: A.get(((r, c), (r + (1 if "d" in d else -1), c + (1 if "r" in d else -1))), 0))


class Haisu(Spec):
    name = "haisu"
    boards = [(2, 3), (3, 3), (2, 4)]
    thorough_boards = [(3, 4)]
    cfgs = room_cfgs([(2, 3), (3, 3), (2, 4), (3, 4)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["SG", "S", "G", ""])
        cs = []
        for ch in k:
            cs.append(b.cell())
            b.put("text", *cs[-1], ch)
        if k == "SG":
            n = b.choose([0, 1, 2] if b.rows * b.cols < 9 else [0, 1])
            for i in range(n):
                rc = b.cell()
                b.put("text", *rc, b.int(1, 3) if i or b.choose([1, 0]) else "?")
                cs.append(rc)
        b.distinct(*cs)

    def spec(self, s):
        ts = list(s.sel("text"))
        S_ = [t for t in ts if t.val == "S"]
        G_ = [t for t in ts if t.val == "G"]
        if not S_ or not G_:
            s.bad(1)
            return
        st, en = s.has(S_), s.has(G_)
        I, O = {}, {}
        for rc in s.cells:
            for d in "lurd":
                I[rc + (d,)] = s.x("grid_in", *rc, d)
                O[rc + (d,)] = s.x("grid_out", *rc, d)
        for r, c in s.cells:
            s.req(s.Exactly([I[r, c, d] for d in "lurd"], 0) if st[r, c] == 1 else s.Ite(st[r, c], s.Or([I[r, c, d] for d in "lurd"]) ^ 1, s.Exactly([I[r, c, d] for d in "lurd"], 1)))
            s.req(s.Ite(en[r, c], s.Or([O[r, c, d] for d in "lurd"]) ^ 1, s.Exactly([O[r, c, d] for d in "lurd"], 1)))
            for d, (dr, dc) in s.DIR.items():
                n = (r + dr, c + dc)
                s.req(s.And(I[r, c, d], O[r, c, d]) ^ 1)
                if s.inb(*n):
                    s.req(s.Iff(O[r, c, d], I[n + (s.OPP[d],)]))
                else:
                    s.req(s.Or(O[r, c, d], I[r, c, d]) ^ 1)

        def into(a, q):
            """The path goes from a to q."""
            for d, (dr, dc) in s.DIR.items():
                if (a[0] + dr, a[1] + dc) == q:
                    return O[a + (d,)]
            return 0

        rch = s.reach_link(st, s.cells, into)
        for rc in s.cells:
            s.req(rch[rc])
        ro = s.room_of()
        for it in ts:
            if not s.isint(it):
                continue
            for r, c, l in s.where(it):
                # cells at or before (r, c) on the path
                bef = s.reach_link({(r, c): 1}, s.cells, lambda m, n: into(n, m))
                A = ro[r, c]
                ent = [s.And(st[q]) for q in s.cells if ro[q] == A]
                ent = [s.Or(ent)] + [
                    s.And(bef[q], into(a, q)) for q in s.cells if ro[q] == A for a in s.adj(*q) if ro[a] != A
                ]
                s.req(s.Implies(l, s.num_is(ent, it.val)))


class Hakoiri(Spec):
    name = "hakoiri"
    boards = [(3, 3), (2, 4), (3, 4), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = [
        {"board": (3, 3), "layout": ["AAB", "ABB", "ABB"]},
        {"board": (3, 3), "layout": ["AAA", "AAA", "BBB"], "x": True},
        {"board": (2, 4), "layout": ["AABB", "AABB"]},
        {"board": (3, 4), "layout": ["AAAB", "AAAB", "CCCB"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
        {"board": (4, 4), "layout": ["AAAA", "BBBA", "BCCA", "BBCC"]},
        {"board": (5, 5), "layout": ["AAABB", "ACCBB", "CCCBD", "EEFFD", "EEFFD"]},
    ]

    def build(self, b):
        b.rooms(b.cfg["layout"])
        n = b.choose([0, 1, 2])
        names = ["ox_E__1", "ox_E__2", "ox_E__3", "ox_B__1", "ox_E__4", "ox_B__7", "ox_E__8", "ox_E__5", "circle_L__1"]
        if n == 2:
            names = ["ox_E__1", "ox_E__4"]
        b.symbols(n, names)

    may_be_empty = True

    def spec(self, s):
        for it in s.sel("symbol"):
            if it.val in ("ox_E__5", "circle_L__1"):
                s.bad(1)
                return
        M = {k: s.xmap(f"ox_E__{k}") for k in "123"}
        full = {}
        for rc in s.cells:
            ls = [M[k][rc] for k in "123"]
            s.req(s.AtMost(ls, 1))
            full[rc] = s.Or(ls)
            for k in "123":
                for n in s.adj8(*rc):
                    s.req(s.And(M[k][rc], M[k][n]) ^ 1)
        s.witness("white", lambda r, c: full[r, c] ^ 1)
        s.req(s.connected(full))
        for cs in s.room_list().values():
            for k in "123":
                s.req(s.Exactly([M[k][c] for c in cs], 1))
        for it in s.sel("symbol"):
            k = it.val[-1]
            s.on(it, lambda r, c: M[k][r, c] if k in "123" else full[r, c] ^ 1)


class Hanare(Spec):
    name = "hanare"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)],
        own={(2, 4): [["AABB", "ACBB"], ["ABBB", "AAAA"]]},
    )
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        n = b.choose([0, 1, 2])
        ts = b.texts(n, range(1, 6), ["?"] if n == 1 else [])
        k = b.choose(["none", "GREEN", "BLACK"]) if n < 2 else "none"
        if k != "none":
            it = b.surfaces(1, [k])[0]
            b.distinct((it.r, it.c), *[(t.r, t.c) for t in ts])

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")) or any(i.val.name != "GREEN" for i in s.sel("surface")):
            s.bad(1)
            return
        ro, rooms = s.room_of(), s.room_list()
        n = {rc: s.x("number", *rc, len(rooms[ro[rc]])) for rc in s.cells}
        s.witness("white", lambda r, c: n[r, c] ^ 1)
        for cs in rooms.values():
            s.req(s.Exactly([n[c] for c in cs], 1))
        for a in s.cells:
            for ray in s.rays(*a):
                clear = n[a]
                for i, q in enumerate(ray):
                    if abs(len(rooms[ro[a]]) - len(rooms[ro[q]])) != i:
                        s.req(s.And(clear, n[q]) ^ 1)
                    clear = s.And(clear, n[q] ^ 1)
        for it in s.sel("text"):
            for r, c, l in s.where(it):
                s.unsure(s.And(l, s.eq(it.val, len(rooms[ro[r, c]])) ^ 1))
            s.on(it, lambda r, c: n[r, c])
        for it in s.sel("surface"):
            s.on(it, lambda r, c: n[r, c] ^ 1)


class Hashi(Spec):
    name = "hashi"
    boards = [(3, 3), (2, 4), (3, 4), (1, 5)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        n = b.choose([0, 1, 2, 3, 4])
        b.texts(n, range(0, 9), ["?"] if n == 2 else [])
        if n in (2, 3):
            r, c = b.cell()
            k = b.choose(["none", "r_1", "r_2", "d_1", "d_2", "l_2"])
            if k != "none":
                b.put("line", r, c, True, pos=k)

    def spec(self, s):
        D = {}
        for r, c in s.cells:
            for d in "lrud":
                for v in (1, 2):
                    D[r, c, d, v] = s.x("grid_direction", r, c, d, v)
                s.req(s.And(D[r, c, d, 1], D[r, c, d, 2]) ^ 1)
        isl = s.has(s.sel("text"))
        use = {}
        for r, c in s.cells:
            for d, (dr, dc) in s.DIR.items():
                n = (r + dr, c + dc)
                for v in (1, 2):
                    s.req(s.Iff(D[r, c, d, v], D[n[0], n[1], s.OPP[d], v]) if s.inb(*n) else D[r, c, d, v] ^ 1)
            any_ = {d: s.Or(D[r, c, d, 1], D[r, c, d, 2]) for d in "lrud"}
            use[r, c] = s.Or(isl[r, c], *any_.values())
            pas = s.And(
                *[s.Iff(D[r, c, a, v], D[r, c, e, v]) for a, e in ("lr", "ud") for v in (1, 2)],
                s.And(any_["l"], any_["u"]) ^ 1,
            )
            s.req(s.Or(isl[r, c], pas))
        s.witness("hashi", lambda r, c: use[r, c])
        lnk = lambda a, q: s.Or([s.Or(D[a + (d, 1)], D[a + (d, 2)]) for d, (dr, dc) in s.DIR.items() if (a[0] + dr, a[1] + dc) == q])
        s.req(s.one_component(use, lnk))
        for it in s.sel("text"):
            if s.isint(it):
                s.on(
                    it,
                    lambda r, c: s.dist_is(
                        s.g.sum_dist([{0: s.Or(D[r, c, d, 1], D[r, c, d, 2]) ^ 1, 1: D[r, c, d, 1], 2: D[r, c, d, 2]} for d in "lrud"]),
                        it.val,
                    ),
                )
        for it in s.sel("line"):
            s.on(it, lambda r, c: D[r, c, it.pos[0], int(it.pos[2])])


class Heteromino(Spec):
    name = "heteromino"
    boards = [(3, 3), (2, 3), (3, 2), (2, 5), (3, 4)]
    thorough_boards = [(4, 4)]
    may_be_empty = True

    def build(self, b):
        left = b.rows * b.cols
        h = b.choose([0, 1, 2])
        if h and b.choose([0, 1]) and left > 9:
            h += 1
        for r, c in b.slots(h):
            b.put("surface", r, c, b.Color["BLACK" if h == 1 else "GRAY"])
        if h == 1:
            b.edges([0, 1])

    def spec(self, s):
        hole = s.has(s.sel("surface"))
        k = len(s.cells) - len(list(s.sel("surface")))
        if k % 3:
            s.bad(1)
            return
        same = s.regions()
        hole_edges(s, hole)
        for a in s.cells:
            s.req(s.Implies(hole[a] ^ 1, s.Exactly([same(a, q) for q in s.cells], 3)))
        shapes = [
            ((0, 0), (0, 1), (0, 2)),
            ((0, 0), (1, 0), (2, 0)),
            ((0, 0), (0, 1), (1, 0)),
            ((0, 0), (0, 1), (1, 1)),
            ((0, 0), (1, 0), (1, 1)),
            ((0, 0), (1, -1), (1, 0)),
        ]
        for sh in shapes:
            pl = []
            for r, c in s.cells:
                cs = [(r + a, c + e) for a, e in sh]
                if all(s.inb(*q) for q in cs):
                    pl.append((set(cs), s.And(hole[cs[0]] ^ 1, same(cs[0], cs[1]), same(cs[0], cs[2]))))
            for i, (p, l) in enumerate(pl):
                for q, m in pl[:i]:
                    if not p & q and any(n in q for a in p for n in s.adj(*a)):
                        s.req(s.And(l, m) ^ 1)


def heya_lines(s, w):
    """No straight run of w cells through three rooms."""
    ro = s.room_of()
    for rc in s.cells:
        for ray in (s.rays(*rc)[1], s.rays(*rc)[3]):
            run, k, last = [w[rc]], 0, rc
            for q in ray:
                run.append(w[q])
                if ro[q] != ro[last]:
                    k += 1
                    if k == 2:
                        s.req(s.And(run) ^ 1)
                        break
                last = q


class Heyablock(Spec):
    name = "heyablock"
    boards = [(3, 3), (2, 4), (4, 3), (1, 5), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (1, 5), (4, 4), (5, 5)]) + [
        {"board": (1, 5), "layout": ["ABBBC"]},
        {"board": (4, 3), "layout": ["AAA", "BBA", "BBA", "CCC"]},
    ]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2, range(0, 6))

    def spec(self, s):
        x = s.xmap("gray")
        w = {k: v ^ 1 for k, v in x.items()}
        s.req(s.connected(w))
        num = s.has([t for t in s.sel("text") if s.isint(t)])
        for cs in s.room_list().values():
            s.req(s.connected({c: x[c] for c in cs}))
            s.req(s.Or([x[c] for c in cs] + [num[c] for c in cs]))
        for a, n in borders(s):
            s.req(s.And(x[a], x[n]) ^ 1)
        heya_lines(s, w)
        room_counts(s, x)
        s.shade_givens(x)


class Heyawake(Spec):
    name = "heyawake"
    boards = Heyablock.boards
    thorough_boards = [(5, 5)]
    cfgs = [{**c, "fast": False} for c in Heyablock.cfgs] + [
        {"board": (3, 4), "layout": ["AAAB", "AAAB", "CCBB"], "fast": True},
        {"board": (4, 4), "layout": ["AAAA", "AAAA", "BBCC", "BBCC"], "fast": True},
    ]
    boards = [*Heyablock.boards, (3, 4)]
    may_be_empty = True

    def build(self, b):
        b.param = {"fast_mode": b.cfg["fast"], "limit_border": 0, "limit_2x2": "1"}
        b.rooms(b.cfg["layout"])
        std(b, 2, range(0, 6))

    def spec(self, s):
        s.incomplete = s.cfg["fast"]
        x = s.xmap("gray")
        w = {k: v ^ 1 for k, v in x.items()}
        s.req(s.connected(w))
        s.req(s.no_adj(x))
        heya_lines(s, w)
        room_counts(s, x)
        s.shade_givens(x)


class Hinge(Spec):
    name = "hinge"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = []
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2 if b.rows * b.cols < 12 else 1, range(0, 6))

    def spec(self, s):
        x = s.xmap("gray")
        same = s.comp(x)
        ro = s.room_of()
        segs = []
        for r in range(1, s.rows):
            cur = []
            for c in range(s.cols + 1):
                if c < s.cols and ro[r, c] != ro[r - 1, c]:
                    cur.append(((r - 1, c), (r, c)))
                elif cur:
                    segs.append((("H", r), cur))
                    cur = []
        for c in range(1, s.cols):
            cur = []
            for r in range(s.rows + 1):
                if r < s.rows and ro[r, c] != ro[r, c - 1]:
                    cur.append(((r, c - 1), (r, c)))
                elif cur:
                    segs.append((("V", c), cur))
                    cur = []
        for a in s.cells:
            cross = []
            for (k, n), es in segs:
                l = s.And(x[a], s.Or([s.And(same(a, p), same(a, q)) for p, q in es]))
                cross.append(l)
                m = (2 * n - 1 - a[0], a[1]) if k == "H" else (a[0], 2 * n - 1 - a[1])
                s.req(s.Implies(l, s.And(x[m], same(a, m)) if s.inb(*m) else 0))
            s.req(s.Implies(x[a], s.Exactly(cross, 1)))
        room_counts(s, x)
        s.shade_givens(x)


class Hitori(Spec):
    name = "hitori"
    boards = [(3, 3), (2, 4), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        for r in range(b.rows):
            for c in range(b.cols):
                b.put("text", r, c, b.int(1, 3))
        givens(b)

    def spec(self, s):
        x = s.xmap("black")
        s.req(s.no_adj(x))
        s.req(s.connected({k: v ^ 1 for k, v in x.items()}))
        N = {(t.r, t.c): s.dist(t.val) for t in s.sel("text")}
        for a in s.cells:
            for q in s.cells:
                if q > a and (q[0] == a[0] or q[1] == a[1]):
                    e = s.Or([s.And(l, N[q].get(v, 0)) for v, l in N[a].items()])
                    s.req(s.And(x[a] ^ 1, x[q] ^ 1, e) ^ 1)
        s.shade_givens(x)


class Juosan(Spec):
    name = "juosan"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        b.texts([0, 1, 2], range(0, 6), ["?"], pos="sudoku_0")

    def spec(self, s):
        h = {rc: s.x("content", *rc, "——") for rc in s.cells}
        v = {rc: s.x("content", *rc, "|") for rc in s.cells}
        for r, c in s.cells:
            s.req(s.Xor(h[r, c], v[r, c]))
            if r + 2 < s.rows:
                s.req(s.And(h[r, c], h[r + 1, c], h[r + 2, c]) ^ 1)
            if c + 2 < s.cols:
                s.req(s.And(v[r, c], v[r, c + 1], v[r, c + 2]) ^ 1)
        s.witness("black", lambda r, c: h[r, c])
        s.one_per_room(s.sel("text"))
        for it in s.sel("text"):
            if s.isint(it):
                s.on_room(it, lambda cs: s.Or(s.num_is([h[c] for c in cs], it.val), s.num_is([v[c] for c in cs], it.val)))
