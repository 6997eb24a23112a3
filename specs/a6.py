"""Rule specifications: shakashaka .. stostone."""

from puz import Spec

from specs.lib import (
    edges_around,
    givens,
    gline,
    no_crossing,
    rects,
    room_cfgs,
    room_counts,
    std,
)


class Shakashaka(Spec):
    name = "shakashaka"
    boards = [(2, 2), (3, 3), (2, 4), (3, 4), (4, 4)]
    thorough_boards = [(5, 4)]

    def build(self, b):
        k = b.choose(["", "B", "n", "?", "nB", "nn", "BB", "G"] + (["BBB", "nnB"] if b.rows * b.cols > 9 else []))
        cs = []
        for ch in k:
            cs.append(b.cell())
            b.put("surface", *cs[-1], b.Color["GREEN" if ch == "G" else "GRAY" if ch == "?" else "BLACK"])
            if ch in "n?":
                b.put("text", *cs[-1], "?" if ch == "?" else b.int(0, 4))
        b.distinct(*cs)

    def spec(self, s):
        if any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        bl = s.has(list(s.sel("surface")))
        T = {(q, k): s.x("triangle", *q, k) for q in s.cells for k in ("ul", "ur", "dl", "dr")}
        for q in s.cells:
            tri = [T[q, k] for k in ("ul", "ur", "dl", "dr")]
            s.req(s.AtMost(tri, 1))
            s.req(s.Implies(bl[q], s.Or(tri) ^ 1))
        s.witness("white", lambda r, c: s.And(bl[r, c] ^ 1, *[T[(r, c), k] ^ 1 for k in ("ul", "ur", "dl", "dr")]))
        # the name of a triangle is its black corner; each cell consists of four quarters
        side = {"n": ("ul", "ur"), "s": ("dl", "dr"), "w": ("ul", "dl"), "e": ("ur", "dr")}

        def quarter(r, c, k):
            if not s.inb(r, c):
                return 0
            return s.And(bl[r, c] ^ 1, *[T[(r, c), t] ^ 1 for t in side[k]])

        # around every point of the grid the white sectors form arcs of 90, 180 or 360 degrees: no other corner exists
        for r in range(s.rows + 1):
            for c in range(s.cols + 1):
                ring = [
                    quarter(r - 1, c, "w"),
                    quarter(r - 1, c, "s"),
                    quarter(r, c, "n"),
                    quarter(r, c, "w"),
                    quarter(r, c - 1, "e"),
                    quarter(r, c - 1, "n"),
                    quarter(r - 1, c - 1, "s"),
                    quarter(r - 1, c - 1, "e"),
                ]
                for i in range(8):
                    for n in (1, 3, 5, 6, 7):
                        arc = [ring[(i + k) % 8] for k in range(n)]
                        s.req(s.And(ring[i - 1] ^ 1, ring[(i + n) % 8] ^ 1, *arc) ^ 1)
        for t in s.sel("text"):
            if s.isint(t):
                s.on(t, lambda r, c: s.num_is([s.Or([T[n, k] for k in ("ul", "ur", "dl", "dr")]) for n in s.adj(r, c)], t.val))


def rect_division(s, square=False):
    """Every region is a rectangle (square); rectangle -> literal: it is a region."""
    same = s.regions()
    by = {q: [] for q in s.cells}
    out = {}
    for r1, c1, r2, c2 in rects(s):
        if square and r2 - r1 != c2 - c1:
            continue
        cs = [(r, c) for r in range(r1, r2 + 1) for c in range(c1, c2 + 1)]
        l = s.And([same(cs[0], q) if q in cs else same(cs[0], q) ^ 1 for q in s.cells])
        out[r1, c1, r2, c2] = l
        for q in cs:
            by[q].append(l)
    for q in s.cells:
        s.req(s.Or(by[q]))
    return same, out


class Shikaku(Spec):
    name = "shikaku"
    boards = [(2, 2), (3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        k = b.choose(["", "n", "?", "nn", "n?", "ne", "??e", "nnn", "??"])
        ts = []
        for ch in k:
            if ch == "e":
                b.edges(1)
            else:
                ts.append((ch, b.cell()))
                b.put("text", *ts[-1][1], "?" if ch == "?" else b.int(1, min(9, b.rows * b.cols)))
                if len(ts) > 1 and ts[-2][0] == ch == "?":
                    b.after(ts[-2][1], ts[-1][1])
        b.distinct(*[q for _, q in ts])

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        same, R = rect_division(s)
        clue = s.has(ts)
        for q in s.cells:
            s.req(s.Exactly([s.And(clue[a], same(a, q)) for a in s.cells], 1))
        for t in ts:
            if s.isint(t):
                s.on(t, lambda r, c: s.num_is([same((r, c), q) for q in s.cells], t.val))


class Usotatami(Shikaku):
    name = "usotatami"

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        same, R = rect_division(s)
        no_crossing(s)
        for (r1, c1, r2, c2), l in R.items():
            if r1 != r2 and c1 != c2:
                s.req(l ^ 1)
        clue = s.has(ts)
        for q in s.cells:
            s.req(s.Exactly([s.And(clue[a], same(a, q)) for a in s.cells], 1))
        for t in ts:
            if s.isint(t):
                s.on(t, lambda r, c: s.num_is([same((r, c), q) for q in s.cells], t.val) ^ 1)


class SquareJam(Spec):
    name = "squarejam"
    boards = [(2, 2), (3, 3), (2, 3), (4, 3)]
    thorough_boards = [(4, 4), (5, 5)]

    def build(self, b):
        k = b.choose(["", "n", "?", "nn", "n?", "ne", "?e"])
        ts = []
        for ch in k:
            if ch == "e":
                b.edges(1)
            else:
                ts.append(b.cell())
                b.put("text", *ts[-1], "?" if ch == "?" else b.int(1, max(b.rows, b.cols)))
        b.distinct(*ts)

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        same, R = rect_division(s, square=True)
        no_crossing(s)
        for t in ts:
            if s.isint(t):
                for r, c, l in s.where(t):
                    ok = []
                    for (r1, c1, r2, c2), q in R.items():
                        if r1 <= r <= r2 and c1 <= c <= c2:
                            ok.append(s.And(q, s.eq(t.val, r2 - r1 + 1)))
                    s.req(s.Implies(l, s.Or(ok)))


class Shimaguni(Spec):
    name = "shimaguni"
    boards = [(3, 3), (2, 4), (3, 4), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = [
        *room_cfgs(
        [(3, 3), (2, 4), (3, 4)],
        own={(3, 3): [["AAA", "BBB", "BBC"], ["ABB", "AAA", "CCC"], ["AAB", "CAB", "CCC"]], (2, 4): [["AABB", "CABD"], ["AAAB", "BBBB"]], (3, 4): [["ABCD", "BBCD", "BBDD"], ["AAAB", "CAAB", "CBBB"]], (4, 4): [["AABB", "CBBB", "CBDD", "CCDD"], ["AAAB", "ACCB", "ACCB", "DDCB"]], (4, 3): [["AAB", "ACB", "CCB", "DDD"], ["ABB", "ABC", "DDC", "DEE"]]},
    ),
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
        {"board": (4, 4), "layout": ["AAAB", "CABB", "CCBB", "CCCC"]},
        *room_cfgs([(5, 5)]),
    ]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2, range(1, 5))

    def spec(self, s):
        x = s.xmap("gray")
        same = s.comp(x)
        rooms, ro = s.room_list(), s.room_of()
        s.one_per_room(s.sel("text"))
        for cs in rooms.values():
            s.req(s.Or([x[q] for q in cs]))
        for a in s.cells:
            for q in s.cells:
                if a < q:
                    # one island per room, islands do not touch over a border
                    if ro[a] == ro[q]:
                        s.req(s.Implies(s.And(x[a], x[q]), same(a, q)))
                    elif q in s.adj(*a):
                        s.req(s.And(x[a], x[q]) ^ 1)
        near = {(ro[a], ro[q]) for a in s.cells for q in s.adj(*a) if ro[a] < ro[q]}
        for i, j in near:
            for n in range(1, min(len(rooms[i]), len(rooms[j])) + 1):
                s.req(s.And(s.Exactly([x[q] for q in rooms[i]], n), s.Exactly([x[q] for q in rooms[j]], n)) ^ 1)
        for it in s.sel("text"):
            if s.isint(it):
                s.on_room(it, lambda cs: s.num_is([x[c] for c in cs], it.val))
        s.shade_givens(x)


class Simplegako(Spec):
    name = "simplegako"
    boards = [(2, 2), (3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4), (3, 5)]

    def build(self, b):
        k = b.choose(["", "n", "nn", "?"])
        ts = []
        for ch in k:
            ts.append(b.cell())
            b.put("text", *ts[-1], "?" if ch == "?" else b.int(1, b.rows + b.cols - 1))
        b.distinct(*ts)

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N = s.numbers(range(1, s.rows + s.cols))
        for r, c in s.cells:
            for v, l in N[r, c].items():
                same = [N[r, i][v] for i in range(s.cols)] + [N[i, c][v] for i in range(s.rows) if i != r]
                s.req(s.Implies(l, s.Exactly(same, v)))
        s.num_givens(N)


class SimpleLoop(Spec):
    name = "simpleloop"
    boards = [(2, 2), (3, 4), (4, 4), (2, 5)]
    thorough_boards = [(4, 5), (5, 5)]

    def build(self, b):
        k = b.choose(["", "B", "BB", "Bl", "l", "ll", "G", "BBB"])
        cs = []
        for ch in k:
            if ch == "l":
                gline(b)
            else:
                cs.append(b.cell())
                b.put("surface", *cs[-1], b.Color["GREEN" if ch == "G" else "GRAY" if k == "BB" else "BLACK"])
                if len(cs) > 1:
                    b.after(cs[-2], cs[-1])

    def spec(self, s):
        if any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        bl = s.has(list(s.sel("surface")))
        D = s.path()
        vis = s.single_loop(D)
        for q in s.cells:
            s.req(s.Iff(vis[q], bl[q] ^ 1))
        s.line_givens(D)


class Skyscrapers(Spec):
    name = "skyscrapers"
    boards = [(2, 2), (3, 3), (4, 4), (2, 3)]
    thorough_boards = [(5, 5)]
    may_be_empty = True

    def build(self, b):
        R, C = b.rows, b.cols
        k = b.choose(["", "t", "b", "l", "r", "n", "tl", "br", "tb", "nr", "?", "lr"])
        for ch in k:
            v = "?" if ch == "?" else b.int(1, R)
            r, c = b.cell()
            if ch in "tb":
                r = -1 if ch == "t" else R
            if ch in "lr":
                c = -1 if ch == "l" else C
            b.put("text", r, c, v, tag=ch)

    def spec(self, s):
        n = s.rows
        if n != s.cols or any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N = s.numbers(range(1, n + 1))
        for i in range(n):
            for v in range(1, n + 1):
                s.req(s.Exactly([N[i, j][v] for j in range(n)], 1))
                s.req(s.Exactly([N[j, i][v] for j in range(n)], 1))

        def seen(line):
            out = []
            for i, q in enumerate(line):
                out.append(
                    s.Or(
                        [
                            s.And(N[q][v], *[s.Or([N[p][w] for w in range(1, v)]) for p in line[:i]])
                            for v in range(1, n + 1)
                        ]
                    )
                )
            return out

        for t in s.sel("text"):
            if t.tag == "n":
                s.on(t, lambda r, c: s.Or([s.And(s.eq(t.val, v), N[r, c][v]) for v in N[r, c]]))
                continue
            for i in range(n):
                at = s.eq(t.c if t.tag in "tb" else t.r, i)
                line = [(j, i) if t.tag in "tb" else (i, j) for j in range(n)]
                if t.tag in "br":
                    line.reverse()
                s.req(s.Implies(at, s.num_is(seen(line), t.val)))


def vertex_loop(s, name):
    """One closed loop of border segments over the points of the grid. Returns (top, left) segments, visited points."""
    R, C = s.rows, s.cols
    E = {}
    for r in range(R + 1):
        for c in range(C):
            E[(r, c), (r, c + 1)] = s.x("edge_top", r, c)
    for r in range(R):
        for c in range(C + 1):
            E[(r, c), (r + 1, c)] = s.x("edge_left", r, c)
    A = {}
    for (a, q), l in E.items():
        A[a, q] = A[q, a] = l
    V = [(r, c) for r in range(R + 1) for c in range(C + 1)]
    nb = {v: [q for q in V if (v, q) in A] for v in V}
    vis = {}
    for v in V:
        ls = [A[v, q] for q in nb[v]]
        vis[v] = s.Or(ls)
        s.req(s.Implies(vis[v], s.Exactly(ls, 2)))
    s.req(s.one_component(vis, lambda a, q: A.get((a, q), 0), lambda r, c: nb[r, c]))
    s.witness(name, lambda r, c: vis.get((r, c)))
    dirs = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}
    s.witness("grid_direction", lambda r, c, d: A.get(((r, c), (r + dirs[d][0], c + dirs[d][1])), 0))
    top = {(r, c): E[(r, c), (r, c + 1)] for r in range(R + 1) for c in range(C)}
    left = {(r, c): E[(r, c), (r + 1, c)] for r in range(R) for c in range(C + 1)}
    for it in s.sel("edge"):
        for r, c, l in s.where(it):
            e = (top if it.d == "top" else left)[r, c]
            s.req(s.Implies(l, e if it.val else e ^ 1))
    return top, left, vis


class Slitherlink(Spec):
    name = "slitherlink"
    boards = [(2, 2), (2, 3), (3, 3), (1, 3), (4, 2)]
    thorough_boards = [(3, 4), (4, 4)]
    cfgs = [{"v": v} for v in ("", "swslither", "tslither", "vslither")]
    may_be_empty = True

    def build(self, b):
        for v in ("swslither", "tslither", "vslither"):
            b.param[v] = b.cfg["v"] == v
        k = b.choose(["", "n", "nn", "e", "ne", "?", "W", "S", "WS", "nW", "Se"])
        ts = []
        for ch in k:
            if ch == "e":
                b.edges(1, inner=False)
            else:
                ts.append(b.cell())
                b.put("text", *ts[-1], b.int(0, 4) if ch == "n" else ch)
        b.distinct(*ts)

    def spec(self, s):
        v = s.cfg["v"]
        for t in s.sel("text"):
            if not s.isint(t) and not (v == "swslither" and t.val in ("S", "W")):
                s.bad(1)
                return
        top, left, vis = vertex_loop(s, "slither")
        for t in s.sel("text"):
            for r, c, l in s.where(t):
                edges = [top[r, c], top[r + 1, c], left[r, c], left[r, c + 1]]
                pts = [vis[r, c], vis[r + 1, c], vis[r, c + 1], vis[r + 1, c + 1]]
                if not s.isint(t):
                    out = 0
                    for i in range(r + 1):
                        out = s.Xor(out, top[i, c])
                    s.req(s.Implies(l, out if t.val == "S" else out ^ 1))
                elif v == "vslither":
                    s.req(s.Implies(l, s.num_is(pts, t.val)))
                elif v == "tslither":
                    # separate stretches of the loop along the cell: its corners on the loop that do not continue
                    s.unsure(s.And(l, *edges))
                    ring = [(top[r, c], vis[r, c]), (left[r, c + 1], vis[r, c + 1]), (top[r + 1, c], vis[r + 1, c + 1]),
                            (left[r, c], vis[r + 1, c])]
                    ends = [s.And(p, e ^ 1) for e, p in ring]
                    s.req(s.Implies(l, s.num_is(ends, t.val)))
                else:
                    s.req(s.Implies(l, s.num_is(edges, t.val)))


class Snake(Spec):
    name = "snake"
    boards = [(2, 2), (3, 3), (2, 5), (4, 3)]
    thorough_boards = [(4, 4), (4, 5)]

    def build(self, b):
        k = b.choose(["", "t", "l", "tl", "?", "e", "m", "ee", "em", "te", "B", "W", "lW", "mm"])
        cs = []
        for ch in k:
            r, c = b.cell()
            if ch == "t":
                b.put("text", -1, c, b.int(0, 5))
            elif ch == "l":
                b.put("text", r, -1, b.int(0, 5))
            elif ch == "?":
                b.put("text", r, -1, "?")
            elif ch in "em":
                b.put("symbol", r, c, "circle_L__2" if ch == "e" else "circle_L__1")
                cs.append((r, c))
            else:
                b.put("surface", r, c, b.Color["GRAY" if ch == "B" else "GREEN"])
        b.distinct(*cs)

    def spec(self, s):
        x = s.xmap("gray")
        end = {}
        for q in s.cells:
            n = [x[a] for a in s.adj(*q)]
            end[q] = s.And(x[q], s.Exactly(n, 1))
            s.req(s.Implies(x[q], s.Or(s.Exactly(n, 1), s.Exactly(n, 2))))
        s.req(s.Exactly(list(end.values()), 2))
        s.req(s.connected(x))
        for r in range(s.rows - 1):
            for c in range(s.cols - 1):
                for a, q, m, n in (((r, c), (r + 1, c + 1), (r, c + 1), (r + 1, c)), ((r, c + 1), (r + 1, c), (r, c), (r + 1, c + 1))):
                    s.req(s.Implies(s.And(x[a], x[q]), s.Or(x[m], x[n])))
        for t in s.sel("text"):
            if not s.isint(t):
                continue
            for r, c, l in s.where(t):
                line = [x[i, c] for i in range(s.rows)] if r == -1 else [x[r, i] for i in range(s.cols)]
                s.req(s.Implies(l, s.num_is(line, t.val)))
        for t in s.sel("symbol"):
            s.on(t, lambda r, c: end[r, c] if t.val == "circle_L__2" else s.And(x[r, c], end[r, c] ^ 1))
        s.shade_givens(x)
