"""Rule specifications, mines to nothree."""

from puz import Spec
from specs.a3 import latin
from specs.lib import (
    borders,
    edges_around,
    givens,
    gline,
    no_rects,
    only_rects,
    rect_is_comp,
    rects,
    room_cfgs,
    sizes_are,
    std,
)

assert latin


class Mines(Spec):
    name = "mines"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        k = b.choose(["", "n", "nn", "nm", "?", "m", "X", "M", "nM"])
        b.param = {"mine_count": ""}
        cs = []
        for ch in k:
            if ch == "n":
                cs.append(b.cell())
                b.put("text", *cs[-1], b.int(0, 9))
            elif ch == "?":
                b.put("text", *b.cell(), "?")
            elif ch in "mX":
                b.put("symbol", *b.cell(), "sun_moon__4" if ch == "m" else "sun_moon__1")
            else:
                b.param["mine_count"] = "2" if k == "M" else "x1"
        b.distinct(*cs)

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")) or s.param["mine_count"] == "x1":
            s.bad(1)
            return
        if any(t.val != "sun_moon__4" for t in s.sel("symbol")):
            s.bad(1)
            return
        x = s.xmap("sun_moon__4")
        for it in s.sel("text"):
            s.on(it, lambda r, c: s.And(x[r, c] ^ 1, s.num_is([x[n] for n in s.adj8(r, c)], it.val)))
        for it in s.sel("symbol"):
            s.on(it, lambda r, c: x[r, c])
        if s.param["mine_count"]:
            s.req(s.Exactly(list(x.values()), int(s.param["mine_count"])))


class Mochikoro(Spec):
    name = "mochikoro"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    no_black_rects = False

    def build(self, b):
        std(b, 2, range(1, 9))

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        x = s.xmap("black")
        w = {k: v ^ 1 for k, v in x.items()}
        s.witness("green", lambda r, c: w[r, c])
        s.req(s.no2x2(x))
        only_rects(s, w)
        s.req(s.connected(w, s.adj8))
        if self.no_black_rects:
            no_rects(s, x)
        clue = s.has(ts)
        comp = {q: rect_is_comp(s, w, *q) for q in rects(s)}
        for (r1, c1, r2, c2), l in comp.items():
            cs = [(r, c) for r in range(r1, r2 + 1) for c in range(c1, c2 + 1)]
            s.req(s.Implies(s.And(l, w[r1, c1]), s.AtMost([clue[q] for q in cs], 1)))
        for it in ts:
            s.on(it, lambda r, c: w[r, c])
            if s.isint(it):
                for (r1, c1, r2, c2), l in comp.items():
                    n = (r2 - r1 + 1) * (c2 - c1 + 1)
                    for r, c, at in s.where(it):
                        if r1 <= r <= r2 and c1 <= c <= c2:
                            s.req(s.Implies(s.And(l, w[r1, c1], at), s.eq(it.val, n)))
        s.shade_givens(x)


class Mochinyoro(Mochikoro):
    name = "mochinyoro"
    no_black_rects = True


class MoonSun(Spec):
    name = "moonsun"
    cfgs = [
        {"board": (2, 4), "layout": ["AABB", "AABB"]},
        {"board": (3, 3), "layout": ["AAB", "ABB", "ABB"], "x": True},
        {"board": (3, 4), "layout": ["AAAB", "ABBB", "ABBB"]},
        {"board": (3, 4), "layout": ["AABB", "AABB", "AABB"]},
        {"board": (3, 4), "layout": ["AABB", "AABB", "CCDD"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
        {"board": (3, 3), "layout": ["AAB", "CAB", "CCC"]},
    ]
    boards = [(2, 4), (3, 3), (3, 4), (4, 4)]
    thorough_boards = []
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "m", "ms", "mmss", "mss", "ml", "mmsl"])
        cs = []
        for ch in k:
            if ch == "l":
                gline(b)
            else:
                cs.append(b.cell())
                b.put("symbol", *cs[-1], "sun_moon__1" if ch == "m" else "sun_moon__2")
        b.distinct(*cs)

    def spec(self, s):
        rooms, ro = s.room_list(), s.room_of()
        if len(rooms) % 2:
            s.bad(1)
            return
        D = s.path()
        vis = s.single_loop(D)
        s.witness("moon_sun", lambda r, c: vis[r, c])
        s.line_givens(D)
        moon = s.has([t for t in s.sel("symbol") if t.val[-1] == "1"])
        sun = s.has([t for t in s.sel("symbol") if t.val[-1] == "2"])
        suns = {}
        for k, cs in rooms.items():
            out = [s.lnk(D, a, n) for a in cs for n in s.adj(*a) if ro[n] != k]
            s.req(s.Exactly(out, 2))
            pm = [s.And(moon[q], vis[q]) for q in cs]
            ps = [s.And(sun[q], vis[q]) for q in cs]
            allm = s.And([s.Implies(moon[q], vis[q]) for q in cs])
            alls = s.And([s.Implies(sun[q], vis[q]) for q in cs])
            suns[k] = s.Or(ps)
            s.req(
                s.Or(
                    s.And(s.Or(pm), allm, s.Or(ps) ^ 1),
                    s.And(s.Or(ps), alls, s.Or(pm) ^ 1),
                )
            )
        for a, n in borders(s):
            s.req(s.Implies(s.lnk(D, a, n), s.Xor(suns[ro[a]], suns[ro[n]])))


class Myopia(Spec):
    name = "myopia"
    boards = [(2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (5, 1), (2, 5)]
    thorough_boards = [(3, 4)]

    def build(self, b):
        n = b.choose([0, 1, 2])
        ar = [64, 128, 16, 32, 64 + 128, 16 + 32, 64 + 16, 128 + 32, 64 + 128 + 16]
        for i, (r, c) in enumerate(b.slots(n)):
            b.put("symbol", r, c, f"arrow_cross__{b.choose(ar if i == 0 else [64, 128 + 32])}", pos="multiple")
        if n < 2:
            b.edges([0, 1], inner=False)

    def spec(self, s):
        R, C = s.rows, s.cols
        V = {(r, c): 0 for r in range(R + 1) for c in range(C + 1)}
        E = {}
        for r in range(R + 1):
            for c in range(C):
                E[(r, c), (r, c + 1)] = s.x("edge_top", r, c)
        for r in range(R):
            for c in range(C + 1):
                E[(r, c), (r + 1, c)] = s.x("edge_left", r, c)
        A = {}
        for (a, q), l in E.items():
            A[a, q] = A[q, a] = l
        nb = {v: [q for q in V if (v, q) in A] for v in V}
        vis = {}
        for v in V:
            ls = [A[v, q] for q in nb[v]]
            vis[v] = s.Or(ls)
            s.req(s.Implies(vis[v], s.Exactly(ls, 2)))
        s.req(s.one_component(vis, lambda a, q: A.get((a, q), 0), lambda r, c: nb[r, c]))
        s.witness("myopia", lambda r, c: vis.get((r, c)))
        dirs = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}
        s.witness("grid_direction", lambda r, c, d: A.get(((r, c), (r + dirs[d][0], c + dirs[d][1])), 0))
        top = {(r, c): E[(r, c), (r, c + 1)] for r in range(R + 1) for c in range(C)}
        left = {(r, c): E[(r, c), (r + 1, c)] for r in range(R) for c in range(C + 1)}
        for it in s.sel("symbol"):
            st = int(it.val.split("__")[1])
            for r, c, l in s.where(it):
                ray = {
                    64: [top[i, c] for i in range(r, -1, -1)],
                    16: [top[i, c] for i in range(r + 1, R + 1)],
                    128: [left[r, i] for i in range(c, -1, -1)],
                    32: [left[r, i] for i in range(c + 1, C + 1)],
                }
                ray = {
                    64: ray[64],
                    128: ray[128],
                    16: ray[16],
                    32: ray[32],
                }
                n = max(R, C) + 1
                any_ = []
                for k in range(n):
                    # no line at a distance below k, and exactly the marked directions have one at distance k
                    clear = s.And([s.Or(q[:k]) ^ 1 for q in ray.values()])
                    hit = [(q[k] if k < len(q) else 0) if st & m else (q[k] ^ 1 if k < len(q) else 1) for m, q in ray.items()]
                    any_.append(s.And(clear, *hit))
                s.req(s.Implies(l, s.Or(any_)))
        for it in s.sel("edge"):
            m = top if it.d == "top" else left
            for r, c, l in s.where(it):
                s.req(s.Implies(l, m[r, c] if it.val else m[r, c] ^ 1))


class Nagare(Spec):
    name = "nagare"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]
    W = {"1": "l", "3": "u", "5": "r", "7": "d"}

    def build(self, b):
        k = b.choose(["", "B", "w", "b", "k", "bb", "bw", "ww", "g", "wk", "Bw"])
        cs = []
        for ch in k:
            rc = b.cell()
            cs.append(rc)
            if ch in "Bb":
                b.put("symbol", *rc, "arrow_B_B__" + (b.choose(list("1357")) if ch == "b" else "5"))
            elif ch == "w":
                b.put("symbol", *rc, "arrow_B_W__" + b.choose(list("1357") if k != "ww" else list("17")))
            else:
                b.put("surface", *rc, b.Color["BLACK" if ch == "k" else "GREEN"])
        b.distinct(*cs)

    def spec(self, s):
        if any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        I, O = {}, {}
        for rc in s.cells:
            for d in "lurd":
                I[rc + (d,)] = s.x("grid_in", *rc, d)
                O[rc + (d,)] = s.x("grid_out", *rc, d)
        vis = {}
        nxt = {}
        for r, c in s.cells:
            i, o = [I[r, c, d] for d in "lurd"], [O[r, c, d] for d in "lurd"]
            vis[r, c] = s.Or(*i, *o)
            s.req(s.Implies(vis[r, c], s.And(s.Exactly(i, 1), s.Exactly(o, 1))))
            for d, (dr, dc) in s.DIR.items():
                n = (r + dr, c + dc)
                s.req(s.And(I[r, c, d], O[r, c, d]) ^ 1)
                if s.inb(*n):
                    s.req(s.Iff(O[r, c, d], I[n + (s.OPP[d],)]))
                    nxt[(r, c), n] = s.Or(O[r, c, d], I[r, c, d])
                else:
                    s.req(s.Or(O[r, c, d], I[r, c, d]) ^ 1)
        s.req(s.one_component(vis, lambda a, q: nxt.get((a, q), 0)))
        s.witness("nagare", lambda r, c: vis[r, c])
        blk = s.has([t for t in s.sel("symbol") if t.val.startswith("arrow_B_W")] + list(s.sel("surface")))
        arrow = s.has([t for t in s.sel("symbol") if t.val.startswith("arrow_B_B")])
        for it in s.sel("surface"):
            s.on(it, lambda r, c: vis[r, c] ^ 1)
        for it in s.sel("symbol"):
            shape, st = it.val.split("__")
            d = self.W[st]
            for r, c, l in s.where(it):
                if shape == "arrow_B_B":
                    s.req(s.Implies(l, s.And(I[r, c, s.OPP[d]], O[r, c, d])))
                    continue
                s.req(s.Implies(l, vis[r, c] ^ 1))
                ray = dict(zip("udlr", s.rays(r, c)))[d]
                blow = l
                for q in ray:
                    s.unsure(s.And(blow, arrow[q]))
                    blow = s.And(blow, blk[q] ^ 1)
                    s.req(s.Implies(s.And(blow, vis[q]), s.Or(O[q + (d,)], I[q + (s.OPP[d],)])))


class Nanro(Spec):
    name = "nanro"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4)])
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "c", "g", "cg", "cc", "gg", "k", "K", "?", "ck", "!"])
        for ch in k:
            if ch in "c?":
                b.put("text", *b.cell(), b.int(0, 6) if ch == "c" else "?", pos="sudoku_0")
            elif ch in "g!":
                b.put("text", *b.cell(), b.int(1, 6) if ch == "g" else "?")
            else:
                b.surfaces(1, ["BLACK" if ch == "k" else "GREEN"])
        for pos in ("sudoku_0", "normal"):
            b.distinct(*[(t.r, t.c) for t in b.items if t.kind == "text" and t.pos == pos])

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")) or any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        rooms, ro = s.room_list(), s.room_of()
        G = s.xmap("gray")
        w = {q: v ^ 1 for q, v in G.items()}
        N = {}
        clue = s.has(list(s.sel("text")))
        cl = list(s.sel("text", pos="sudoku_0"))
        s.one_per_room(cl)
        for k, cs in rooms.items():
            for q in cs:
                N[q] = {v: s.x("number", *q, v) for v in range(1, len(cs) + 1)}
                s.req(s.Exactly([G[q], *N[q].values()], 1))
                for v, l in N[q].items():
                    s.req(s.Implies(l, s.Exactly([w[a] for a in cs], v)))
            s.req(s.Or([w[q] for q in cs] + [clue[q] for q in cs]))
        s.req(s.connected(w))
        s.req(s.no2x2(w))
        for a, q in borders(s):
            for v in N[a]:
                s.req(s.And(N[a][v], N[q].get(v, 0)) ^ 1)
        for it in s.sel("text"):
            if it.pos == "sudoku_0":
                s.on_room(it, lambda cs: s.num_is([w[q] for q in cs], it.val))
            else:
                s.in_range(it, N)
                s.on(it, lambda r, c: s.Or([s.And(l, N[r, c].get(v, 0)) for v, l in s.dist(it.val).items()]))
        for it in s.sel("surface"):
            s.on(it, lambda r, c: G[r, c])


class Nawabari(Spec):
    name = "nawabari"
    boards = [(2, 3), (3, 2), (3, 3), (2, 4)]
    thorough_boards = [(3, 4)]

    def build(self, b):
        n = b.choose([0, 1, 2, 3])
        b.texts(n, range(0, 5), ["?"] if n < 3 else [])
        if n < 2:
            b.edges([0, 1])

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        same = s.regions()
        rect_regions(s)
        clue = s.has(ts)
        for a in s.cells:
            s.req(s.Exactly([s.And(clue[q], same(a, q)) for q in s.cells], 1))
        for it in ts:
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is(edges_around(s, r, c), it.val))


def rect_regions(s):
    """Every region is a rectangle: no corner with exactly two borders at a right angle ... i.e. no reflex corner."""
    for r in range(1, s.rows):
        for c in range(1, s.cols):
            u, d, l, q = s.EL[r - 1, c], s.EL[r, c], s.ET[r, c - 1], s.ET[r, c]
            # borders meeting in an inner corner: straight, T or cross, never a single bend
            for a, e, x, y in ((u, l, d, q), (u, q, d, l), (d, l, u, q), (d, q, u, l)):
                s.req(s.And(a, e, x ^ 1, y ^ 1) ^ 1)


class NCells(Spec):
    name = "ncells"
    boards = [(2, 3), (3, 3), (2, 4), (1, 6)]
    thorough_boards = [(4, 4)]
    cfgs = [{"k": k} for k in ("3", "2", "4", "0", "x")]
    may_be_empty = True

    def build(self, b):
        b.param = {"region_size": b.cfg["k"]}
        k = b.cfg["k"]
        if not k.isdigit() or not int(k) or b.rows * b.cols % int(k):
            return
        n = b.choose([0, 1, 2])
        b.texts(n, range(0, 5), ["?"])
        if n < 2:
            b.edges([0, 1])

    def spec(self, s):
        k = s.param["region_size"]
        if not k.isdigit() or not int(k) or len(s.cells) % int(k):
            s.bad(1)
            return
        same = s.regions()
        sizes_are(s, same, int(k))
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is(edges_around(s, r, c), it.val))


class News(Spec):
    name = "news"
    cfgs = [
        {"board": (2, 2), "layout": ["AA", "AA"]},
        {"board": (3, 3), "layout": ["AAB", "ABB", "CCC"]},
        {"board": (2, 4), "layout": ["AABB", "AABB"], "x": True},
        {"board": (3, 4), "layout": ["AABB", "CABB", "CCCC"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
        {"board": (2, 3), "layout": ["AAB", "ABB"]},
        {"board": (3, 3), "layout": ["AAB", "ABB", "AAA"]},
    ]
    boards = [(2, 2), (2, 3), (3, 3), (2, 4), (3, 4)]
    thorough_boards = [(4, 4)]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "N", "E", "W", "S", "x", "NE", "Sx", "X", "Q"])
        cs = []
        for ch in k:
            rc = b.cell()
            cs.append(rc)
            if ch in "NEWSQ":
                b.put("text", *rc, ch)
            else:
                b.put("symbol", *rc, "ox_E__4" if ch == "x" else "ox_E__1")
        b.distinct(*cs)

    def spec(self, s):
        if any(t.val == "Q" for t in s.sel("text")) or any(t.val == "ox_E__1" for t in s.sel("symbol")):
            s.bad(1)
            return
        N = {q: {v: s.x("number", *q, v) for v in range(1, 5)} for q in s.cells}
        dirs = dict(zip((1, 2, 3, 4), "NEWS"))
        for q in s.cells:
            s.req(s.AtMost(list(N[q].values()), 1))
        s.witness("white", lambda r, c: s.Or(list(N[r, c].values())) ^ 1)
        for i in range(s.rows):
            for v in range(1, 5):
                s.req(s.AtMost([N[q][v] for q in s.cells if q[0] == i], 1))
        for i in range(s.cols):
            for v in range(1, 5):
                s.req(s.AtMost([N[q][v] for q in s.cells if q[1] == i], 1))
        for cs in s.room_list().values():
            full = {q: s.Or(list(N[q].values())) for q in cs}
            s.req(s.Exactly(list(full.values()), 2))
            for a in cs:
                for q in cs:
                    if a == q:
                        continue
                    for v in range(1, 5):
                        ok = {"N": a[0] < q[0], "S": a[0] > q[0], "E": a[1] > q[1], "W": a[1] < q[1]}[dirs[v]]
                        if not ok:
                            s.req(s.And(N[a][v], full[q]) ^ 1)
        for it in s.sel("text"):
            v = "NEWS".index(it.val) + 1
            s.on(it, lambda r, c: N[r, c][v])
        for it in s.sel("symbol"):
            s.on(it, lambda r, c: s.Or(list(N[r, c].values())) ^ 1)


class Nondango(Spec):
    name = "nondango"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]
    cfgs = [{**c, "lack": 3} for c in room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4)])] + [
        {**c, "lack": 0}
        for c in room_cfgs(
            [(3, 3), (2, 4), (4, 3), (4, 4)],
            own={
                (3, 3): [["ABB", "ACD", "EED"], ["ABB", "AAA", "CCD"]],
                (4, 3): [["ABB", "ACD", "ACD", "EFD"], ["AAA", "BCA", "BBD", "EEF"]],
            },
        )
    ]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        # a circle in (almost) every cell; up to two cells, at symbolic places, without one
        n = b.cfg["lack"]
        k = b.choose(["", "w", "k", "bad", "odd"] if n == 0 else ["", "w"])
        lay = b.cfg["layout"]
        for r in range(b.rows):
            for c in range(b.cols):
                if n and (r * 2 + c) % n == 1:
                    continue
                b.put("symbol", r, c, "circle_M__4", pos="nondango_mark")
        if k in ("w", "k"):
            b.put("symbol", *b.cell(), "circle_M__1" if k == "w" else "circle_M__2")
        if k == "odd":
            b.put("symbol", *b.cell(), "circle_M__3")

    def spec(self, s):
        mark = s.has([t for t in s.sel("symbol") if t.pos == "nondango_mark"])
        for it in s.sel("symbol"):
            if it.val == "circle_M__3":
                s.bad(1)
                return
            if it.pos == "normal":
                for r, c, l in s.where(it):
                    s.bad(s.And(l, mark[r, c] ^ 1))
        W, B = s.xmap("circle_M__1"), s.xmap("circle_M__2")
        for q in s.cells:
            s.req(s.Ite(mark[q], s.Xor(W[q], B[q]), s.Or(W[q], B[q]) ^ 1))
        for r, c in s.cells:
            for dr, dc in ((0, 1), (1, 0), (1, 1), (1, -1)):
                ln = [(r + i * dr, c + i * dc) for i in range(3)]
                if all(s.inb(*q) for q in ln):
                    for m in (W, B):
                        s.req(s.And([m[q] for q in ln]) ^ 1)
        for cs in s.room_list().values():
            s.req(s.Exactly([B[q] for q in cs], 1))
        for it in s.sel("symbol"):
            if it.pos == "normal":
                s.on(it, lambda r, c: (W if it.val[-1] == "1" else B)[r, c])


class Nonogram(Spec):
    name = "nonogram"
    boards = [(2, 3), (3, 3), (3, 4), (2, 5)]
    thorough_boards = [(4, 5)]
    cfgs = [{"i": i} for i in range(4)]
    may_be_empty = True

    def build(self, b):
        b.margin = (3, 0, 3, 0)
        R, C = b.rows, b.cols
        g = lambda n: b.int(1, n)
        i = b.cfg["i"]

        def line(n, k):
            """Clues of one line of n cells."""
            return {0: [g(n)], 1: ["?"], 2: [g(n), g(n)] if n > 2 else [0], 3: [0], 4: [g(n), "?"] if n > 2 else ["?"]}[k]

        rows = [[2, 0, 2, 0], [0, 1, 0, 1], [4, 2, 1, 3], [2, 2, 2, 2]][i]
        cols = [[0, 2, 1, 0, 0], [1, 1, 4, 1, 1], [0, 0, 0, 2, 0], [1, 1, 1, 1, 1]][i]
        ln = {}
        for c in range(C):
            v = line(R, cols[c])
            ln["c", c] = v
        for r in range(R):
            ln["r", r] = line(C, rows[r])
        # clue maps come in reading order of the margin
        for k in range(-3, 0):
            for c in range(C):
                v = ln["c", c]
                if -k <= len(v):
                    b.put("text", k, c, v[len(v) + k])
        for r in range(R):
            v = ln["r", r]
            for j, x in enumerate(v):
                b.put("text", r, j - len(v), x)
        self.lines = ln
        b.lines_ = ln
        givens(b, colors=("BLACK", "GREEN"))

    def spec(self, s):
        x = s.xmap("black")
        for (k, i), clues in s.b.lines_.items():
            cells = [q for q in s.cells if q[0 if k == "r" else 1] == i]
            ls = [x[q] for q in cells]
            if len(clues) == 1 and isinstance(clues[0], int) and clues[0] == 0:
                s.req(s.Or(ls) ^ 1)
                continue
            # automaton: after a prefix, (number of runs begun, length of the open run or 0)
            cur = {(0, 0): 1}
            for l in ls:
                new = {}

                def add(st, v):
                    new.setdefault(st, []).append(v)

                for (j, m), p in cur.items():
                    on, off = s.And(p, l), s.And(p, l ^ 1)
                    if m:
                        add((j, m + 1), on)
                        c = clues[j - 1]
                        add((j, 0), off if isinstance(c, str) else s.And(off, s.eq(c, m)))
                    else:
                        add((j, 0), off)
                        if j < len(clues):
                            add((j + 1, 1), on)
                cur = {st: s.Or(v) for st, v in new.items()}
            fin = []
            for (j, m), p in cur.items():
                if j == len(clues):
                    c = clues[-1]
                    fin.append(p if m == 0 or isinstance(c, str) else s.And(p, s.eq(c, m)))
            s.req(s.Or(fin))
        s.shade_givens(x)


class Norinori(Spec):
    name = "norinori"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)],
        own={(3, 3): [["AAB", "ABB", "AAA"], ["AAA", "BAA", "BAA"], ["AAB", "CAB", "CCC"]], (2, 4): [["AABB", "AABB"], ["ABBB", "AAAA"]], (4, 3): [["ABB", "ABB", "ABB", "ACC"], ["AAA", "AAA", "BAA", "BBB"]], (4, 4): [["ABBB", "AACC", "AACC", "AACC"], ["AAAA", "AAAB", "CCBB", "CCBB"]]},
    )
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        givens(b)

    def spec(self, s):
        x = s.xmap("gray")
        for q in s.cells:
            s.req(s.Implies(x[q], s.Exactly([x[n] for n in s.adj(*q)], 1)))
        for cs in s.room_list().values():
            s.req(s.Exactly([x[q] for q in cs], 2))
        s.shade_givens(x)


class Norinuri(Spec):
    name = "norinuri"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        n = b.choose([0, 1, 2, 3])
        b.texts(n, range(1, 9), ["?"] if n == 1 else [])
        if 0 < n < 3:
            givens(b, colors=("BLACK", "GREEN"))

    may_be_empty = True

    def spec(self, s):
        x = s.xmap("black")
        w = {k: v ^ 1 for k, v in x.items()}
        same = s.comp(w)
        clue = s.has(s.sel("text"))
        for q in s.cells:
            s.req(s.Implies(x[q], s.Exactly([x[n] for n in s.adj(*q)], 1)))
            s.req(s.Implies(w[q], s.Exactly([s.And(clue[a], same(q, a)) for a in s.cells], 1)))
            s.req(s.Implies(clue[q], w[q]))
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is([same((r, c), q) for q in s.cells], it.val))
        s.shade_givens(x)


class Nothing(Spec):
    name = "nothing"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = []
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3), (4, 4)],
        own={(3, 3): [["ABB", "ACB", "AAA"], ["AAB", "AAB", "CBB"], ["AAA", "ABA", "AAA"]], (2, 4): [["AABB", "ACBB"], ["AABB", "AAAA"]], (4, 4): [["ABBB", "AAAC", "AAAC", "AADD"], ["AABC", "AABC", "DDDD", "DDDD"]]},
    ) + [
        {"board": (3, 4), "layout": ["AABB", "AABB", "CCCC"]},
        {"board": (4, 4), "layout": ["AABB", "ACCB", "DCCE", "DDEE"]},
    ]
    boards = [(3, 3), (2, 4), (4, 3), (4, 4), (3, 4)]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        if b.choose([0, 1]):
            gline(b)

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.witness("anything", lambda r, c: vis[r, c])
        s.line_givens(D)
        ro = s.room_of()
        for k, cs in s.room_list().items():
            for a in cs[1:]:
                s.req(s.Iff(vis[a], vis[cs[0]]))
            out = [s.lnk(D, a, n) for a in cs for n in s.adj(*a) if ro[n] != k]
            s.req(s.Implies(vis[cs[0]], s.Exactly(out, 2)))
        for a, n in borders(s):
            s.req(s.Or(vis[a], vis[n]))


class NoThree(Spec):
    name = "nothree"
    boards = [(3, 3), (2, 5), (5, 2), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        k = b.choose(["", "c", "t", "l", "x", "tl", "tx", "lx", "tt", "k", "g", "X"])
        its = []
        for ch in k:
            d = {"c": "center", "t": "top", "l": "left", "x": "top_left"}.get(ch)
            if d:
                rc = b.cell(rmin=1 if ch in "tx" else 0, cmin=1 if ch in "lx" else 0)
                its.append(b.put("symbol", *rc, "circle_SS__1", d=d))
            elif ch == "X":
                b.put("symbol", *b.cell(), "circle_L__1")
            else:
                b.surfaces(1, ["BLACK" if ch == "k" else "GREEN"])
        b._same_key_distinct(its)

    def spec(self, s):
        if any(t.val == "circle_L__1" for t in s.sel("symbol")):
            s.bad(1)
            return
        x = s.xmap("black")
        s.req(s.no_adj(x))
        s.req(s.connected({k: v ^ 1 for k, v in x.items()}))
        for r, c in s.cells:
            for dr, dc in ((0, 1), (1, 0)):
                for k in range(2, max(s.rows, s.cols)):
                    ln = [(r + i * dr, c + i * dc) for i in range(2 * k + 1)]
                    if s.inb(*ln[-1]):
                        s.req(s.And([x[q] if i in (0, k, 2 * k) else x[q] ^ 1 for i, q in enumerate(ln)]) ^ 1)
        off = {"center": [(0, 0)], "top": [(0, 0), (-1, 0)], "left": [(0, 0), (0, -1)], "top_left": [(0, 0), (-1, 0), (0, -1), (-1, -1)]}
        for it in s.sel("symbol"):
            s.on(it, lambda r, c: s.Exactly([x[r + a, c + e] for a, e in off[it.d]], 1))
        s.shade_givens(x)
