from puz import Spec
from specs.lib import givens, std, room_cfgs, run_free


class Akari(Spec):
    name = "akari"
    boards = [(3, 3), (2, 4), (4, 2), (4, 4)]
    thorough_boards = [(4, 5), (5, 5)]

    def build(self, b):
        n = b.choose([0, 1, 2])
        cs = b.slots(n)
        for r, c in cs:
            b.put("surface", r, c, b.Color[b.choose(["BLACK", "GRAY"])])
            k = b.choose(["none", "int", "?"])
            if k == "int":
                b.put("text", r, c, b.int(0, 5))
            elif k == "?":
                b.put("text", r, c, "?")
        if b.choose([0, 1]):
            it = b.symbols(1, ["sun_moon__3"])[0]
            b.distinct((it.r, it.c), *cs)
        elif b.choose([0, 1]):
            it = b.surfaces(1, ["GREEN"], tag="green")[0]
            b.distinct((it.r, it.c), *cs)

    def spec(self, s):
        blk = s.has([i for i in s.sel("surface") if i.tag != "green"])
        x = s.xmap("sun_moon__3")
        for rc in s.cells:
            s.req(s.Implies(blk[rc], x[rc] ^ 1))
            lit = [x[rc]]
            for ray in s.rays(*rc):
                clear = 1
                for n in ray:
                    clear = s.And(clear, blk[n] ^ 1)
                    seen = s.And(clear, x[n])
                    lit.append(seen)
                    s.req(s.And(x[rc], seen) ^ 1)
            s.req(s.Or(blk[rc], *lit))
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is([x[n] for n in s.adj(r, c)], it.val))
        for it in s.sel("symbol"):
            s.on(it, lambda r, c: x[r, c])


class Anglers(Spec):
    name = "anglers"
    boards = [(2, 3), (3, 3), (3, 2)]
    thorough_boards = [(3, 4)]

    def build(self, b):
        sides = b.choose(
            [(), ("in",), ("top",), ("left",), ("right",), ("bottom",), ("in", "in"), ("top", "left"), ("in", "right")]
        )
        n = len(sides)
        m = b.choose([n, n + 1]) if n < 2 else n
        used = []
        for i, side in enumerate(sides):
            if side == "in":
                rc = b.cell()
            elif side in ("top", "bottom"):
                rc = (-1 if side == "top" else b.rows, b.cell()[1])
            else:
                rc = (b.cell()[0], -1 if side == "left" else b.cols)
            b.put("text", *rc, b.int(1, 8) if i or b.choose([1, 0]) else "?")
            used.append(rc)
        for _ in range(m):
            rc = b.cell()
            b.put("symbol", *rc, "tents__3")
            used.append(rc)
        extra = b.choose([None, "BLACK", "GRAY", "line"]) if n == m == 1 and sides[0] in ("in", "right") else None
        if extra in ("BLACK", "GRAY"):
            rc = b.cell()
            b.put("surface", *rc, b.Color[extra])
            used.append(rc)
        b.distinct(*used)
        if extra == "line":
            b.lines(1)

    def spec(self, s):
        texts, syms = list(s.sel("text")), list(s.sel("symbol"))
        if not syms or len(texts) != len(syms):
            s.bad(1)
            return
        ring = [
            (r, c)
            for r in range(-1, s.rows + 1)
            for c in range(-1, s.cols + 1)
            if not s.inb(r, c) and ((0 <= r < s.rows) or (0 <= c < s.cols))
        ]
        clue = s.has(texts)
        cells = s.cells + ring
        real = {rc: 1 for rc in s.cells} | {rc: clue.get(rc, 0) for rc in ring}
        fish = s.has(syms)
        blk = s.has(s.sel("surface"))
        D = s.path(cells=cells)
        for rc in cells:
            dg = s.deg(D, rc)
            end = s.Or(clue.get(rc, 0), fish.get(rc, 0))
            free = s.Or(real[rc] ^ 1, blk.get(rc, 0))
            s.req(s.Implies(free, s.Or(dg) ^ 1))
            s.req(s.Implies(s.And(free ^ 1, end), s.Exactly(dg, 1)))
            s.req(s.Implies(s.And(free ^ 1, end ^ 1), s.Exactly(dg, 2)))
        cs = set(cells)
        adj = lambda r, c: [n for n in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)) if n in cs]
        seen = {rc: [] for rc in cells}
        for it in texts:
            st = {(r, c): l for r, c, l in s.where(it)}
            rch = s.reach_link(st, cells, lambda a, b: s.lnk(D, a, b), adj)
            for rc in cells:
                seen[rc].append(rch[rc])
            for other in texts:
                if other is not it:
                    for r, c, l in s.where(other):
                        s.req(s.And(l, rch[r, c]) ^ 1)
            if s.isint(it):
                s.req(s.by_val(it.val, lambda v: s.Exactly(list(rch.values()), v + 1)))
        for rc in s.cells:
            s.req(s.Or(blk[rc], *seen[rc]))
        s.line_givens(D)


class Aqre(Spec):
    name = "aqre"
    boards = [(3, 3), (2, 4), (4, 3), (1, 5), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (1, 5), (4, 4), (5, 5)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2 if b.rows * b.cols < 12 else 1, range(0, 6))

    def spec(self, s):
        x = s.xmap("gray")
        s.req(s.connected(x))
        run_free(s, x, 4, True)
        run_free(s, x, 4, False)
        s.one_per_room(s.sel("text"))
        for it in s.sel("text"):
            if s.isint(it):
                s.on_room(it, lambda cs: s.num_is([x[c] for c in cs], it.val))
        s.shade_givens(x)


class Aquapelago(Spec):
    name = "aquapelago"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(1, 6))

    def spec(self, s):
        x = s.xmap("black")
        w = {k: v ^ 1 for k, v in x.items()}
        s.req(s.no_adj(x))
        s.req(s.no2x2(w))
        s.req(s.connected(w))
        for it in s.sel("text"):
            s.on(it, lambda r, c: x[r, c])
            if s.isint(it):
                st = {(r, c): l for r, c, l in s.where(it)}
                s.req(s.num_is(s.reach(st, x, s.adjx).values(), it.val))
        s.shade_givens(x)


class Aquarium(Spec):
    name = "aquarium"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        if b.choose([0, 1]):
            b.put("text", -1, b.cell()[1], b.int(0, b.rows + 1) if b.choose([1, 0]) else "?")
        if b.choose([0, 1]):
            b.put("text", b.cell()[0], -1, b.int(0, b.cols + 1) if b.choose([1, 0]) else "?")
        givens(b)

    def spec(self, s):
        x = s.xmap("gray")
        for cs in s.room_list().values():
            for a in cs:
                for d in cs:
                    if d[0] >= a[0]:
                        s.req(s.Implies(x[a], x[d]))
        for it in s.sel("text"):
            if s.isint(it):
                for r, c, l in s.where(it):
                    ln = [x[k] for k in s.cells if k[1] == c] if r == -1 else [x[k] for k in s.cells if k[0] == r]
                    s.req(s.Implies(l, s.num_is(ln, it.val)))
        s.shade_givens(x)


class Araf(Spec):
    name = "araf"
    boards = [(2, 3), (3, 2), (3, 3), (2, 4)]
    thorough_boards = [(3, 4)]

    def build(self, b):
        n = b.choose([0, 1, 2, 4])
        if n < 4:
            b.texts(n, range(1, b.rows * b.cols + 2), ["?"] if n == 1 else [])
        else:
            R, C = b.rows - 1, b.cols - 1
            m = b.rows * b.cols
            vals = [b.int(1, m), 1, b.int(3, m), m]
            for rc, v in zip(((0, 0), (0, C), (R, C - 1), (R, 0)), vals):
                b.put("text", *rc, v)
        if n == 2:
            b.edges([0, 1], dirs=("left",))

    def spec(self, s):
        ts = list(s.sel("text"))
        if not ts:
            s.bad(1)
            return
        if any(not s.isint(t) for t in ts):
            s.bad(1)
            return
        same = s.regions()
        clue = s.has(ts)
        for rc in s.cells:
            s.req(s.Exactly([s.And(clue[n], same(rc, n)) for n in s.cells], 2))
        for i, a in enumerate(ts):
            for d in ts[:i]:
                for r, c, l in s.where(a):
                    size = [same((r, c), n) for n in s.cells]
                    for r2, c2, l2 in s.where(d):
                        if (r, c) == (r2, c2):
                            continue
                        pre = s.And(l, l2, same((r, c), (r2, c2)))
                        for va, la in s.dist(a.val).items():
                            for vd, ld in s.dist(d.val).items():
                                lo, hi = min(va, vd), max(va, vd)
                                s.req(
                                    s.Implies(s.And(pre, la, ld), s.And(s.AtLeast(size, lo + 1), s.AtMost(size, hi - 1)))
                                )


class Balance(Spec):
    name = "balance"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]

    def build(self, b):
        n = b.choose([0, 1, 2] if b.rows * b.cols < 12 else [0, 1])
        cs = b.slots(n)
        for r, c in cs:
            b.put("symbol", r, c, b.choose(["circle_L__1", "circle_L__2"]))
            k = b.choose(["none", "int", "?"]) if n == 1 else "int"
            if k != "none":
                b.put("text", r, c, b.int(2, 7) if k == "int" else "?")
        if n == 0:
            b.lines([0, 1])

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.witness("*2", lambda r, c: vis.get((r, c)))
        s.line_givens(D)
        text = {it.r if isinstance(it.r, int) else str(it.r.e) + str(getattr(it.c, "e", it.c)): it for it in s.sel("text")}

        def arm(r, c, d):
            """{length: literal} of the straight arm leaving (r, c) in direction d (0: no arm)."""
            dr, dc = s.DIR[d]
            out = {}
            run, k = D[r, c, d], 0
            out[0] = run ^ 1
            while run:
                k += 1
                r, c = r + dr, c + dc
                if not s.inb(r, c):
                    break
                out[k] = s.And(run, D[r, c, d] ^ 1)
                run = s.And(run, D[r, c, d])
            return out

        circ = [it for it in s.sel("symbol")]
        for it in circ:
            num = next((t for t in s.sel("text") if t.r is it.r and t.c is it.c), None)
            for r, c, l in s.where(it):
                s.req(s.Implies(l, vis[r, c]))
                arms = {d: arm(r, c, d) for d in "udlr"}
                for i, d1 in enumerate("udlr"):
                    for d2 in "udlr"[i + 1 :]:
                        on = s.And(l, D[r, c, d1], D[r, c, d2])
                        eq = s.Or([s.And(a, arms[d2].get(k, 0)) for k, a in arms[d1].items()])
                        s.req(s.Implies(on, eq if it.val.endswith("1") else eq ^ 1))
                        if num is not None and s.isint(num):
                            s.req(s.Implies(on, s.dist_is(s.g.sum_dist([arms[d1], arms[d2]]), num.val)))


class Binairo(Spec):
    name = "binairo"
    boards = [(2, 2), (4, 4), (2, 4), (3, 4), (4, 3), (3, 3), (4, 6), (6, 4)]
    thorough_boards = [(6, 6)]

    def build(self, b):
        b.symbols([0, 1, 2], ["circle_M__1", "circle_M__2"])

    may_be_empty = True

    def spec(self, s):
        if s.rows % 2 or s.cols % 2:
            s.bad(1)
            return
        x, y = s.xmap("circle_M__1"), s.xmap("circle_M__2")
        for rc in s.cells:
            s.req(s.Xor(x[rc], y[rc]))
        rows = [[x[r, c] for c in range(s.cols)] for r in range(s.rows)]
        cols = [[x[r, c] for r in range(s.rows)] for c in range(s.cols)]
        for ls in (rows, cols):
            for i, a in enumerate(ls):
                s.req(s.Exactly(a, len(a) // 2))
                for d in ls[:i]:
                    s.req(s.Or([s.Xor(p, q) for p, q in zip(a, d)]))
        run_free(s, x, 3, True)
        run_free(s, x, 3, False)
        for it in s.sel("symbol"):
            s.on(it, lambda r, c: x[r, c] if it.val == "circle_M__1" else y[r, c])


class Bosanowa(Spec):
    name = "bosanowa"
    boards = [(2, 3), (3, 2), (3, 3)]
    thorough_boards = [(3, 4)]
    cfgs = [{"m": "4"}, {"m": "6"}, {"m": 3}]

    def build(self, b):
        b.param = {"max_number": b.cfg["m"]}
        h = b.slots([0, 1, 2])
        for r, c in h:
            b.put("surface", r, c, b.Color[b.choose(["BLACK", "GRAY"]) if len(h) == 1 else "BLACK"])
        t = b.texts([0, 1], range(1, 7), ["?"])
        b.distinct(*h, *[(i.r, i.c) for i in t])

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        m = int(s.param["max_number"])
        hole = s.has(s.sel("surface"))
        N = {}
        for rc in s.cells:
            N[rc] = {v: s.x("number", *rc, v) for v in range(1, m + 1)}
            s.req(s.Implies(hole[rc], s.Or(list(N[rc].values())) ^ 1))
            s.req(s.Implies(hole[rc] ^ 1, s.Exactly(list(N[rc].values()), 1)))
        for rc in s.cells:
            for v in N[rc]:
                parts = []
                for n in s.adj(*rc):
                    d = {0: [hole[n]]}
                    for w in N[n]:
                        d.setdefault(abs(v - w), []).append(s.And(hole[n] ^ 1, N[n][w]))
                    parts.append({k: s.Or(q) for k, q in d.items()})
                tot = s.g.sum_dist(parts)
                s.req(s.Implies(N[rc][v], tot.get(v, 0)))
        s.num_givens(N)


class Box(Spec):
    name = "box"
    boards = [(3, 3), (2, 4), (4, 2)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        q = b.choose([0, 1])
        for r in range(b.rows):
            b.put("text", r, b.cols, b.int(1, 4) if r < 2 else r + 1)
        for c in range(b.cols):
            b.put("text", b.rows, c, b.int(1, 3) if c < 2 else c + 1)
        if b.choose([0, 1]):
            b.put("text", -1, b.cell()[1], b.int(0, 9))
        if b.choose([0, 1]):
            b.put("text", b.cell()[0], -1, b.int(0, 9))
        if q:
            b.put("text", b.rows, 0, "?") if b.choose([0, 1]) else givens(b)

    def spec(self, s):
        if any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        x = s.xmap("black")
        wr = {r: s.dist(t.val) for t in s.sel("text") for r in range(s.rows) if t.c is s.cols and t.r is r}
        wc = {c: s.dist(t.val) for t in s.sel("text") for c in range(s.cols) if t.r is s.rows and t.c is c}

        def part(w, l):
            d = {0: [l ^ 1]}
            for v, vl in w.items():
                d.setdefault(v, []).append(s.And(vl, l))
            return {k: s.Or(q) for k, q in d.items()}

        for it in s.sel("text"):
            for r, c, l in s.where(it):
                if r == -1:
                    tot = s.g.sum_dist([part(wr[k], x[k, c]) for k in range(s.rows)])
                elif c == -1:
                    tot = s.g.sum_dist([part(wc[k], x[r, k]) for k in range(s.cols)])
                else:
                    continue
                s.req(s.Implies(l, s.dist_is(tot, it.val)))
        s.shade_givens(x)


class Canal(Spec):
    name = "canal"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 4)]

    def build(self, b):
        std(b, 2, range(0, 6))

    def spec(self, s):
        x = s.xmap("black")
        s.req(s.connected(x))
        s.req(s.no2x2(x))
        for it in s.sel("text"):
            s.on(it, lambda r, c: x[r, c] ^ 1)
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is(s.visible(r, c, x), it.val))
        s.shade_givens(x)


class Castle(Spec):
    name = "castle"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]

    def build(self, b):
        from sym import SymStr

        n = b.choose([0, 1, 2] if b.rows * b.cols < 12 else [1])
        for i, (r, c) in enumerate(b.slots(n)):
            col = b.choose(["white", "BLACK", "GRAY"] if i == 0 else ["white", "BLACK"])
            if col != "white":
                b.put("surface", r, c, b.Color[col])
            k = b.choose(["num", "none", ""]) if n == 1 else "num" if i == 0 else ""
            it = None
            if k == "num":
                v, d = b.int(0, 4), b.choose([0, 1, 2, 3] if n == 1 else [2, 3])
                it = b.put("text", r, c, SymStr(f"{v}_{d}"))
                it.num = (v, d)
            elif k == "" or col == "white":
                it = b.put("text", r, c, "")
                it.num = None
        if n == 0:
            b.lines([0, 1])

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.witness("*2", lambda r, c: vis.get((r, c)))
        ins = s.inside(D)
        s.line_givens(D)
        surf = list(s.sel("surface"))
        for it in surf:
            s.on(it, lambda r, c: vis[r, c] ^ 1)
            if it.val.name == "BLACK":
                s.on(it, lambda r, c: ins[r, c] ^ 1)
        for it in s.sel("text"):
            if not any(q.r is it.r and q.c is it.c for q in surf):
                s.on(it, lambda r, c: s.And(vis[r, c] ^ 1, ins[r, c]))
            if it.num is None:
                continue
            v, d = it.num

            def seg(r, c):
                ray = s.rays(r, c)[{0: 0, 3: 1, 1: 2, 2: 3}[d]]
                dd = "uduu"[0] if False else {0: "d", 3: "d", 1: "r", 2: "r"}[d]
                return s.num_is([D[a, e, dd] for a, e in ray], v)

            s.on(it, seg)


class Cave(Spec):
    name = "cave"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 4)]
    cfgs = [{"p": False}, {"p": True}]

    def build(self, b):
        b.param = {"product": b.cfg["p"]}
        std(b, 2, range(1, 10))

    def spec(self, s):
        x = s.xmap("black")
        w = {k: v ^ 1 for k, v in x.items()}
        s.req(s.connected(w))
        border = {rc: x[rc] for rc in s.cells if rc[0] in (0, s.rows - 1) or rc[1] in (0, s.cols - 1)}
        rch = s.reach(border, x)
        for rc in s.cells:
            s.req(s.Implies(x[rc], rch[rc]))
        for it in s.sel("text"):
            s.on(it, lambda r, c: w[r, c])
            if s.isint(it):

                def see(r, c):
                    u, d, l, q = s.rays(r, c)
                    lits = s.visible(r, c, w)
                    nv = len(u) + len(d)
                    if not s.param["product"]:
                        return s.num_is(lits + [1], it.val)
                    vd = s.g.unary(lits[:nv] + [1])
                    hd = s.g.unary(lits[nv:] + [1])
                    ex = lambda ge: {i: s.And(ge[i], (ge[i + 1] if i + 1 < len(ge) else 0) ^ 1) for i in range(len(ge))}
                    out = {}
                    for i, a in ex(vd).items():
                        for j, e in ex(hd).items():
                            out.setdefault(i * j, []).append(s.And(a, e))
                    return s.dist_is({k: s.Or(v) for k, v in out.items()}, it.val)

                s.on(it, see)
        s.shade_givens(x)
