"""Rule specifications, kakuro to minarism."""

from puz import Spec
from specs.lib import borders, givens, gline, rect_is_comp, rects, room_cfgs, room_counts, std


class Kakuro(Spec):
    name = "kakuro"
    M = [
        ["###", "#..", "#.."],
        ["####", "#..#", "#..."],
        ["###.", "#...", "#..#"],
        ["##.#", "#...", "##.."],
        ["####", "#...", "#...", "##.."],
        ["#####", "#..#.", "#...."],
    ]
    cfgs = [{"board": (len(m), len(m[0])), "mask": m} for m in M]
    boards = sorted({c["board"] for c in cfgs})
    thorough_boards = []

    def build(self, b):
        m = b.cfg["mask"]
        for r in range(b.rows):
            for c in range(b.cols):
                if m[r][c] == "#":
                    b.put("symbol", r, c, "kakuro", tag="black")
        ws = [(r, c) for r in range(b.rows) for c in range(b.cols) if m[r][c] == "."]
        for r in range(b.rows):
            for c in range(b.cols):
                if m[r][c] != "#":
                    continue
                n = 0
                while c + n + 1 < b.cols and m[r][c + n + 1] == ".":
                    n += 1
                k = 0
                while r + k + 1 < b.rows and m[r + k + 1][c] == ".":
                    k += 1
                if n:
                    b.put("text", r, c, b.int(1, 9 * n + 1), pos="sudoku_1", tag="h")
                if k:
                    b.put("text", r, c, b.int(1, 9 * k + 1), pos="sudoku_2", tag="v")
        k = b.choose(["none", "given", "extra"])
        if k == "given":
            r, c = ws[0] if len(ws) < 2 else b.choose([ws[0], ws[-1]])
            b.put("text", r, c, b.int(1, 9))
        if k == "extra":
            b.put("text", b.rows - 1, b.cols - 1, b.int(1, 9), pos="sudoku_1", tag="h")

    def spec(self, s):
        m = s.cfg["mask"]
        ws = [rc for rc in s.cells if m[rc[0]][rc[1]] == "."]
        runs = []
        for it in s.items:
            if it.tag in ("h", "v"):
                r, c, cs = it.r, it.c, []
                while True:
                    r, c = (r, c + 1) if it.tag == "h" else (r + 1, c)
                    if not s.inb(r, c) or m[r][c] == "#":
                        break
                    cs.append((r, c))
                if not cs:
                    s.bad(1)
                    return
                runs.append((cs, it.val))
        on = {q for cs, _ in runs for q in cs}
        N = {q: {v: s.x("number", *q, v) for v in range(1, 10)} for q in ws}
        for q in ws:
            if q in on:
                s.req(s.Exactly(list(N[q].values()), 1))
        for cs, val in runs:
            for v in range(1, 10):
                s.req(s.AtMost([N[q][v] for q in cs], 1))
            s.req(s.sum_is([N[q] for q in cs], val))
        for it in s.items:
            if it.kind == "text" and it.pos == "normal":
                s.on(it, lambda r, c: s.Or([s.And(l, N[r, c][v]) for v, l in s.dist(it.val).items()]))
        for q in ws:
            if q not in on:
                g = [it for it in s.items if it.kind == "text" and it.pos == "normal" and (it.r, it.c) == q]
                if not g:
                    for v in range(1, 10):
                        s.req(N[q][v] ^ 1)


class Kakuru(Spec):
    name = "kakuru"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        n = b.choose([0, 1, 2] if b.rows * b.cols < 12 else [0, 1])
        ts = b.texts(n, range(1, 45), ["?"] if n == 1 else [])
        for t in ts:
            b.put("surface", t.r, t.c, b.Color.BLACK)
        k = b.choose(["none", "GRAY", "GREEN"]) if n < 2 else "none"
        if k != "none":
            r, c = b.cell()
            b.put("surface", r, c, b.Color[k])
            b.distinct((r, c), *[(t.r, t.c) for t in ts])

    def spec(self, s):
        if any(i.val.name == "GREEN" for i in s.sel("surface")):
            s.bad(1)
            return
        blk = s.has(s.sel("surface"))
        V = range(1, 10)
        N = {q: {v: s.x("number", *q, v) for v in V} for q in s.cells}
        for q in s.cells:
            s.req(s.Ite(blk[q], s.Or(list(N[q].values())) ^ 1, s.Exactly(list(N[q].values()), 1)))
            for n in s.adj8(*q):
                if n > q:
                    for v in V:
                        s.req(s.And(N[q][v], N[n][v]) ^ 1)
        for it in s.sel("text"):
            for r, c, l in s.where(it):
                nb = sorted(s.adj8(r, c))
                for v in V:
                    s.req(s.Implies(l, s.AtMost([N[n][v] for n in nb], 1)))
                if s.isint(it):
                    s.req(s.Implies(l, s.sum_is([{v: s.And(k, blk[n] ^ 1) for v, k in N[n].items()} for n in nb], it.val)))


class Kazunori(Spec):
    name = "kazunori"
    cfgs = [
        {"board": (2, 2), "layout": ["AA", "AA"], "x": True},
        {"board": (2, 2), "layout": ["AA", "BB"]},
        {"board": (2, 4), "layout": ["AABB", "AABB"]},
        {"board": (2, 4), "layout": ["ABBB", "ABBB"]},
        {"board": (2, 4), "layout": ["AAAA", "AAAA"]},
        {"board": (3, 2), "layout": ["AA", "BB", "BB"]},
        {"board": (3, 3), "layout": ["AAB", "ABB", "ABB"]},
        {"board": (3, 4), "layout": ["AAAA", "BBCC", "BBCC"]},
    ]
    boards = [(2, 2), (2, 4), (3, 2), (3, 3), (3, 4)]
    thorough_boards = []
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        m = max(sum(x.count(ch) for x in b.cfg["layout"]) for ch in "AB")
        k = b.choose(["", "g", "t", "l", "tl", "gl", "bad", "?"])
        for ch in k if k != "bad" else "":
            if ch == "g":
                r, c = b.cell()
                b.put("text", r, c, b.int(1, m // 2))
            elif ch == "t":
                r, c = b.cell(rmin=1)
                b.put("text", r, c, b.int(1, m + 1), d="top")
            else:
                r, c = b.cell(cmin=1)
                b.put("text", r, c, b.int(1, m + 1) if ch == "l" else "?", d="left")
        if k == "bad":
            r, c = b.cell()
            b.put("text", r, c, "?")

    def spec(self, s):
        ro, rooms = s.room_of(), s.room_list()
        if any(len(v) % 2 for v in rooms.values()) or any(t.d == "center" and not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N = {}
        for cs in rooms.values():
            h = len(cs) // 2
            for q in cs:
                N[q] = {v: s.x("number", *q, v) for v in range(1, h + 1)}
                s.req(s.Exactly(list(N[q].values()), 1))
            for v in range(1, h + 1):
                s.req(s.Exactly([N[q][v] for q in cs], 2))
                for q in cs:
                    s.req(s.Implies(N[q][v], s.Exactly([N[n][v] for n in s.adj(*q) if ro[n] == ro[q]], 1)))
        for r in range(s.rows - 1):
            for c in range(s.cols - 1):
                q = [(r, c), (r + 1, c), (r, c + 1), (r + 1, c + 1)]
                for v in N[q[0]]:
                    s.req(s.And([N[a].get(v, 0) for a in q]) ^ 1)
        for it in s.sel("text"):
            if not s.isint(it):
                continue
            if it.d == "center":
                s.in_range(it, N)
                s.on(it, lambda r, c: s.Or([s.And(l, N[r, c].get(v, 0)) for v, l in s.dist(it.val).items()]))
            else:
                dr, dc = (1, 0) if it.d == "top" else (0, 1)
                s.on(it, lambda r, c: s.dist_is(s.g.sum_dist([N[r, c], N[r - dr, c - dc]]), it.val))


class Koburin(Spec):
    name = "koburin"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]

    def build(self, b):
        n = b.choose([0, 1, 2, 3])
        ts = b.texts(n, range(0, 5), ["?"] if n == 1 else [])
        k = b.choose(["none", "BLACK", "GREEN", "line"]) if n < 2 else "none"
        if k == "line":
            gline(b)
        elif k != "none":
            r, c = b.cell()
            b.put("surface", r, c, b.Color[k])
            b.distinct((r, c), *[(t.r, t.c) for t in ts])

    def spec(self, s):
        if any(i.val.name == "GREEN" for i in s.sel("surface")):
            s.bad(1)
            return
        gray = s.has(s.sel("text"))
        x = s.xmap("black")
        D = s.path()
        vis = s.single_loop(D)
        for q in s.cells:
            s.req(s.Iff(vis[q], s.And(x[q] ^ 1, gray[q] ^ 1)))
            s.req(s.And(x[q], gray[q]) ^ 1)
        s.witness("white", lambda r, c: vis[r, c])
        s.req(s.no_adj(x))
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is([x[n] for n in s.adj(r, c)], it.val))
        for it in s.sel("surface"):
            s.on(it, lambda r, c: x[r, c])
        s.line_givens(D)


class KRamma(Spec):
    name = "kramma"
    boards = [(2, 3), (3, 2), (3, 3), (2, 4)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        n = b.choose([1, 2, 3])
        b.symbols(n, ["circle_M__1", "circle_M__2"])
        if n < 3:
            b.edges([0, 1])

    def spec(self, s):
        same = s.regions()
        for r, c in s.cells:
            if r:
                s.req(s.Iff(s.EL[r, c], s.EL[0, c]))
            if c:
                s.req(s.Iff(s.ET[r, c], s.ET[r, 0]))
        col = {k: s.has([t for t in s.sel("symbol") if t.val[-1] == k]) for k in "12"}
        for a in s.cells:
            has = [s.Or([s.And(same(a, q), col[k][q]) for q in s.cells]) for k in "12"]
            s.req(s.Xor(*has))


def latin(s, n):
    N = s.numbers(range(1, n + 1))
    for i in range(n):
        for v in range(1, n + 1):
            s.req(s.Exactly([N[i, j][v] for j in range(n)], 1))
            s.req(s.Exactly([N[j, i][v] for j in range(n)], 1))
    return N


class Kropki(Spec):
    name = "kropki"
    boards = [(2, 2), (3, 3), (2, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    may_be_empty = True

    def build(self, b):
        k = b.choose(["", "wt", "bt", "wl", "bl", "wtbl", "blbt", "wlwt", "bad"] + ["sq" + t for t in ("0", "1", "2", "0-", "1-", "2-")] * (b.rows == b.cols > 2))
        if k[:2] == "sq":
            self.square(b, int(k[2]), k[3:])
            return
        if k == "bad":
            r, c = b.cell()
            b.put("symbol", r, c, "circle_SS__1")
            return
        its = []
        for i in range(0, len(k), 2):
            top = k[i + 1] == "t"
            r, c = b.cell(rmin=1) if top else b.cell(cmin=1)
            its.append(b.put("symbol", r, c, "circle_SS__" + ("1" if k[i] == "w" else "2"), d="top" if top else "left"))
        b._same_key_distinct(its)
        if len(k) < 4:
            b.texts([0, 1], range(1, b.rows + 1), ["?"])

    def square(self, b, i, less):
        """All the dots of a Latin square, three of them at symbolic places (or one of these three missing)."""
        n = b.rows
        sq = [[(c + (r, r ^ (r >> 1), r * (n - 1))[i]) % n + 1 for c in range(n)] for r in range(n)]
        dots = []
        for d, dr, dc in (("top", 1, 0), ("left", 0, 1)):
            for r, c in [(r, c) for r in range(dr, n) for c in range(dc, n)]:
                u, v = sq[r][c], sq[r - dr][c - dc]
                seq, dbl = abs(u - v) == 1, u == 2 * v or v == 2 * u
                if seq or dbl:
                    dots.append((r, c, d, "2" if dbl and (not seq or (r + c + i) % 2) else "1"))
        free = dots[i :: max(1, len(dots) // 3)][:3]
        if less:
            # one which is not both consecutive and a double, so that only one rule asks for it
            drop = [t for t in free if t[3] == "1" and {1, 2} != {sq[t[0]][t[1]], sq[t[0] - (t[2] == "top")][t[1] - (t[2] == "left")]}] or free
            dots.remove(drop[0])
            free.remove(drop[0])
        its = []
        for t in dots:
            r, c, d, v = t
            if t in free:
                r, c = b.cell(rmin=1) if d == "top" else b.cell(cmin=1)
            its.append(b.put("symbol", r, c, "circle_SS__" + v, d=d))
        b._same_key_distinct(its)

    def spec(self, s):
        if s.rows != s.cols or any(t.d == "center" for t in s.sel("symbol")) or any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N = latin(s, s.rows)
        dot = {k: {(e, q): [] for e in ("top", "left") for q in s.cells} for k in "12"}
        for it in s.sel("symbol"):
            for r, c, l in s.where(it):
                dot[it.val[-1]][it.d, (r, c)].append(l)
        for e, dr, dc in (("top", 1, 0), ("left", 0, 1)):
            for r, c in s.cells:
                p = (r - dr, c - dc)
                if not s.inb(*p):
                    continue
                w, k = s.Or(dot["1"][e, (r, c)]), s.Or(dot["2"][e, (r, c)])
                for u, lu in N[p].items():
                    for v, lv in N[r, c].items():
                        both = s.And(lu, lv)
                        seq, dbl = abs(u - v) == 1, u == 2 * v or v == 2 * u
                        if not seq:
                            s.req(s.And(both, w) ^ 1)
                        if not dbl:
                            s.req(s.And(both, k) ^ 1)
                        if seq or dbl:
                            s.req(s.And(both, w ^ 1, k ^ 1) ^ 1)
        s.num_givens(N)


class Kurochute(Spec):
    name = "kurochute"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(1, 5))

    def spec(self, s):
        x = s.xmap("black")
        s.req(s.no_adj(x))
        s.req(s.connected({k: v ^ 1 for k, v in x.items()}))
        for it in s.sel("text"):
            for r, c, l in s.where(it):
                s.req(s.Implies(l, x[r, c] ^ 1))
                if s.isint(it):
                    for v, k in s.dist(it.val).items():
                        ls = [x[q] for q in ((r + v, c), (r - v, c), (r, c + v), (r, c - v)) if s.inb(*q)]
                        s.req(s.Implies(s.And(l, k), s.Exactly(ls, 1)))
        s.shade_givens(x)


class Kurodoko(Spec):
    name = "kurodoko"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(1, 8))

    def spec(self, s):
        x = s.xmap("black")
        w = {k: v ^ 1 for k, v in x.items()}
        s.req(s.no_adj(x))
        s.req(s.connected(w))
        for it in s.sel("text"):
            s.on(it, lambda r, c: w[r, c])
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is([1] + s.visible(r, c, w), it.val))
        s.shade_givens(x)


class Kurotto(Spec):
    name = "kurotto"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = []

    def build(self, b):
        std(b, 2 if b.rows * b.cols < 12 else 1, range(0, 9))

    def spec(self, s):
        x = s.xmap("black")
        num = s.has([t for t in s.sel("text") if s.isint(t)])
        for it in s.sel("text"):
            for r, c, l in s.where(it):
                s.req(s.Implies(l, x[r, c] ^ 1))
                if s.isint(it):
                    n = s.reach({(r, c): num[r, c]}, x)
                    s.req(s.Implies(l, s.num_is([v for q, v in n.items() if q != (r, c)], it.val)))
        s.shade_givens(x)


class LightShadow(Spec):
    name = "lightshadow"
    boards = [(3, 3), (2, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        n = b.choose([1, 2, 3])
        ts = b.texts(n, range(1, b.rows * b.cols), ["?"] if n == 1 else [])
        for i, t in enumerate(ts[:2]):
            k = b.choose(["none", "BLACK", "GRAY"] if i == 0 else ["none", "BLACK"])
            if k != "none":
                b.put("surface", t.r, t.c, b.Color[k])
        if n == 1:
            k = b.choose(["none", "BLACK", "GREEN"])
            if k != "none":
                r, c = b.cell()
                b.put("surface", r, c, b.Color[k])
                b.distinct((r, c), (ts[0].r, ts[0].c))

    def spec(self, s):
        x = s.xmap("black")
        w = {k: v ^ 1 for k, v in x.items()}
        sb, sw = s.comp(x), s.comp(w)
        ts = list(s.sel("text"))
        clue = s.has(ts)
        dark = s.has([i for i in s.sel("surface") if i.val in s.b.Color.DARK])
        same = lambda a, q: s.Or(sb(a, q), sw(a, q))
        for a in s.cells:
            s.req(s.Exactly([s.And(clue[q], same(a, q)) for q in s.cells], 1))
            s.req(s.Implies(clue[a], s.Iff(x[a], dark[a])))
        for it in ts:
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is([same((r, c), q) for q in s.cells], it.val))
        s.shade_givens(x)


TETRO = {
    "L": [(0, 0), (1, 0), (2, 0), (2, 1)],
    "I": [(0, 0), (1, 0), (2, 0), (3, 0)],
    "T": [(0, 0), (0, 1), (0, 2), (1, 1)],
    "S": [(0, 0), (0, 1), (1, 1), (1, 2)],
    "O": [(0, 0), (0, 1), (1, 0), (1, 1)],
}


def variants(cs):
    out = set()
    for i in range(8):
        t = [((r, c) if i < 4 else (r, -c)) for r, c in cs]
        for _ in range(i % 4):
            t = [(c, -r) for r, c in t]
        r0, c0 = min(r for r, _ in t), min(c for _, c in t)
        out.add(tuple(sorted((r - r0, c - c0) for r, c in t)))
    return sorted(out)


class Lits(Spec):
    name = "lits"
    cfgs = [
        {"board": (2, 4), "layout": ["AABB", "AABB"]},
        {"board": (3, 3), "layout": ["AAA", "AAA", "AAA"]},
        {"board": (3, 4), "layout": ["AAAA", "ABBB", "BBBB"]},
        {"board": (3, 4), "layout": ["AABB", "AABB", "AABB"]},
        {"board": (3, 4), "layout": ["AAAB", "ABBB", "ABBB"], "x": True},
        {"board": (4, 4), "layout": ["ABBB", "AABB", "ACCC", "ACCC"]},
        {"board": (4, 4), "layout": ["AAAB", "AABB", "BBBB", "BBBB"]},
        {"board": (4, 3), "layout": ["AAA", "AAA", "BAA", "BBB"]},
        {"board": (4, 3), "layout": ["AAA", "BBA", "BCC", "BCC"]},
        {"board": (5, 5), "layout": ["AAABB", "AABBB", "CABBB", "CBBDB", "CCDDD"]},
        {"board": (5, 5), "layout": ["AABBB", "AACCB", "ADDCB", "DDECC", "DEEEE"]},
    ]
    cfgs = [{**c, "inv": i} for c in cfgs for i in (False, True) if c["board"] != (2, 4) or i]
    boards = [(2, 4), (3, 3), (3, 4), (4, 4), (4, 3)]
    thorough_boards = [(5, 5)]
    may_be_empty = True

    def build(self, b):
        b.param = {"invlitso": b.cfg["inv"]}
        b.rooms(b.cfg["layout"])
        givens(b, colors=("BLACK", "GREEN"))

    def spec(self, s):
        x = s.xmap("gray")
        inv = s.cfg["inv"]
        m = {q: v ^ 1 for q, v in x.items()} if inv else x
        s.req(s.connected(x))
        s.req(s.no2x2(x))
        rooms, ro = s.room_list(), s.room_of()
        shape = {}
        for k, cs in rooms.items():
            st = set(cs)
            by = {}
            for t in "LITSO" if inv else "LITS":
                for v in variants(TETRO[t]):
                    for r in range(s.rows):
                        for c in range(s.cols):
                            q = {(r + a, c + e) for a, e in v}
                            if q <= st:
                                by.setdefault(t, []).append(s.And([m[a] if a in q else m[a] ^ 1 for a in cs]))
            shape[k] = {t: s.Or(ls) for t, ls in by.items()}
            s.req(s.Or(list(shape[k].values())))
        for a, q in borders(s):
            for t in "LITSO":
                s.req(s.And(m[a], m[q], shape[ro[a]].get(t, 0), shape[ro[q]].get(t, 0)) ^ 1)
        s.shade_givens(x)


class LookAir(Spec):
    name = "lookair"
    boards = [(3, 3), (2, 4), (4, 3), (2, 5), (5, 2), (4, 4)]
    thorough_boards = [(5, 5)]

    def build(self, b):
        std(b, 2, range(0, 6))

    def spec(self, s):
        x = s.xmap("gray")
        sq = {}
        size = {q: {} for q in s.cells}
        for r1, c1, r2, c2 in rects(s):
            l = rect_is_comp(s, x, r1, c1, r2, c2)
            if r2 - r1 == c2 - c1:
                for r in range(r1, r2 + 1):
                    for c in range(c1, c2 + 1):
                        size[r, c].setdefault(r2 - r1 + 1, []).append(l)
        size = {q: {k: s.Or(ls) for k, ls in d.items()} for q, d in size.items()}
        for q in s.cells:
            s.req(s.Implies(x[q], s.Or(list(size[q].values()))))
            for ray in s.rays(*q):
                clear = x[q]
                for i, n in enumerate(ray):
                    if i:
                        for k in size[q]:
                            s.req(s.And(clear, size[q][k], size[n].get(k, 0)) ^ 1)
                    clear = s.And(clear, x[n] ^ 1)
        for it in s.sel("text"):
            if s.isint(it):
                s.on(it, lambda r, c: s.num_is([x[n] for n in s.adj(r, c)] + [x[r, c]], it.val))
        s.shade_givens(x)


class Magnets(Spec):
    name = "magnets"
    cfgs = [
        {"board": (2, 2), "layout": ["AA", "BB"]},
        {"board": (2, 3), "layout": ["ABB", "ACC"]},
        {"board": (3, 4), "layout": ["AABB", "CDEE", "CDFF"]},
        {"board": (4, 3), "layout": ["AAB", "CDB", "CDE", "FFE"]},
        {"board": (2, 3), "layout": ["AAA", "BBB"]},
        {"board": (4, 4), "layout": ["AABC", "DEBC", "DEFF", "GGHH"], "x": True},
    ]
    boards = [(2, 2), (2, 3), (3, 4), (4, 3)]
    thorough_boards = [(4, 4)]
    may_be_empty = True

    def build(self, b):
        b.margin = (1, 1, 1, 1)
        b.rooms(b.cfg["layout"])
        R, C = b.rows, b.cols
        k = b.choose(["", "T", "B", "L", "R", "TL", "BR", "TBLR", "k", "Tk", "g", "?"])
        for ch in k:
            if ch in "TBLR":
                m = (R if ch in "TB" else C) // 2 + 1
                v = b.int(0, m)
                if ch in "TB":
                    b.put("text", -1 if ch == "T" else R, b.int(0, C - 1), v, tag=ch)
                else:
                    b.put("text", b.int(0, R - 1), -1 if ch == "L" else C, v, tag=ch)
            elif ch == "?":
                b.put("text", -1, b.int(0, C - 1), "?", tag="?")
            else:
                b.surfaces(1, ["BLACK" if ch == "k" else "GREEN"])

    def spec(self, s):
        ro, rooms = s.room_of(), s.room_list()
        if any(len(v) != 2 for v in rooms.values()):
            s.bad(1)
            return
        if any(t.tag == "?" for t in s.items) or any(i.val.name == "GREEN" for i in s.sel("surface")):
            s.bad(1)
            return
        P, M, G = s.xmap("math_G__2"), s.xmap("math_G__3"), s.xmap("gray")
        for q in s.cells:
            s.req(s.Exactly([P[q], M[q], G[q]], 1))
            for n in s.adj(*q):
                s.req(s.And(P[q], P[n]) ^ 1)
                s.req(s.And(M[q], M[n]) ^ 1)
        for a, q in rooms.values():
            s.req(s.Iff(P[a], M[q]))
            s.req(s.Iff(M[a], P[q]))
        for it in s.items:
            if it.kind != "text":
                continue
            m = P if it.tag in "TL" else M
            for r, c, l in s.where(it):
                ln = [m[q] for q in s.cells if (q[1] == c if it.tag in "TB" else q[0] == r)]
                s.req(s.Implies(l, s.num_is(ln, it.val)))
        for it in s.sel("surface"):
            s.on(it, lambda r, c: G[r, c])


class Mannequin(Spec):
    name = "mannequin"
    cfgs = room_cfgs(
        [(3, 3), (2, 4), (4, 3)],
        own={(3, 3): [["AAB", "ABB", "AAA"], ["AAA", "BAA", "BAA"], ["AAB", "CAB", "CCC"]], (2, 4): [["ABBB", "AABB"], ["AAAA", "ABBB"]], (4, 3): [["ABB", "ABB", "ABB", "CCB"], ["AAA", "BBA", "CCA", "CCC"]], (4, 4): [["AAAB", "CBBB", "CCDD", "CCCD"], ["AAAA", "AAAB", "CCBB", "CCBB"]]},
    ) + [
        {"board": (3, 3), "layout": ["AAA", "BBA", "AAA"]},
        {"board": (3, 5), "layout": ["AAAAA", "BBBBA", "AAAAA"]},
        {"board": (3, 4), "layout": ["AAAB", "AAAB", "CCBB"]},
        {"board": (4, 4), "layout": ["AABB", "AABB", "CCDD", "CCDD"]},
    ]
    boards = [(3, 3), (2, 4), (4, 3), (3, 5), (3, 4)]
    thorough_boards = [(4, 4)]
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        std(b, 2 if b.rows * b.cols < 10 else 1, range(0, 12 if b.cols == 5 else 6))

    def spec(self, s):
        x = s.xmap("gray")
        rooms, ro = s.room_list(), s.room_of()
        s.req(s.connected({q: v ^ 1 for q, v in x.items()}))
        s.one_per_room(s.sel("text"))
        num = {}
        for k, cs in rooms.items():
            s.req(s.Exactly([x[q] for q in cs], 2))
            st = set(cs)
            num[k] = {}
            for a in cs:
                dist, fr = {a: 0}, [a]
                while fr:
                    nf = []
                    for q in fr:
                        for n in s.adj(*q):
                            if n in st and n not in dist:
                                dist[n] = dist[q] + 1
                                nf.append(n)
                    fr = nf
                for q in cs:
                    if q > a and q in dist:
                        num[k].setdefault(dist[q] - 1, []).append(s.And(x[a], x[q]))
            num[k] = {v: s.Or(l) for v, l in num[k].items()}
        for k1, k2 in {(ro[a], ro[q]) for a, q in borders(s)}:
            for v in num[k1]:
                s.req(s.And(num[k1][v], num[k2].get(v, 0)) ^ 1)
        for it in s.sel("text"):
            if s.isint(it):
                for r, c, l in s.where(it):
                    s.req(s.Implies(l, s.dist_is(num[ro[r, c]], it.val)))
        s.shade_givens(x)


class Martini(Spec):
    name = "martini"
    boards = [(3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "n", "w", "k", "nw", "ww", "?", "nww", "B", "G", "nB"])
        ws = []
        for ch in k:
            if ch in "wk":
                ws.append(b.put("symbol", *b.cell(), "circle_L__1" if ch == "w" else "circle_L__2"))
            elif ch in "n?":
                b.put("text", *b.cell(), b.int(0, 3) if ch == "n" else "?")
            else:
                b.surfaces(1, ["BLACK" if ch == "B" else "GREEN"])
        b.distinct(*[(w.r, w.c) for w in ws])

    def spec(self, s):
        x = s.xmap("gray")
        w = {q: v ^ 1 for q, v in x.items()}
        white = s.has([t for t in s.sel("symbol") if t.val[-1] == "1"])
        for it in s.sel("symbol"):
            s.on(it, lambda r, c: w[r, c] if it.val[-1] == "1" else x[r, c])
        for cs in s.room_list().values():
            s.req(s.connected({c: x[c] for c in cs}))
        for a, q in borders(s):
            s.req(s.And(x[a], x[q]) ^ 1)
        s.req(s.connected(x, s.adj8))
        for it in s.sel("text"):
            if s.isint(it):
                for r, c, l in s.where(it):
                    s.unsure(s.And(l, white[r, c] ^ 1))  # numbers are in white circles
                    n = s.reach({(r, c): w[r, c]}, w)
                    s.req(s.Implies(l, s.And(w[r, c], s.num_is([s.And(n[q], white[q]) for q in s.cells], it.val))))
        s.shade_givens(x)


class Masyu(Spec):
    name = "masyu"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]

    def build(self, b):
        n = b.choose([0, 1, 2, 3])
        b.symbols(n, ["circle_L__1", "circle_L__2"])
        if n < 2 and b.choose([0, 1]):
            gline(b)

    def spec(self, s):
        D = s.path()
        vis = s.single_loop(D)
        s.witness("masyu", lambda r, c: vis[r, c])
        s.line_givens(D)
        turn, st = {}, {}
        for r, c in s.cells:
            st[r, c] = s.Or(s.And(D[r, c, "l"], D[r, c, "r"]), s.And(D[r, c, "u"], D[r, c, "d"]))
            turn[r, c] = s.And(vis[r, c], st[r, c] ^ 1)
        for it in s.sel("symbol"):
            white = it.val[-1] == "1"
            for r, c, l in s.where(it):
                s.req(s.Implies(l, vis[r, c]))
                nb = [(n, s.lnk(D, (r, c), n)) for n in s.adj(r, c)]
                if white:
                    s.req(s.Implies(l, s.And(st[r, c], s.Or([s.And(k, turn[n]) for n, k in nb]))))
                else:
                    s.req(s.Implies(l, s.And(turn[r, c], *[s.Implies(k, st[n]) for n, k in nb])))


class Meander(Spec):
    name = "meander"
    cfgs = [
        {"board": (2, 2), "layout": ["AA", "AA"]},
        {"board": (2, 2), "layout": ["AA", "BB"]},
        {"board": (3, 3), "layout": ["AAA", "BBB", "BBC"]},
        {"board": (3, 3), "layout": ["AAB", "AAB", "CAB"], "x": True},
        {"board": (3, 3), "layout": ["AAA", "AAB", "ABB"]},
        {"board": (2, 3), "layout": ["AAA", "BBB"]},
        {"board": (4, 4), "layout": ["ABBB", "AABB", "CDDD", "CDDD"]},
        {"board": (4, 4), "layout": ["AABB", "CBBB", "CBDD", "CCDD"]},
    ]
    boards = [(2, 2), (3, 3), (2, 3), (4, 4)]
    thorough_boards = []
    may_be_empty = True

    def build(self, b):
        b.rooms(b.cfg["layout"])
        n = b.choose([0, 1, 2] if b.rows < 4 else [0, 1])
        b.texts(n, range(1, 9), ["?"] if n == 1 else [])

    def spec(self, s):
        if s.rows != s.cols or any(not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N = {}
        for cs in s.room_list().values():
            k, st = len(cs), set(cs)
            for q in cs:
                N[q] = {v: s.x("number", *q, v) for v in range(1, k + 1)}
                s.req(s.Exactly(list(N[q].values()), 1))
            for v in range(1, k + 1):
                s.req(s.Exactly([N[q][v] for q in cs], 1))
                for q in cs:
                    if v < k:
                        s.req(s.Implies(N[q][v], s.Or([N[n][v + 1] for n in s.adj(*q) if n in st])))
        for q in s.cells:
            for n in s.adj8(*q):
                for v in N[q]:
                    s.req(s.And(N[q][v], N[n].get(v, 0)) ^ 1)
        s.num_givens(N)


class Minarism(Spec):
    name = "minarism"
    boards = [(2, 2), (3, 3), (2, 3), (4, 4)]
    thorough_boards = []
    may_be_empty = True

    def build(self, b):
        k = b.choose(["", "1", "2", "3", "4", "t", "l", "12", "34", "tl", "t3", "g", "gl", "?", "q"])
        its = []
        for ch in k:
            if ch in "13":
                its.append(b.put("symbol", *b.cell(cmin=1), "inequality__" + ch, d="left"))
            elif ch in "24":
                its.append(b.put("symbol", *b.cell(rmin=1), "inequality__" + ch, d="top"))
            elif ch in "t":
                b.put("text", *b.cell(rmin=1), b.int(0, b.rows), d="top")
            elif ch in "lq":
                b.put("text", *b.cell(cmin=1), b.int(0, b.rows) if ch == "l" else "?", d="left")
            else:
                b.put("text", *b.cell(), b.int(1, b.rows) if ch == "g" else "?")

    def spec(self, s):
        if s.rows != s.cols or any(t.d == "center" and not s.isint(t) for t in s.sel("text")):
            s.bad(1)
            return
        N = latin(s, s.rows)
        for it in s.sel("symbol"):
            dr, dc = (1, 0) if it.d == "top" else (0, 1)
            up = it.val[-1] in "12"  # the second cell is larger

            def cmp_(r, c):
                out = []
                for u, a in N[r - dr, c - dc].items():
                    for v, e in N[r, c].items():
                        if (v > u) if up else (v < u):
                            out.append(s.And(a, e))
                return s.Or(out)

            s.on(it, cmp_)
        for it in s.sel("text"):
            if it.d == "center":
                s.in_range(it, N)
                s.on(it, lambda r, c: s.Or([s.And(l, N[r, c].get(v, 0)) for v, l in s.dist(it.val).items()]))
            elif s.isint(it):
                dr, dc = (1, 0) if it.d == "top" else (0, 1)

                def diff(r, c):
                    d = {}
                    for u, a in N[r - dr, c - dc].items():
                        for v, e in N[r, c].items():
                            d.setdefault(abs(u - v), []).append(s.And(a, e))
                    return s.dist_is({k: s.Or(l) for k, l in d.items()}, it.val)

                s.on(it, diff)
