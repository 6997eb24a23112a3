"""Rule specifications: tetrochain .. yinyang."""

from puz import Spec

from specs.a3 import TETRO
from specs.a5 import fixed_forms, placements
from specs.lib import givens, gline, hole_edges, no_crossing, room_cfgs, std

RAY = {0: 0, 3: 1, 1: 2, 2: 3}  # arrow code (up, left, right, down) -> index into rays()


def arrow_clue(b, rc, v, d):
    from sym import SymStr

    it = b.put("text", *rc, SymStr(f"{v}_{d}"))
    it.num = (v, d)
    return it


def arrow_clues(b, k, hi):
    """Clues, one per letter of k: u l r d (a number and an arrow); n: number without an arrow; q: unknown number."""
    cs = []
    for ch in k:
        rc = b.cell()
        if ch in "ulrd":
            arrow_clue(b, rc, b.int(0, hi), "ulrd".index(ch))
        elif ch == "q":
            b.put("text", *rc, "?_1")
        else:
            b.put("text", *rc, b.int(0, hi))
        cs.append(rc)
    b.distinct(*cs)
    return cs


def badly_arrowed(s):
    if any(s.isint(t) or isinstance(t.val, str) and t.val == "?_1" for t in s.sel("text") if not hasattr(t, "num")):
        s.bad(1)
        return True
    return False


class Tetrochain(Spec):
    name = "tetrochain"
    boards = [(3, 4), (4, 4), (5, 3)]
    thorough_boards = [(4, 5), (5, 5)]

    def build(self, b):
        k = b.choose(["", "u", "l", "r", "d", "rd", "n", "q", "uB"])
        cs = arrow_clues(b, k.strip("B"), 3)
        if k.endswith("B") or not k:
            col = b.choose(["BLACK", "GRAY", "GREEN", None] if not k else ["BLACK", "GREEN"])
            if col:
                rc = b.cell()
                b.put("surface", *rc, b.Color[col])

    def spec(self, s):
        if badly_arrowed(s):
            return
        x = s.xmap("black")
        is_ = {q: {} for q in s.cells}
        for t, cells in TETRO.items():
            for pl in placements(s, fixed_forms(cells)):
                rim = {n for q in pl for n in s.adj(*q)} - pl
                l = s.And([x[q] for q in pl] + [x[q] ^ 1 for q in rim])
                for q in pl:
                    is_[q].setdefault(t, []).append(l)
        is_ = {q: {t: s.Or(v) for t, v in d.items()} for q, d in is_.items()}
        for q in s.cells:
            s.req(s.Implies(x[q], s.Or(list(is_[q].values()))))
        same = s.comp(x)
        for q in s.cells:
            for n in s.adjx(*q):
                if n > q:
                    for t in TETRO:
                        s.req(s.Implies(s.And(is_[q].get(t, 0), is_[n].get(t, 0)), same(q, n)))
        s.req(s.connected(x, s.adj8))
        for t in s.sel("text"):
            v, d = t.num
            s.on(t, lambda r, c: x[r, c] ^ 1)
            s.on(t, lambda r, c: s.num_is([x[q] for q in s.rays(r, c)[RAY[d]]], v))
        s.shade_givens(x)


class Tetrominous(Spec):
    name = "tetrominous"
    boards = [(2, 4), (3, 3), (3, 4), (4, 4)]
    thorough_boards = [(4, 5)]
    may_be_empty = True

    HOLES = {
        (2, 4): ["", "00011013", "01"],
        (3, 3): ["00", "11", "02", "0001"],
        (3, 4): ["", "00011011", "01030513", "00232203"],
        (4, 4): ["", "00033033"],
        (4, 5): ["", "11121314"],
    }

    def build(self, b):
        hs = b.choose(self.HOLES[b.rows, b.cols])
        k = b.choose(["", "t", "tt", "e", "te", "X"] + (["G"] if hs else []))
        for r, c in zip(hs[::2], hs[1::2]):
            b.put("surface", int(r), min(int(c), b.cols - 1), b.Color["GREEN" if k == "G" else "BLACK"])
        cs = []
        for ch in k:
            if ch == "e":
                b.edges(1)
            elif ch in "tX":
                cs.append(b.cell())
                b.put("text", *cs[-1], b.choose(list("TOILS") if k == "t" else list("LIO")) if ch == "t" else "X")
        b.distinct(*cs)

    def spec(self, s):
        sf = list(s.sel("surface"))
        hole = s.has(sf)
        if any(t.val.name == "GREEN" for t in sf) or any(t.val == "X" for t in s.sel("text")):
            s.bad(1)
            return
        if (len(s.cells) - len({(t.r, t.c) for t in sf})) % 4:
            s.bad(1)
            return
        same = s.regions()
        hole_edges(s, hole)
        is_ = {q: {} for q in s.cells}
        for k, cells in TETRO.items():
            for pl in placements(s, fixed_forms(cells)):
                l = s.And([same(min(pl), q) if q in pl else same(min(pl), q) ^ 1 for q in s.cells] + [hole[q] ^ 1 for q in pl])
                for q in pl:
                    is_[q].setdefault(k, []).append(l)
        is_ = {q: {k: s.Or(v) for k, v in d.items()} for q, d in is_.items()}
        for q in s.cells:
            s.req(s.Or(hole[q], *is_[q].values()))
            for n in s.adj(*q):
                if n > q:
                    for k in TETRO:
                        s.req(s.And(same(q, n) ^ 1, is_[q].get(k, 0), is_[n].get(k, 0)) ^ 1)
        for t in s.sel("text"):
            for r, c, l in s.where(t):
                s.unsure(s.And(l, hole[r, c]))
            s.on(t, lambda r, c: is_[r, c].get(t.val, 0))


class Tilepaint(Spec):
    name = "tilepaint"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(5, 5)]
    cfgs = room_cfgs([(3, 3), (2, 4), (4, 3), (4, 4), (5, 5)])

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "t", "l", "tl", "tt", "ll", "tX", "?", "w", "v"])
        cs = []
        for ch in k:
            r, c = b.cell()
            if ch == "X":
                givens(b)
            elif ch in "tw":
                b.put("text", -1, c, b.int(0, b.rows + 1), pos="sudoku_2" if ch == "t" else "normal", tag="bad" if ch == "w" else "")
                cs.append((-1, c))
            elif ch in "lv":
                b.put("text", r, -1, b.int(0, b.cols + 1), pos="sudoku_1" if ch == "l" else "sudoku_2", tag="bad" if ch == "v" else "")
                cs.append((r, -1))
            else:
                b.put("text", -1, c, "?", pos="sudoku_2")
        if len(cs) == 2:
            b.distinct(*cs)

    def spec(self, s):
        if any(t.tag == "bad" for t in s.sel("text")):
            s.bad(1)
            return
        x = s.xmap("gray")
        for cs in s.room_list().values():
            for q in cs:
                s.req(s.Iff(x[q], x[cs[0]]))
        for t in s.sel("text"):
            if s.isint(t):
                for r, c, l in s.where(t):
                    line = [x[i, c] for i in range(s.rows)] if r == -1 else [x[r, i] for i in range(s.cols)]
                    s.req(s.Implies(l, s.num_is(line, t.val)))
        s.shade_givens(x)


class Triplace(Spec):
    name = "triplace"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]
    may_be_empty = True

    # black cells
    BLACK = {
        (3, 3): ["", "000102", "001020", "000102102011", "00", "021120", "001020021222", "000102202122"],
        (2, 4): ["0010", "0013", "00010203", "00"],
        (4, 3): ["000102", "001020", "011131", "021130001022", "0021"],
        (4, 4): ["0001020310203013", "00010203102030", "00", "01213303"],
        (4, 5): ["0001020304102030", "0001020310203021"],
    }

    def build(self, b):
        hs = b.choose(self.BLACK[b.rows, b.cols])
        hs = [(int(r), int(c)) for r, c in zip(hs[::2], hs[1::2])]
        k = b.choose(["", "e", "Y"] + (["r", "d", "rd", "rr", "re", "?"] if hs else []))
        for i, (r, c) in enumerate(hs):
            b.put("symbol", r, c, "star__1" if k == "Y" else "kakuro__1")
        cs = []
        for ch in k:
            if ch in "rd?":
                run = lambda r, c: (r, c + 1) if ch != "d" else (r + 1, c)
                ok = [q for q in hs if run(*q) not in hs and run(*q)[0] < b.rows and run(*q)[1] < b.cols]
                lim = [q for q in hs if q not in ok]
                at = b.choose(ok + lim[:1]) if k in "rd" else b.choose(ok) if ok else None
                if at is None or at in cs and k == "rr":
                    continue
                cs.append(at)
                b.put("text", *at, "?" if ch == "?" else b.int(0, 3), pos="sudoku_2" if ch == "d" else "sudoku_1")
            elif ch == "e":
                b.edges(1)

    def spec(self, s):
        sy = list(s.sel("symbol"))
        black = {(t.r, t.c) for t in sy}
        if any(t.val.startswith("star") for t in sy) or (len(s.cells) - len(black)) % 3:
            s.bad(1)
            return
        runs = []
        for t in s.sel("text"):
            if not s.isint(t):
                continue
            dr, dc = (0, 1) if t.pos == "sudoku_1" else (1, 0)
            run, q = [], (t.r + dr, t.c + dc)
            while s.inb(*q) and q not in black:
                run.append(q)
                q = (q[0] + dr, q[1] + dc)
            if not run:
                s.bad(1)
                return
            runs.append((run, t.val))
        same = s.regions()
        hole_edges(s, {q: int(q in black) for q in s.cells})
        by = {q: [] for q in s.cells}
        bars = []
        for name, cells in {"I": [(0, 0), (0, 1), (0, 2)], "L": [(0, 0), (0, 1), (1, 0)]}.items():
            for pl in placements(s, fixed_forms(cells)):
                if pl & black:
                    continue
                l = s.And([same(min(pl), q) if q in pl else same(min(pl), q) ^ 1 for q in s.cells])
                for q in pl:
                    by[q].append(l)
                if name == "I":
                    bars.append((pl, l))
        for q in s.cells:
            if q not in black:
                s.req(s.Or(by[q]))
        for run, v in runs:
            s.req(s.num_is([l for pl, l in bars if pl & set(run)], v))


class Usoone(Spec):
    name = "usoone"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]
    cfgs = [
        {"board": (3, 3), "layout": ["AAB", "ABB", "AAB"]},
        {"board": (3, 3), "layout": ["AAA", "AAA", "AAA"], "x": True},
        {"board": (2, 4), "layout": ["AABB", "AABB"]},
        {"board": (4, 3), "layout": ["AAB", "ACB", "CCB", "CCB"]},
        {"board": (4, 4), "layout": ["AABB", "ACCB", "DCCB", "DDDB"]},
        {"board": (4, 5), "layout": ["AABBB", "ACCEB", "DCCEB", "DDDEE"]},
    ]

    # cells of the clues, when there are several
    AT = {
        (3, 3): ["0002", "1112", "002022", "0001"],
        (2, 4): ["0003", "0112", "001103"],
        (4, 3): ["0031", "1121", "002032"],
        (4, 4): ["0012", "00110333", "1121"],
        (4, 5): ["001304", "11213334"],
    }

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "n", "nB", "nO", "nX", "n4", "?"] + [q + t for q in self.AT[b.rows, b.cols] for t in ("", "O", "X", "B")])
        cs = [(int(r), int(c)) for r, c in zip(k[::2], k[1::2]) if k[:2].isdigit() and r.isdigit()]
        for q in cs:
            b.put("text", *q, b.int(0, 4))
        for ch in k[2 * len(cs):]:
            if ch in "n?":
                cs.append(b.cell())
                b.put("text", *cs[-1], b.int(0, 4) if ch == "n" else "?")
            elif ch == "B":
                if cs and len(k) > 2:
                    b.put("surface", *b.cell(), b.Color.BLACK)
                else:
                    givens(b)
            else:
                b.put("symbol", *cs[-1], {"O": "ox_E__1", "X": "ox_E__7", "4": "ox_E__4"}[ch])

    def spec(self, s):
        ts = list(s.sel("text"))
        if any(not s.isint(t) for t in ts):
            s.bad(1)
            return
        x, ok, no = s.xmap("gray"), s.xmap("ox_E__1"), s.xmap("ox_E__7")
        s.req(s.no_adj(x))
        s.req(s.connected({q: l ^ 1 for q, l in x.items()}))
        clue = s.has(ts)
        right = {q: [] for q in s.cells}
        for t in ts:
            for r, c, l in s.where(t):
                right[r, c].append(s.And(l, s.num_is([x[n] for n in s.adj(r, c)], t.val)))
        right = {q: s.Or(v) for q, v in right.items()}
        for q in s.cells:
            s.req(s.Implies(clue[q], x[q] ^ 1))
            s.req(s.Iff(ok[q], right[q]))
            s.req(s.Iff(no[q], s.And(clue[q], right[q] ^ 1)))
        for cs in s.room_list().values():
            s.req(s.Or(s.Or([clue[q] for q in cs]) ^ 1, s.Exactly([no[q] for q in cs], 1)))
        s.witness("wrong_clue", lambda a, r, c: no[r, c])
        for t in s.sel("symbol"):
            s.on(t, lambda r, c: ok[r, c] if t.val == "ox_E__1" else no[r, c])
        s.shade_givens(x)


class Voxas(Spec):
    name = "voxas"
    boards = [(2, 2), (2, 3), (3, 3), (3, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        k = b.choose(["", "1", "2", "5", "12", "55", "25", "n", "x", "e", "1e", "Q"])
        ed = []
        for ch in k:
            if ch == "e":
                ed += b.edges(1)
                continue
            d = b.choose(["top", "left"])
            r, c = b.cell(rmin=int(d == "top"), cmin=int(d == "left"))
            if ch != "n":
                ed.append(b.put("edge", r, c, ch != "x", d=d))
            b.put("symbol", r, c, "star__1" if ch == "Q" else "circle_SS__" + (ch if ch in "125" else "1"), d=d)
        b._same_key_distinct(ed)

    def spec(self, s):
        sy = list(s.sel("symbol"))
        bare = [t for t in sy if not any(e.r is t.r and e.c is t.c and e.d == t.d and e.val for e in s.sel("edge"))]
        if bare or any(t.val.startswith("star") for t in sy):
            s.bad(1)
            return
        same = s.regions()
        is_ = {q: {} for q in s.cells}
        for n in (2, 3):
            for v in (0, 1):
                for pl in placements(s, [[(i * v, i * (1 - v)) for i in range(n)]]):
                    l = s.And([same(min(pl), q) if q in pl else same(min(pl), q) ^ 1 for q in s.cells])
                    for q in pl:
                        is_[q].setdefault((n, v), []).append(l)
        is_ = {q: {t: s.Or(v) for t, v in d.items()} for q, d in is_.items()}
        for q in s.cells:
            s.req(s.Or(list(is_[q].values())))
        for t in sy:
            for r, c, l in s.where(t):
                q, n = (r, c), (r - 1, c) if t.d == "top" else (r, c - 1)
                size = s.Or([s.And(is_[q].get((k, v), 0), is_[n].get((k, w), 0)) for k in (2, 3) for v in (0, 1) for w in (0, 1)])
                turn = s.Or([s.And(is_[q].get((k, v), 0), is_[n].get((j, v), 0)) for k in (2, 3) for j in (2, 3) for v in (0, 1)])
                if t.val == "circle_SS__1":
                    s.req(s.Implies(l, s.And(size, turn)))
                elif t.val == "circle_SS__2":
                    s.req(s.Implies(l, s.And(size ^ 1, turn ^ 1)))
                else:
                    s.req(s.Implies(l, s.Xor(size, turn)))


class YajiKazu(Spec):
    name = "yajikazu"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5), (5, 5)]

    def build(self, b):
        k = b.choose(["", "u", "l", "r", "d", "ur", "ll", "dlr", "n", "q", "rB", "dG"])
        arrow_clues(b, k.strip("BG"), 3)
        if not k:
            givens(b)
        elif k[-1] in "BG":
            b.put("surface", *b.cell(), b.Color["BLACK" if k[-1] == "B" else "GREEN"])

    def spec(self, s):
        if badly_arrowed(s):
            return
        x = s.xmap("gray")
        s.req(s.no_adj(x))
        s.req(s.connected({q: l ^ 1 for q, l in x.items()}))
        s.req(s.Or(list(x.values())))
        for t in s.sel("text"):
            v, d = t.num
            s.on(t, lambda r, c: s.Or(x[r, c], s.num_is([x[q] for q in s.rays(r, c)[RAY[d]]], v)))
        s.shade_givens(x)


class Yajilin(Spec):
    name = "yajilin"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]

    def build(self, b):
        k = b.choose(["", "u", "l", "r", "d", "ur", "n", "q", "?", "s", "e", "dB", "rx", "lG", "?L"])
        cs = []
        for ch in k:
            if ch in "ulrdnq":
                cs += arrow_clues(b, ch, 2)
            elif ch in "?se":
                cs.append(b.cell())
                b.put("text", *cs[-1], {"?": "?", "s": " ", "e": ""}[ch])
            elif ch in "BG":
                cs.append(b.cell())
                b.put("surface", *cs[-1], b.Color["BLACK" if ch == "B" else "GREEN"])
            else:
                gline(b)
        b.distinct(*cs)
        if not k:
            gline(b)

    def spec(self, s):
        if badly_arrowed(s) or any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        clue = s.has(s.sel("text"))
        x = s.xmap("black")
        D = s.path()
        vis = s.single_loop(D)
        s.witness("white", lambda r, c: vis[r, c])
        s.req(s.no_adj(x))
        for q in s.cells:
            s.req(s.Exactly([clue[q], x[q], vis[q]], 1))
        for t in s.sel("text"):
            if not hasattr(t, "num"):
                continue
            v, d = t.num
            s.on(t, lambda r, c: s.num_is([x[q] for q in s.rays(r, c)[RAY[d]]], v))
        for t in s.sel("surface"):
            s.on(t, lambda r, c: x[r, c])
        s.line_givens(D)


class YajilinRegions(Spec):
    name = "yajilin_regions"
    boards = [(3, 3), (2, 4), (4, 3), (4, 4)]
    thorough_boards = [(4, 5)]
    cfgs = [
        {"board": (3, 3), "layout": ["AAB", "ABB", "AAB"]},
        {"board": (2, 4), "layout": ["AABB", "ABBB"], "x": True},
        {"board": (4, 3), "layout": ["AAB", "ACB", "CCB", "CCB"]},
        {"board": (4, 4), "layout": ["AABB", "ACCB", "DCCB", "DDDB"]},
        {"board": (4, 5), "layout": ["AABBB", "ACCEB", "DCCEB", "DDDEE"]},
    ]

    def build(self, b):
        b.rooms(b.cfg["layout"])
        k = b.choose(["", "n", "nn", "?", "B", "nG", "nx"])
        cs = []
        for ch in k:
            if ch in "n?":
                cs.append(b.cell())
                b.put("text", *cs[-1], b.int(0, 3) if ch == "n" else "?", pos="sudoku_0")
            elif ch == "x":
                gline(b)
            else:
                b.put("surface", *b.cell(), b.Color["BLACK" if ch == "B" else "GREEN"])
        b.distinct(*cs)

    def spec(self, s):
        if any(t.val.name == "GREEN" for t in s.sel("surface")):
            s.bad(1)
            return
        x = s.xmap("black")
        D = s.path()
        vis = s.single_loop(D)
        s.witness("white", lambda r, c: vis[r, c])
        s.req(s.no_adj(x))
        for q in s.cells:
            s.req(s.Xor(x[q], vis[q]))
        s.one_per_room(s.sel("text"))
        for t in s.sel("text"):
            if s.isint(t):
                s.on_room(t, lambda cs: s.num_is([x[q] for q in cs], t.val))
        for t in s.sel("surface"):
            s.on(t, lambda r, c: x[r, c])
        s.line_givens(D)


class Yajitatami(Spec):
    name = "yajitatami"
    boards = [(2, 3), (3, 3), (2, 4), (4, 3)]
    thorough_boards = [(4, 4)]

    def build(self, b):
        k = b.choose(["", "u", "l", "r", "d", "ud", "lr", "n", "q", "re", "de"])
        arrow_clues(b, k.strip("e"), 3)
        if k.endswith("e"):
            b.edges(1)

    def spec(self, s):
        if badly_arrowed(s) or not list(s.sel("text")):
            s.bad(1)
            return
        same = s.regions()
        by = {q: [] for q in s.cells}
        for v in (0, 1):
            for n in range(2, 6):
                for pl in placements(s, [[(i * v, i * (1 - v)) for i in range(n)]]):
                    l = s.And([same(min(pl), q) if q in pl else same(min(pl), q) ^ 1 for q in s.cells])
                    for q in pl:
                        by[q].append(l)
        for q in s.cells:
            s.req(s.Or(by[q]))
        no_crossing(s)
        for t in s.sel("text"):
            v, d = t.num
            s.on(t, lambda r, c: s.num_is([same((r, c), q) for q in s.cells], v))

            def lines(r, c):
                ray = [(r, c)] + s.rays(r, c)[RAY[d]]
                cuts = [s.open(a, q) ^ 1 for a, q in zip(ray, ray[1:])]
                # the arrow starts at a border (of the board or of its own region)
                return s.And(cuts[0] if cuts else 1, s.num_is(cuts, v))

            s.on(t, lines)


class Yinyang(Spec):
    name = "yinyang"
    boards = [(2, 2), (3, 3), (2, 4), (4, 3), (4, 4), (1, 4)]
    thorough_boards = [(4, 5), (5, 5)]

    def build(self, b):
        cs = []
        for ch in b.choose(["", "w", "b", "ww", "wb", "bb", "wbw"]):
            cs.append(b.cell())
            b.put("symbol", *cs[-1], "circle_M__1" if ch == "w" else "circle_M__2")
        b.distinct(*cs)

    def spec(self, s):
        w, k = s.xmap("circle_M__1"), s.xmap("circle_M__2")
        for q in s.cells:
            s.req(s.Xor(w[q], k[q]))
        for m in (w, k):
            s.req(s.no2x2(m))
            s.req(s.connected(m))
        for t in s.sel("symbol"):
            s.on(t, lambda r, c: w[r, c] if t.val == "circle_M__1" else k[r, c])
