"""Rule specifications: battleship."""

from puz import Spec


class Battleship(Spec):
    """A fleet of 4 single cells, 3 ships of length 2, 2 of length 3 and 1 of length 4, which do not touch, not even diagonally;
    numbers outside count ship cells; parts drawn show where the ship goes on."""

    name = "battleship"
    boards = [(8, 8), (7, 9), (3, 4)]
    thorough_boards = [(10, 10)]
    cfgs = [
        {"board": (8, 8), "k": ["r"]},
        {"board": (8, 8), "k": ["c"]},
        *[{"board": (8, 8), "k": ["p"], "n": [n], "fleet": ["battleship_" + "BGW"[n % 3]]} for n in range(1, 7)],
        {"board": (7, 9), "k": ["w"], "n": [7, 8], "fleet": ["battleship_G"]},
        {"board": (3, 4), "k": ["", "p", "pp", "r"], "n": range(1, 9), "fleet": ["battleship_B", "battleship_G"]},
        {"board": (10, 10), "k": ["", "r", "c"]},
        {"board": (10, 10), "k": ["p"], "n": range(1, 9), "fleet": ["battleship_G"]},
    ]
    may_be_empty = True

    def build(self, b):
        k = b.choose(b.cfg["k"])
        fleet = b.choose(b.cfg["fleet"]) if "p" in k or "w" in k else "battleship_B"
        cs = []
        for ch in k:
            if ch in "pw":
                cs.append(b.cell())
                n = b.choose(b.cfg["n"])
                b.put("symbol", *cs[-1], f"{fleet}__{n}", tag=(fleet, n))
            elif ch == "r":
                r, _ = b.cell()
                b.put("text", r, -1, b.int(0, 9), tag="r")
            else:
                _, c = b.cell()
                b.put("text", -1, c, b.int(0, 9), tag="c")
        b.distinct(*cs)

    def spec(self, s):
        parts = [(t, *t.tag) for t in s.sel("symbol")]
        x = s.xmap(parts[0][1] if parts else "battleship_B")
        at = lambda r, c: x.get((r, c), 0)
        by = {q: [] for q in s.cells}
        for n in range(1, 5):
            ls = []
            for dr, dc in ((0, 1), (1, 0)) if n > 1 else ((0, 1),):
                for r0, c0 in s.cells:
                    cs = [(r0 + dr * i, c0 + dc * i) for i in range(n)]
                    if any(q not in x for q in cs):
                        continue
                    rim = {a for q in cs for a in s.adj8(*q)} - set(cs)
                    l = s.And(*[x[q] for q in cs], *[x[q] ^ 1 for q in rim])
                    ls.append(l)
                    for q in cs:
                        by[q].append(l)
            s.req(s.Exactly(ls, 5 - n))
        for q in s.cells:
            s.req(s.Implies(x[q], s.Or(by[q])))

        def part(n):
            def f(r, c):
                u, d, l, rt = at(r - 1, c), at(r + 1, c), at(r, c - 1), at(r, c + 1)
                return s.And(x[r, c], {
                    1: s.And(u ^ 1, d ^ 1, l ^ 1, rt ^ 1),
                    2: s.Or(s.And(u, d), s.And(l, rt)),
                    3: s.And(rt, l ^ 1),
                    4: s.And(d, u ^ 1),
                    5: s.And(l, rt ^ 1),
                    6: s.And(u, d ^ 1),
                }[n])

            return f

        edge = {
            1: lambda r, c: False,
            2: lambda r, c: r in (0, s.rows - 1) and c in (0, s.cols - 1),
            3: lambda r, c: c == s.cols - 1,
            4: lambda r, c: r == s.rows - 1,
            5: lambda r, c: c == 0,
            6: lambda r, c: r == 0,
        }
        for t, _, n in parts:
            for r, c, l in s.where(t):
                if n < 7 and edge[n](r, c):  # no ship goes there: no answer, or an error
                    s.unsure(l)
            s.on(t, part(n) if n < 7 else lambda r, c: x[r, c] ^ 1)
        for t in s.sel("text"):
            line = (lambda r, c: [x[r, i] for i in range(s.cols)]) if t.tag == "r" else (lambda r, c: [x[i, c] for i in range(s.rows)])
            for r, c, l in s.where(t):
                s.req(s.Implies(l, s.num_is(line(r, c), t.val)))
