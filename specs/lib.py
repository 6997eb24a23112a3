"""Shared pieces of the specifications: room layouts and givens."""

LAYOUTS = {
    (2, 2): [["AA", "AB"], ["AB", "AB"]],
    (2, 3): [["AAB", "ABB"], ["ABC", "ABC"]],
    (3, 2): [["AB", "AB", "BB"], ["AA", "BC", "BC"]],
    (3, 3): [["AAB", "CAB", "CCC"], ["AAA", "ABA", "AAA"], ["ABB", "ABC", "DDC"]],
    (2, 4): [["AABB", "CABD"], ["AAAB", "BBBB"]],
    (4, 2): [["AB", "AB", "AC", "CC"], ["AA", "AB", "CB", "CC"]],
    (3, 4): [["AABB", "CABD", "CCDD"], ["AAAB", "CCBB", "CDDD"]],
    (4, 3): [["AAB", "ACB", "CCB", "DDD"], ["ABB", "ABC", "DDC", "DEE"]],
    (4, 4): [["AABB", "ACCB", "DCEE", "DDEF"], ["AAAB", "CAAB", "CCDB", "CDDD"]],
    (3, 5): [["AABBB", "CADDB", "CCDEE"]],
    (5, 3): [["AAB", "CBB", "CCD", "EDD", "EEE"]],
    (1, 4): [["AABB"]],
    (1, 5): [["AABBB"]],
    (5, 5): [["AABBC", "ADDBC", "AEDFC", "EEFFC", "GGGFF"]],
}


def layouts(rows, cols):
    return LAYOUTS[rows, cols]


def room_cfgs(boards, limit=None, x=True, extra=None, own=None):
    """One configuration per layout of each board; x: the first board also with helper crosses on all other edges and the frame drawn.

    own: layouts used instead of the common ones, for rules which leave no answer on those."""
    out = []
    for i, rc in enumerate(boards):
        for j, lay in enumerate((own or {}).get(rc, LAYOUTS[rc])[:limit]):
            cfg = {"board": rc, "layout": lay, **(extra or {})}
            out.append(cfg)
            if x and i == j == 0:
                out.append({**cfg, "x": True})
    return out


def givens(b, n=1, colors=("BLACK", "GRAY", "GREEN")):
    """Up to n coloured cells given."""
    if b.choose(list(range(n + 1))):
        b.surfaces(1, list(colors))


def run_free(s, x, k, val):
    """No k consecutive cells in a row or column with colour val."""
    for r, c in s.cells:
        for dr, dc in ((0, 1), (1, 0)):
            ln = [(r + i * dr, c + i * dc) for i in range(k)]
            if all(n in x for n in ln):
                s.req(s.And([x[n] if val else x[n] ^ 1 for n in ln]) ^ 1)


def gline(b):
    """One given line half (or cross)."""
    d, w = b.choose([("r", True), ("d", False), ("l", False), ("u", True)])
    b.lines(1, [d], [w])


def rect_is_comp(s, x, r1, c1, r2, c2):
    """The rectangle is exactly a connected group of x cells."""
    ins = [x[r, c] for r in range(r1, r2 + 1) for c in range(c1, c2 + 1)]
    out = [x[r, c] ^ 1 for r in range(r1, r2 + 1) for c in (c1 - 1, c2 + 1) if s.inb(r, c)]
    out += [x[r, c] ^ 1 for c in range(c1, c2 + 1) for r in (r1 - 1, r2 + 1) if s.inb(r, c)]
    return s.And(ins + out)


def rects(s):
    R, C = s.rows, s.cols
    return [
        (r1, c1, r2, c2) for r1 in range(R) for c1 in range(C) for r2 in range(r1, R) for c2 in range(c1, C)
    ]


def only_rects(s, x, square=False):
    """Every group of x cells is a rectangle (a square)."""
    for r in range(s.rows - 1):
        for c in range(s.cols - 1):
            q = [x[r, c], x[r + 1, c], x[r, c + 1], x[r + 1, c + 1]]
            s.req(s.Exactly(q, 3) ^ 1)
    if square:
        for r1, c1, r2, c2 in rects(s):
            if r2 - r1 != c2 - c1:
                s.req(rect_is_comp(s, x, r1, c1, r2, c2) ^ 1)


def no_rects(s, x):
    for q in rects(s):
        s.req(rect_is_comp(s, x, *q) ^ 1)


def room_counts(s, x):
    """A number in a room: that many x cells in it."""
    s.one_per_room(s.sel("text"))
    for it in s.sel("text"):
        if s.isint(it):
            s.on_room(it, lambda cs: s.num_is([x[c] for c in cs], it.val))


def borders(s):
    """Pairs of adjacent cells in different rooms."""
    ro = s.room_of()
    return [(a, n) for a in s.cells for n in s.adj(*a) if n > a and ro[a] != ro[n]]


def sizes_are(s, same, n):
    for a in s.cells:
        s.req(s.Exactly([same(a, q) for q in s.cells], n))


def no_crossing(s):
    """No point where four borders meet."""
    for r in range(s.rows - 1):
        for c in range(s.cols - 1):
            s.req(s.And(s.EL[r, c + 1], s.EL[r + 1, c + 1], s.ET[r + 1, c], s.ET[r + 1, c + 1]) ^ 1)


def hole_edges(s, hole):
    """Cells that are not part of the board: bordered off, without borders among them."""
    for a in s.cells:
        for n in s.adj(*a):
            if n > a:
                s.req(s.Implies(s.Xor(hole[a], hole[n]), s.open(a, n) ^ 1))
                s.req(s.Implies(s.And(hole[a], hole[n]), s.open(a, n)))


def edges_around(s, r, c):
    return [s.EL[r, c], s.EL[r, c + 1], s.ET[r, c], s.ET[r + 1, c]]


def std(b, n, ints, others=("?",), colors=("BLACK", "GRAY", "GREEN"), **kw):
    """Usual content of a board: numbers (at most n), unknown numbers, coloured cells, and some combinations."""
    opts = [(0, None)] + [(0, c) for c in colors]
    if n >= 1:
        opts += [("int", None), *[("int", c) for c in dict.fromkeys((colors[0], colors[-1]))], *[(o, None) for o in others]]
    if n >= 2:
        opts += [("int2", None)]
    k, col = b.choose(opts)
    if k:
        b.texts(2 if k == "int2" else 1, ints if k in ("int", "int2") else None, [] if k in ("int", "int2") else [k], **kw)
    if col:
        b.surfaces(1, [col])
