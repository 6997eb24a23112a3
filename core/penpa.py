"""D01, D02: the Penpa format.  The real decoder and encoder run on boards of symbolic size with elements at symbolic places."""

import base64
import itertools
import json
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import z3

import hooks
import puz
import sym
from sym import SymInt, SymMap, SymStr

RAW = "\ue0fe"  # marks a number inside a JSON string
ABBR = {"qa": "z9", "pu_q": "zQ", "pu_a": "zA", "grid": "zG", "edit_mode": "zM", "surface": "zS", "line": "zL", "edge": "zE",
        "wall": "zW", "cage": "zC", "number": "zN", "sudoku": "z1", "symbol": "zY", "special": "zP", "board": "zB",
        "command_redo": "zR", "command_undo": "zU", "command_replay": "z8", "freeline": "zF", "freeedge": "z2", "thermo": "zT",
        "arrows": "z3", "d": "zD", "squareframe": "z0", "polygon": "z5", "deleteedge": "z4", "killercages": "z6",
        "nobulbthermo": "z7", "__a": "z_"}
LAYER = ("surface", "number", "sudoku", "symbol", "edge", "line")
PREFIX = "m=edit&p="


hooks.install()
REAL_LOADS, REAL_DUMPS = json.loads.real, json.dumps.real


def explore(fn):
    def run(ctx):
        hooks.JSON = SymJson
        try:
            return fn(ctx)
        finally:
            hooks.JSON = None

    return sym.explore(run, asp_mode=False)


class SymJson:
    """json for documents with symbolic integers."""

    JSONDecodeError = json.JSONDecodeError

    @staticmethod
    def loads(text):
        text = str.__str__(text)
        if not sym.has_token(text):
            return _in(REAL_LOADS(text, object_pairs_hook=lambda ps: SymMap(ps)))
        out, inside, i = [], False, 0
        while i < len(text):
            ch = text[i]
            if ch == '"':
                inside = not inside
            if ch == sym.T0 and not inside:
                j = text.index(sym.T1, i)
                out.append(f'"{RAW}{text[i:j + 1]}"')
                i = j + 1
                continue
            if ch == "\\" and inside:
                out.append(text[i : i + 2])
                i += 2
                continue
            out.append(ch)
            i += 1
        return _in(REAL_LOADS("".join(out), object_pairs_hook=lambda ps: SymMap(ps)))

    @staticmethod
    def dumps(obj, **kw):
        return REAL_DUMPS(_out(obj), ensure_ascii=False).replace(f'"{RAW}', "").replace(f'{RAW}"', "")


def _in(v):
    if isinstance(v, SymMap):
        m = SymMap()
        for k, x in v.items():
            m[SymStr(k)] = _in(x)
        return m
    if isinstance(v, list):
        return [_in(x) for x in v]
    if isinstance(v, str):
        if v.startswith(RAW):
            return sym.cur().tok_expr(sym.tokens_of(v)[0][2])
        return SymStr(v)
    return v


def _out(v):
    if hasattr(v, "items"):
        return {str.__str__(k): _out(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_out(x) for x in v]
    if isinstance(v, SymInt):
        return f"{RAW}{v}{RAW}"
    if isinstance(v, str):
        return str.__str__(v)
    return v


def setup():
    """The real modules, reading and writing documents with symbolic integers."""
    puz.load_repo()
    from noqx import manager
    from noqx.puzzle import penpa

    real = penpa.PenpaPuzzle
    if not hasattr(real, "_symbolic"):

        class Sym(real):
            _symbolic = True

            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                for n in ("surface", "text", "symbol", "edge", "line"):
                    setattr(self, n, SymMap())

        Sym.__name__ = real.__name__
        for m in (penpa, manager):
            m.__dict__["PenpaPuzzle"] = Sym
    return manager, penpa


# ---------------------------------------------------------------- the format, as Penpa-edit defines it
class Board:
    """A square board: rows x cols cells inside four margins.  Penpa numbers the points of the extended board
    (two more rows and columns on each side), kind after kind: 0 centres, 1 lower right corners, 2 lower edges,
    3 right edges, 4.. quarter points (four per cell)."""

    def __init__(self, rows, cols, margin):
        self.rows, self.cols, self.margin = rows, cols, margin
        t, b, l, r = margin
        self.h, self.w = rows + t + b + 4, cols + l + r + 4

    def idx(self, kind, r, c):
        return kind * (self.h * self.w) + (r + self.margin[0] + 2) * self.w + (c + self.margin[2] + 2)

    def quarter(self, n, r, c):
        """Quarter point n of a cell: 0..3 the corners, 4..7 the sides."""
        return 4 * self.idx(1 + n // 4, r, c) + n % 4 if False else 4 * (self.idx(0, r, c) + (1 + n // 4) * (self.h * self.w)) + n % 4

    def url(self, edit, sol, head="square"):
        """A drawing; the layers map a kind of element to [(key text, JSON value)]."""
        t, b, l, r = self.margin
        parts = [
            f"{head},{self.cols + l + r},{self.rows + t + b},38,0,1,1,646,646,210,210",
            f"[{t},{b},{l},{r}]",
            '["1","2","1"]~zS',
            layer_json(edit),
            layer_json(sol),
            "[61,7,3,1]",
            "extra,zY",
        ]
        body = "\n".join(parts)
        return PREFIX + base64.b64encode(zlib.compress(body.encode())[2:-4]).decode(), parts


def layer_json(layer):
    d = {k: [] for k in ("command_redo", "command_undo", "command_replay", *LAYER, "wall")}
    for k, e in layer.items():
        d[k] = e
    inner = ",".join(f'"{k}":{{' + ",".join(f'"{a}":{json.dumps(b, ensure_ascii=False)}' for a, b in v) + "}" for k, v in d.items())
    s = "{" + inner + "}"
    for k, a in ABBR.items():
        s = s.replace(f'"{k}"', a)
    return s.replace("null", "zO")


def unabbr(s):
    for k, a in ABBR.items():
        s = s.replace(a, f'"{k}"')
    return s.replace("zO", "null")


# the elements drawn: name -> function of the board and a cell giving (layer kind, key, value, expected)
# expected: [(map, row, column, direction, position, value)]
def _surface(code, col):
    return lambda B, r, c: ("surface", f"{B.idx(0, r, c)}", code, [("surface", r, c, "center", "normal", col)] if col else [])


POINTS = {0: ("center", 0, 0), 1: ("top_left", 1, 1), 2: ("top", 1, 0), 3: ("left", 0, 1)}


def _number(text, sub, val, kind=0):
    def f(B, r, c):
        d, dr, dc = POINTS[kind]
        if sub == "4":
            exp = [("text", r + dr, c + dc, d, f"tapa_{i}", int(x) if x.isdigit() else x) for i, x in enumerate(text)]
        else:
            exp = [("text", r + dr, c + dc, d, "normal", val)] if val is not None else []
        return ("number", f"{B.idx(kind, r, c)}", [text, 1, sub], exp)

    return f


def _quarter(n, text, val):
    return lambda B, r, c: ("sudoku", f"{B.quarter(n, r, c)}", [text, 1, "1"], [("text", r, c, "center", f"sudoku_{n}", val)])


def _symbol(style, shape, kind, name, pos="normal"):
    def f(B, r, c):
        d, dr, dc = POINTS[kind]
        return ("symbol", f"{B.idx(kind, r, c)}", [style, shape, 1], [("symbol", r + dr, c + dc, d, pos, name)])

    return f


def _edge(kind):
    def f(B, r, c):
        v = lambda a, b: B.idx(1, a, b)  # the corner below right of cell (a, b)
        a, b, d = {
            "top": (v(r - 1, c - 1), v(r - 1, c), "top"),
            "left": (v(r - 1, c - 1), v(r, c - 1), "left"),
            "up": (v(r, c - 1), v(r - 1, c), "diag_up"),
            "down": (v(r - 1, c - 1), v(r, c), "diag_down"),
        }[kind]
        # Penpa writes the smaller corner first, except for the rising diagonal drawn from below
        if kind == "down":
            return ("edge", f"{a},{b}", 2, [("edge", r, c, "diag_down", "normal", True)])
        return ("edge", f"{a},{b}", 2, [("edge", r, c, d, "normal", True)])

    return f


def _edge_x(kind):
    def f(B, r, c):
        if kind == "top":
            return ("edge", f"{B.idx(2, r - 1, c)}", 98, [("edge", r, c, "top", "normal", False)])
        return ("edge", f"{B.idx(3, r, c - 1)}", 98, [("edge", r, c, "left", "normal", False)])

    return f


def _line(kind, style=3):
    def f(B, r, c):
        i = B.idx(0, r, c)
        m = "" if f.hashi is None else ("_2" if style == 30 else "_1")
        L = lambda a, b, p: ("line", a, b, "center", p + m, True)
        return {
            "right": ("line", f"{i},{B.idx(0, r, c + 1)}", style, [L(r, c, "r"), L(r, c + 1, "l")]),
            "down": ("line", f"{i},{B.idx(0, r + 1, c)}", style, [L(r, c, "d"), L(r + 1, c, "u")]),
            "r": ("line", f"{i},{B.idx(3, r, c)}", style, [L(r, c, "r")]),
            "l": ("line", f"{i},{B.idx(3, r, c - 1)}", style, [L(r, c, "l")]),
            "d": ("line", f"{i},{B.idx(2, r, c)}", style, [L(r, c, "d")]),
            "u": ("line", f"{i},{B.idx(2, r - 1, c)}", style, [L(r, c, "u")]),
        }[kind]

    f.hashi = None
    return f


def _hline(kind, style):
    f = _line(kind, style)
    f.hashi = True
    return f


def _line_x(kind):
    def f(B, r, c):
        L = lambda a, b, p: ("line", a, b, "center", p, False)
        if kind == "down":
            return ("line", f"{B.idx(2, r, c)}", 98, [L(r, c, "d"), L(r + 1, c, "u")])
        return ("line", f"{B.idx(3, r, c)}", 98, [L(r, c, "r"), L(r, c + 1, "l")])

    return f


ELEMENTS = {
    "surface gray 1": _surface(1, "GRAY"),
    "surface gray 3": _surface(3, "GRAY"),
    "surface gray 8": _surface(8, "GRAY"),
    "surface black": _surface(4, "BLACK"),
    "surface green": _surface(2, "GREEN"),
    "surface other": _surface(5, None),
    "number 12": _number("12", "1", 12),
    "number 0": _number("0", "1", 0),
    "number ?": _number("?", "1", "?"),
    "number text": _number("A3", "6", "A3"),
    "number blank": _number(" ", "1", " "),
    "number int": _number(7, "1", 7),
    "arrow": _number("3_1", "2", "3_1"),
    "candidates": _number("123", "7", None),
    "tapa": _number("1?3", "4", None),
    "tapa one": _number("0", "4", None),
    "number on edge": _number("4", "1", 4, 2),
    "number on left edge": _number("4", "1", 4, 3),
    "number on corner": _number("x", "5", "x", 1),
    **{f"sudoku {n}": _quarter(n, str(n + 3), n + 3) for n in range(8)},
    "sudoku ?": _quarter(2, "?", "?"),
    "symbol": _symbol(1, "circle_M", 0, "circle_M__1"),
    "symbol on corner": _symbol(2, "circle_SS", 1, "circle_SS__2"),
    "symbol on edge": _symbol(5, "circle_SS", 2, "circle_SS__5"),
    "symbol on left edge": _symbol(8, "inequality", 3, "inequality__8"),
    "symbol multiple": _symbol([0, 1, 0, 1, 1, 0, 0, 0], "arrow_cross", 0, "arrow_cross__88", "multiple"),
    "symbol multiple 2": _symbol([1, 0, 0, 0], "arrow_fouredge_B", 0, "arrow_fouredge_B__8", "multiple"),
    **{f"edge {k}": _edge(k) for k in ("top", "left")},
    "edge cross top": _edge_x("top"),
    "edge cross left": _edge_x("left"),
    **{f"line {k}": _line(k) for k in ("right", "down", "r", "l", "d", "u")},
    "line cross down": _line_x("down"),
    "line cross right": _line_x("right"),
}
HASHI = {f"bridge {k} {s}": _hline(k, s) for k in ("right", "down", "r", "u") for s in (3, 30)}
NONDANGO = {
    "mark": _symbol(4, "circle_M", 0, "circle_M__4", "nondango_mark"),
    "circle": _symbol(1, "circle_M", 0, "circle_M__1"),
}


def draw(name):
    return {**ELEMENTS, **HASHI, **NONDANGO}[name]


def frames(tier):
    """Board sizes and margins: every asymmetry between rows and columns and between the margins."""
    sizes = [(1, 1), (1, 4), (3, 1), (2, 3), (5, 2), (12, 10), (17, 38)]
    margins = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 2, 0, 0), (0, 0, 1, 0), (0, 0, 0, 3), (1, 2, 3, 4)]
    if tier != "quick":
        sizes = list(itertools.product(range(1, 8), repeat=2)) + [(20, 36), (36, 20), (17, 38)]
        margins += list(itertools.product(range(2), repeat=4))
    return list(itertools.product(sizes, margins))


def sym_board(ctx, tier):
    (rows, cols), margin = ctx.choose(frames(tier))
    return Board(rows, cols, list(margin))


def sym_cell(ctx, B, n=""):
    """Any cell of the board and its margins."""
    t, b, l, r = B.margin
    y, x = ctx.int("r" + n, None), ctx.int("c" + n, None)
    ctx.assume(z3.And(y.z >= -t, y.z < B.rows + b, x.z >= -l, x.z < B.cols + r))
    return y, x


def z_(v):
    return v.z if isinstance(v, SymInt) else z3.IntVal(v)


def same_val(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return z3.BoolVal(False)
        return z_(a) == z_(b)
    a, b = (getattr(v, "name", v) if not isinstance(v, str) else str.__str__(v) for v in (a, b))
    return z3.BoolVal(type(a) is type(b) and a == b)


def same_entries(got, want):
    """The two lists hold the same entries (as sets); entries: tuples of concrete and symbolic parts."""
    if len(got) != len(want):
        return z3.BoolVal(False)
    alts = []
    for p in itertools.permutations(range(len(want))):
        cs = []
        for g, i in zip(got, p):
            w = want[i]
            if g[0] != w[0] or len(g) != len(w):
                cs = None
                break
            cs.append(z3.And([same_val(a, b) for a, b in zip(g, w)]))
        if cs is not None:
            alts.append(z3.And(cs))
    return z3.Or(alts)


def entries(p):
    return [
        (k, q.r, q.c, q.d.value, sym.subst_tokens(q.pos) if sym.has_token(q.pos) else str.__str__(q.pos), v)
        for k in ("surface", "text", "symbol", "edge", "line")
        for q, v in getattr(p, k).items()
    ]


class Prover:
    def __init__(self):
        self.stats = {"paths": 0, "queries": 0}
        self.solver_s = 0.0

    def refute(self, conds, goal):
        """A model of the conditions in which the goal fails, or None."""
        import time

        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 120000)
        s.add(*conds)
        s.add(z3.Not(goal))
        r = s.check()
        self.stats["queries"] += 1
        self.solver_s += time.time() - t0
        if r == z3.unknown:
            raise sym.Abort("z3 gives no answer")
        return s.model() if r == z3.sat else None

    def out(self, **kw):
        self.stats["queries"] += 0
        return {"stats": dict(self.stats), "solver_extra": {"queries": self.stats["queries"], "solver_s": round(self.solver_s, 2)}, **kw}


def model_env(path, m):
    return {n: m.eval(z3.Int(n), model_completion=True).as_long() for n in path.vars if not n.startswith(("quo", "rem"))}


def decode_case(B, r, c, names, layers, head="square"):
    """A drawing of elements (name, layer) at the cells; later entries of the edit layer win."""
    edit, sol, exp = {}, {}, {}
    for n, lay, (y, x) in zip(names, layers, zip(r, c)):
        kind, key, val, e = draw(n)(B, y, x)
        (edit if lay == "edit" else sol).setdefault(kind, []).append((key, val))
    return edit, sol


def expected(B, names, layers, rs, cs):
    """Expected entries as a list of (entry, layer)."""
    out = []
    for lay in ("sol", "edit"):
        for n, l2, y, x in zip(names, layers, rs, cs):
            if l2 == lay:
                out += draw(n)(B, y, x)[3]
    return out


def replay_decode(case):
    """The real decoder on a concrete drawing."""
    from noqx.manager import prepare_puzzle

    B = Board(case["rows"], case["cols"], case["margin"])
    edit, sol = decode_case(B, case["r"], case["c"], case["names"], case["layers"])
    url, parts = B.url(edit, sol, case["head"])
    want = {}
    for e in expected(B, case["names"], case["layers"], case["r"], case["c"]):
        want[e[:5]] = e[5]
    print("drawing:", parts[0], parts[1], "edit", edit, "solution", sol)
    try:
        p = prepare_puzzle(case["puzzle"], url, {})
    except Exception as e:
        print("raised:", repr(e))
        return 10
    got = {(k, q.r, q.c, q.d.value, q.pos): getattr(v, "name", v) for k in ("surface", "text", "symbol", "edge", "line") for q, v in getattr(p, k).items()}
    size = (p.row, p.col, list(p.margin))
    print("read:", size, got)
    print("expected:", (case["rows"], case["cols"], case["margin"]), want)
    same = {k: (type(v), v) for k, v in got.items()} == {k: (type(v), v) for k, v in want.items()}
    return 0 if same and size == (case["rows"], case["cols"], list(case["margin"])) else 10


def decode(puzzle, names, layers, head, tier="quick"):
    """Elements at any cells of a board of any size with any margins are read as drawn, and nothing else is."""
    manager, penpa = setup()
    pr = Prover()
    n = len(names)

    def fn(ctx):
        B = sym_board(ctx, tier)
        rc = [sym_cell(ctx, B, str(i)) for i in range(n)]
        fn.B, fn.rc = B, rc
        rs, cs = [q[0] for q in rc], [q[1] for q in rc]
        edit, sol = decode_case(B, rs, cs, names, layers)
        # a layer holds one element per key
        for lay in (edit, sol):
            for es in lay.values():
                ks = {k for k, _ in es}
                if len(ks) < len(es):
                    raise sym.Infeasible()
        for i, j in itertools.combinations(range(n), 2):
            if layers[i] == layers[j] and draw(names[i])(B, *rc[i])[0] == draw(names[j])(B, *rc[j])[0]:
                ctx.assume(z3.Or(rs[i].z != rs[j].z, cs[i].z != cs[j].z))
        url, parts = B.url(edit, sol, head)
        p = manager.prepare_puzzle(puzzle, url, {})
        want = SymMap()
        for e in expected(B, names, layers, rs, cs):
            want[e[:5]] = e[5]
        return p.row, p.col, list(p.margin), entries(p), [(*k, v) for k, v in want.items()], B, rc

    for path in explore(fn):
        pr.stats["paths"] += 1
        B, rc = fn.B, fn.rc
        if path.exc is not None:
            goal = z3.BoolVal(False)
        else:
            row, col, margin, got, want, B, rc = path.result
            goal = z3.And(same_val(row, B.rows), same_val(col, B.cols), *[same_val(a, b) for a, b in zip(margin, B.margin)],
                          same_entries(got, want), z3.BoolVal(len(margin) == 4))
        m = pr.refute(path.conds, goal)
        if m is not None:
            env = model_env(path, m)
            case = {
                "fn": "decode", "puzzle": puzzle, "names": names, "layers": layers, "head": head,
                "rows": B.rows, "cols": B.cols, "margin": B.margin,
                "r": [env[f"r{i}"] for i in range(n)], "c": [env[f"c{i}"] for i in range(n)],
            }
            raise puz.Violation("decode", case, f"a drawing of {', '.join(names)} is read as something else")
    return pr.out(functions=["noqx.puzzle.penpa.PenpaPuzzle.decode", "noqx.manager.prepare_puzzle"])


# ---------------------------------------------------------------- writing answers
class Attr:
    """Settings of the stand-in solver (any name may be set or read)."""

    def __init__(self):
        self.__dict__["seen"] = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self.__dict__["seen"].setdefault(n, Attr())

    def __setattr__(self, n, v):
        self.__dict__["seen"][n] = v


class Model:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def fake_control(models, log):
    """clingo's Control: finds the given models, and records what it is asked to do."""

    class Handle:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            log.append(("exit",))
            return False

        def wait(self, t=None):
            log.append(("wait", t))
            return True

        def cancel(self):
            log.append(("cancel",))

        def get(self):
            log.append(("get",))

    class Control:
        def __init__(self, *a, **k):
            self.configuration = Attr()
            log.append(("control", self))

        def add(self, *a, **k):
            log.append(("add", [*a, *k.values()][-1]))

        def ground(self, *a, **k):
            log.append(("ground",))

        def solve(self, *a, on_model=None, async_=False, **k):
            c = self.configuration
            log.append(("solve", c.solve.models, c.solve.parallel_mode, async_))
            for m in models:
                if on_model(Model(m)) is False:
                    break
            return Handle()

    return Control


ATOMS = {
    "gray": ("gray({r},{c})", lambda B, r, c, v: ("surface", (B.idx(0, r, c),), 8)),
    "black": ("black({r},{c})", lambda B, r, c, v: ("surface", (B.idx(0, r, c),), 4)),
    "number": ("number({r},{c},{v})", lambda B, r, c, v: ("number", (B.idx(0, r, c),), [v, 2, "1"])),
    "numberx": ("numberx({r},{c},{v})", lambda B, r, c, v: ("number", (B.idx(0, r, c),), [v, 2, "1"])),
    "content": ('content({r},{c},"B")', lambda B, r, c, v: ("number", (B.idx(0, r, c),), ["B", 2, "1"])),
    **{f"triangle {k}": (f'triangle({{r}},{{c}},"{k}")', lambda B, r, c, v, n=n: ("symbol", (B.idx(0, r, c),), [n, "tri", 1])) for k, n in (("ul", 1), ("dl", 2), ("dr", 3), ("ur", 4))},
    "circle": ("circle_M__2({r},{c})", lambda B, r, c, v: ("symbol", (B.idx(0, r, c),), [2, "circle_M", 1])),
    "star": ("star__2({r},{c})", lambda B, r, c, v: ("symbol", (B.idx(0, r, c),), [2, "star", 1])),
    "mark": ("circle_M__4({r},{c})", lambda B, r, c, v: ("symbol", (B.idx(0, r, c),), [4, "circle_M", 1])),
    "edge_top": ("edge_top({r},{c})", lambda B, r, c, v: ("edge", (B.idx(1, r - 1, c - 1), B.idx(1, r - 1, c)), 3)),
    "edge_left": ("edge_left({r},{c})", lambda B, r, c, v: ("edge", (B.idx(1, r - 1, c - 1), B.idx(1, r, c - 1)), 3)),
    "edge_diag_up": ("edge_diag_up({r},{c})", lambda B, r, c, v: ("edge", (B.idx(1, r, c - 1), B.idx(1, r - 1, c)), 3)),
    "edge_diag_down": ("edge_diag_down({r},{c})", lambda B, r, c, v: ("edge", (B.idx(1, r - 1, c - 1), B.idx(1, r, c)), 3)),
}
SIDES = {"r": (3, 0, 0), "d": (2, 0, 0), "l": (3, 0, -1), "u": (2, -1, 0)}
for _p in ("grid_direction", "grid_in", "grid_out"):
    for _d, (_k, _y, _x) in SIDES.items():
        ATOMS[f"{_p} {_d}"] = (f'{_p}({{r}},{{c}},"{_d}")', lambda B, r, c, v, k=_k, y=_y, x=_x: ("line", (B.idx(0, r, c), B.idx(k, r + y, c + x)), 3))
BRIDGES = {}
for _d, (_k, _y, _x) in SIDES.items():
    for _n, _s in ((1, 3), (2, 30)):
        BRIDGES[f"bridge {_d} {_n}"] = (f'grid_direction({{r}},{{c}},"{_d}",{_n})', lambda B, r, c, v, k=_k, y=_y, x=_x, s=_s: ("line", (B.idx(0, r, c), B.idx(k, r + y, c + x)), s))
ALL_ATOMS = {**ATOMS, **BRIDGES}

# elements the drawing already holds, by the kind of entry the answer would write over: (key, value)
TAKEN = {
    "surface": lambda B, r, c: ((B.idx(0, r, c),), 2),
    "number": lambda B, r, c: ((B.idx(0, r, c),), ["?", 1, "1"]),
    "symbol": lambda B, r, c: ((B.idx(0, r, c),), [1, "circle_M", 1]),
    "edge": lambda B, r, c: ((B.idx(1, r - 1, c - 1), B.idx(1, r - 1, c)), 2),
    "line": lambda B, r, c: ((B.idx(0, r, c), B.idx(3, r, c)), 5),
}


FILL = {"surface": 2, "number": ["?", 1, "1"], "symbol": [1, "circle_M", 1], "edge": 2, "line": 5}


def taken(what, B, r, c):
    """An element already drawn: (kind, key, value); what: a kind, or the atom whose place it takes."""
    if what in TAKEN:
        return (what, *TAKEN[what](B, r, c))
    kind, key, _ = ALL_ATOMS[what][1](B, r, c, 0)
    return kind, key, FILL[kind]


def key_text(key):
    return ",".join(str(k) for k in key)


def parse_layer(text):
    """A layer of a drawing: {kind: [(key expressions, value)]}."""
    d = SymJson.loads(unabbr(text))
    out = {}
    for k, v in d.items():
        k = str.__str__(k)
        out[k] = [(key_exprs(a), b) for a, b in v.items()] if hasattr(v, "items") else v
    return out


def key_exprs(k):
    k = str.__str__(k)
    out = []
    for x in k.split(","):
        t = sym.tokens_of(x)
        if t and (t[0][0], t[0][1]) == (0, len(x)):
            out.append(sym.cur().tok_expr(t[0][2]))
        elif t or not x.lstrip("-").isdigit():
            out.append(x)
        else:
            out.append(int(x))
    return tuple(out)


def same_value(a, b):
    """Two JSON values; a list may hold symbolic numbers as text."""
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([same_value(x, y) for x, y in zip(a, b)])
    if isinstance(b, SymInt) or isinstance(a, SymInt):
        a, b = (key_exprs(x)[0] if isinstance(x, str) else x for x in (a, b))
        return same_val(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(str.__str__(a) == str.__str__(b))
    return z3.BoolVal(type(a) is type(b) and a == b)


def same_key(a, b):
    if len(a) != len(b):
        return z3.BoolVal(False)
    eq = lambda x, y: z3.And([same_val(p, q) for p, q in zip(x, y)])
    return z3.Or(eq(a, b), eq(a, b[::-1])) if len(a) == 2 else eq(a, b)


def same_layer(got, want):
    """got: {kind: [(key, value)]} has exactly the wanted entries."""
    cs = []
    for kind in set(got) | set(want):
        g, w = got.get(kind, []), want.get(kind, [])
        if not isinstance(g, list) or len(g) != len(w):
            return z3.BoolVal(False)
        alts = []
        for p in itertools.permutations(range(len(w))):
            alts.append(z3.And([z3.And(same_key(a[0], w[i][0]), same_value(a[1], w[i][1])) for a, i in zip(g, p)]))
        cs.append(z3.Or(alts) if w else z3.BoolVal(True))
    return z3.And(cs) if cs else z3.BoolVal(True)


def merge(ctx, sol, edit, writes, always=()):
    """The solution layer after the writes: later writes replace earlier ones, places taken in the edit layer stay free."""
    out = {k: list(v) for k, v in sol.items()}
    hit = lambda a, b: len(a) == len(b) and ctx.branch(z3.And([z_(x) == z_(y) for x, y in zip(a, b)]))
    for kind, key, val in writes:
        if kind not in always and any(hit(k, key) for k, _ in edit.get(kind, [])):
            continue
        out.setdefault(kind, [])
        out[kind] = [(k, v) for k, v in out[kind] if not hit(k, key)] + [(key, val)]
    return out


def body(url):
    assert url.startswith(PREFIX)
    return zlib.decompress(base64.b64decode(url[len(PREFIX) :]), -15).decode().split("\n")


def run_models(clingo_mod, puzzle, url, param, models, log):
    """The real run_solver on a stand-in for clingo that finds the given models."""
    import clingo
    import clingo.control
    from noqx import manager

    fake = fake_control(models, log)
    mod = manager.modules[puzzle]
    places = [m for m in (clingo, clingo.control, clingo_mod) if hasattr(m, "Control")]
    old = [m.Control for m in places]
    for m in places:
        m.Control = fake
    mod.solve = lambda p: log.append(("program",)) or ""
    try:
        return clingo_mod.run_solver(puzzle, url, param)["url"]
    finally:
        del mod.solve
        for m, c in zip(places, old):
            m.Control = c


def param_of(puzzle):
    return {"letters": "PQRSTUVWXYZ"} if puzzle == "easyasabc" else {}


def refined(puzzle, kind, val):
    """Puzzle types that show something else than the number."""
    if kind != "number":
        return val
    if puzzle == "news":
        return ["?NEWS"[val[0]], *val[1:]]
    if puzzle == "easyasabc":
        return ["PQRSTUVWXYZ"[val[0] - 1], *val[1:]]
    return val


def encode(puzzle, models, edit, sol, tier="quick"):
    """The drawings returned for the models (lists of atoms at any places) are the given drawing with the answer added."""
    setup()
    from noqx import clingo as nc

    pr = Prover()
    n = len(models)
    vals = {"news": (1, 4), "easyasabc": (1, 6)}.get(puzzle)

    def fn(ctx):
        fn.at = []
        B = fn.B = sym_board(ctx, tier)
        cell = lambda n: (ctx.int("r" + n, 0, B.rows - 1), ctx.int("c" + n, 0, B.cols - 1))
        lay, places = {"e": {}, "s": {}}, {}
        for w, kinds in (("e", edit), ("s", sol)):
            for i, k in enumerate(kinds):
                y, x = places[f"{w}{i}"] = cell(f"{w}{i}")
                kind, key, val = taken(k, B, y, x)
                lay[w].setdefault(kind, []).append((key, val))
        texts, want = [], []
        for m, names in enumerate(models):
            writes, atoms = [], []
            for i, name in enumerate(names):
                y, x = places[f"{m}_{i}"] = cell(f"{m}_{i}")
                v = None
                if "{v}" in ALL_ATOMS[name][0]:
                    v = ctx.int(f"v{m}_{i}", *(vals or (0, 30)))
                    if vals:
                        v = ctx.concretize(v)
                txt, w = ALL_ATOMS[name]
                atoms.append(txt.format(r=y, c=x, v=v))
                kind, key, val = w(B, y, x, v)
                val = refined(puzzle, kind, val)
                writes.append((kind, key, val))
            # a model is a set: atoms of one kind stand at different places
            for (k1, a, _), (k2, b, _) in itertools.combinations(writes, 2):
                if k1 == k2 and len(a) == len(b):
                    ctx.assume(z3.Not(z3.And([z_(p) == z_(q) for p, q in zip(a, b)])))
            texts.append(SymStr(" ".join(atoms)))
            always = ("symbol",) if puzzle == "nondango" else ("line",) if puzzle == "hashi" else ()
            want.append(merge(ctx, lay["s"], lay["e"], writes, always))
        tx = {w: {k: [(key_text(a), b) for a, b in v] for k, v in lay[w].items()} for w in lay}
        url, parts = B.url(tx["e"], tx["s"])
        fn.places = places
        urls = run_models(nc, puzzle, url, param_of(puzzle), texts, [])
        if len(urls) != n:
            return False
        goal = []
        base = parse_layer(parts[4])
        for u, w in zip(urls, want):
            got = body(u)
            if len(got) != len(parts) or any(str(a) != b for i, (a, b) in enumerate(zip(got, parts)) if i != 4):
                return False
            g = parse_layer(got[4])
            if set(g) != set(base):
                return False
            if any(g[k] != base[k] for k in base if k not in LAYER):
                return False
            goal.append(same_layer({k: g[k] for k in LAYER}, {**{k: [] for k in LAYER}, **w}))
        return z3.And(goal)

    for path in explore(fn):
        pr.stats["paths"] += 1
        goal = z3.BoolVal(False) if path.exc is not None or path.result is False else path.result
        m = pr.refute(path.conds, goal)
        if m is not None:
            env = model_env(path, m)
            B = fn.B
            ival = lambda v: env[v.e[1]] if isinstance(v, SymInt) and v.e[0] == "v" else int(v)
            case = {
                "fn": "encode", "puzzle": puzzle, "models": models, "edit": edit, "sol": sol, "rows": B.rows, "cols": B.cols, "margin": B.margin,
                "places": {k: [ival(a), ival(b)] for k, (a, b) in fn.places.items()}, "values": {k: v for k, v in env.items() if k.startswith("v")},
            }
            raise puz.Violation("encode", case, f"an answer of {models} is not drawn as it should be")
    return pr.out(functions=["noqx.clingo.run_solver", "noqx.clingo.ClingoSolver.solve", "noqx.manager.store_solution", "noqx.puzzle.penpa.PenpaPuzzle.encode", "noqx.puzzle.penpa.PenpaPuzzle.decode"])


def replay_encode(case):
    """The real run_solver (clingo replaced by the models) on a concrete drawing, read back with the plain json module."""
    from noqx import clingo as nc

    B = Board(case["rows"], case["cols"], case["margin"])
    at, puzzle = case["places"], case["puzzle"]
    lay = {"e": {}, "s": {}}
    for w, kinds in (("e", case["edit"]), ("s", case["sol"])):
        for i, k in enumerate(kinds):
            kind, key, val = taken(k, B, *at[f"{w}{i}"])
            lay[w].setdefault(kind, {})[key_text(key)] = val
    url, parts = B.url(*({k: list(v.items()) for k, v in lay[w].items()} for w in "es"))
    texts, wants = [], []
    always = ("symbol",) if puzzle == "nondango" else ("line",) if puzzle == "hashi" else ()
    for m, names in enumerate(case["models"]):
        want = {k: dict(lay["s"].get(k, {})) for k in LAYER}
        atoms = []
        for i, name in enumerate(names):
            y, x = at[f"{m}_{i}"]
            v = case["values"].get(f"v{m}_{i}")
            txt, f = ALL_ATOMS[name]
            atoms.append(txt.format(r=y, c=x, v=v))
            kind, key, val = f(B, y, x, v)
            val = refined(puzzle, kind, val)
            if kind not in always and key_text(key) in lay["e"].get(kind, {}):
                continue
            want[kind][key_text(key)] = [str(val[0]) if kind == "number" else val[0], *val[1:]] if isinstance(val, list) else val
        texts.append(" ".join(atoms))
        wants.append(want)
    print("board:", parts[0], parts[1], "edit layer:", lay["e"], "solution layer:", lay["s"])
    print("models:", texts)
    try:
        urls = run_models(nc, puzzle, url, param_of(puzzle), texts, [])
    except Exception as e:
        print("raised:", repr(e))
        return 10
    if len(urls) != len(wants):
        print(f"{len(urls)} answers returned for {len(wants)} models")
        return 10
    base = json.loads(unabbr(parts[4]))
    two = lambda k: tuple(sorted(k.split(",")))
    for u, w in zip(urls, wants):
        got = body(u)
        g = json.loads(unabbr(got[4]))
        other = [i for i, (a, b) in enumerate(zip(got, parts)) if i != 4 and a != b]
        print("returned:", {k: v for k, v in g.items() if v}, "changed parts:", other)
        print("expected:", {k: v for k, v in w.items() if v})
        if other or len(got) != len(parts) or set(g) != set(base) or any(g[k] != base[k] for k in base if k not in LAYER):
            return 10
        for k in LAYER:
            if {two(a): b for a, b in g[k].items()} != {two(a): b for a, b in w[k].items()} or len(g[k]) != len(w[k]):
                return 10
    return 0


SHIP = {(0, 0, 0, 0): 1, (0, 0, 0, 1): 3, (0, 1, 0, 0): 4, (0, 0, 1, 0): 5, (1, 0, 0, 0): 6}  # (up, down, left, right) -> part


def ship_part(nb):
    up, down, left, right = nb
    return SHIP.get(tuple(int(x) for x in nb), 2 if (up and down) or (left and right) else None)


def ships(shapes, tier="quick"):
    """Ships of the answer are drawn with round ends: every ship shape at every place."""
    setup()
    from noqx import clingo as nc

    pr = Prover()

    def fn(ctx):
        B = fn.B = Board(6, 7, [1, 0, 2, 0])
        cells = []
        fn.at = []
        for i, (length, dr, dc) in enumerate(shapes):
            y = ctx.int(f"r{i}", 0, B.rows - 1 - dr * (length - 1))
            x = ctx.int(f"c{i}", 0, B.cols - 1 - dc * (length - 1))
            new = [(y + dr * k, x + dc * k, (length, dr, dc, k)) for k in range(length)]
            for a, b, _ in new:  # ships do not touch
                for p, q, _ in cells:
                    ctx.assume(z3.Or(z_(a) - z_(p) > 1, z_(p) - z_(a) > 1, z_(b) - z_(q) > 1, z_(q) - z_(b) > 1))
            cells += new
        url, parts = B.url({}, {})
        text = SymStr(" ".join(f"battleship_B({a},{b})" for a, b, _ in cells))
        (u,) = run_models(nc, "battleship", url, {}, [text], [])
        want = []
        for a, b, (length, dr, dc, k) in cells:
            part = 1 if length == 1 else 2 if 0 < k < length - 1 else {(0, 0): 3, (1, 0): 4, (0, 1): 5, (1, 1): 6}[(dr, int(k > 0))]
            want.append(((B.idx(0, a, b),), [part, "battleship_B", 1]))
        g = parse_layer(body(u)[4])
        return same_layer({k: g[k] for k in LAYER}, {**{k: [] for k in LAYER}, "symbol": want})

    for path in explore(fn):
        pr.stats["paths"] += 1
        m = pr.refute(path.conds, z3.BoolVal(False) if path.exc is not None else path.result)
        if m is not None:
            env = model_env(path, m)
            case = {"fn": "ships", "shapes": shapes, "at": [[env[f"r{i}"], env[f"c{i}"]] for i in range(len(shapes))]}
            raise puz.Violation("encode", case, "a ship of the answer is drawn with the wrong parts")
    return pr.out(functions=["solver.battleship.refine", "noqx.manager.store_solution"])


def replay_ships(case):
    from noqx import clingo as nc

    B = Board(6, 7, [1, 0, 2, 0])
    want, atoms = {}, []
    for (length, dr, dc), (y, x) in zip(case["shapes"], case["at"]):
        for k in range(length):
            part = 1 if length == 1 else 2 if 0 < k < length - 1 else {(0, 0): 3, (1, 0): 4, (0, 1): 5, (1, 1): 6}[(dr, int(k > 0))]
            want[str(B.idx(0, y + dr * k, x + dc * k))] = [part, "battleship_B", 1]
            atoms.append(f"battleship_B({y + dr * k},{x + dc * k})")
    url, _ = B.url({}, {})
    print("ships:", atoms)
    try:
        (u,) = run_models(nc, "battleship", url, {}, [" ".join(atoms)], [])
    except Exception as e:
        print("raised:", repr(e))
        return 10
    got = json.loads(unabbr(body(u)[4]))["symbol"]
    print("drawn:", got)
    print("expected:", want)
    return 0 if got == want else 10


def replay(case):
    return globals()["replay_" + case["fn"]](case)


def heads(tier="quick"):
    """Only square boards are accepted, whatever the rest of the drawing is."""
    manager, penpa = setup()
    pr = Prover()
    for head, ok in HEADS:

        def fn(ctx):
            B = sym_board(ctx, "quick")
            fn.B = B
            y, x = sym_cell(ctx, B)
            url, _ = B.url({"surface": [(f"{B.idx(0, y, x)}", 4)]}, {}, head)
            return manager.prepare_puzzle("slitherlink", url, {})

        for path in explore(fn):
            pr.stats["paths"] += 1
            good = path.exc is None if ok else isinstance(path.exc, NotImplementedError)
            m = pr.refute(path.conds, z3.BoolVal(good))
            if m is not None:
                B = fn.B
                raise puz.Violation("decode", {"fn": "heads", "head": head, "ok": ok, "rows": B.rows, "cols": B.cols, "margin": B.margin}, f"a {head} board is {'refused' if ok else 'accepted'}")
    return pr.out(functions=["noqx.puzzle.penpa.PenpaPuzzle._init_size"])


HEADS = [("square", True), ("sudoku", True), ("kakuro", True), ("hex", False), ("tri", False), ("iso", False), ("pyramid", False), ("tetrakis_square", False), ("cairo_pentagonal", False), ("rhombitrihexagonal", False)]


def replay_heads(case):
    from noqx.manager import prepare_puzzle

    B = Board(case["rows"], case["cols"], case["margin"])
    url, _ = B.url({"surface": [(str(B.idx(0, 0, 0)), 4)]}, {}, case["head"])
    try:
        prepare_puzzle("slitherlink", url, {})
        got = True
    except NotImplementedError as e:
        print("raised", repr(e))
        got = False
    except Exception as e:
        print("raised", repr(e))
        return 10
    print("accepted:", got, "expected:", case["ok"])
    return 0 if got == case["ok"] else 10


PAIRS = [
    ("surface gray 8", "number 12"), ("number 12", "sudoku 0"), ("number 12", "sudoku 5"), ("sudoku 1", "sudoku 2"), ("number 12", "symbol"),
    ("symbol", "symbol on edge"), ("symbol on edge", "symbol on left edge"), ("symbol on corner", "symbol multiple"), ("edge top", "edge left"),
    ("edge top", "edge cross top"), ("edge left", "edge cross left"), ("line right", "line down"), ("line r", "line d"), ("line cross down", "line cross right"),
    ("line right", "line cross right"), ("number ?", "number on corner"), ("tapa", "number 12"), ("arrow", "surface black"), ("surface gray 1", "surface black"),
    ("line l", "edge left"), ("line u", "edge top"),
]
OVER = [
    ("surface gray 8", "surface black"), ("surface black", "surface green"), ("number 12", "number ?"), ("number 0", "arrow"), ("sudoku 0", "sudoku 0"), ("symbol", "symbol"),
    ("symbol multiple", "symbol multiple 2"), ("edge top", "edge cross top"), ("edge cross left", "edge left"), ("line right", "line cross right"), ("line cross down", "line down"), ("line r", "line cross right"),
]


def JOBS(tier):
    out = []
    for n in ELEMENTS:
        out.append(("D01", "decode", 1, ("slitherlink", [n], ["edit"], "square")))
        if tier != "quick":
            out.append(("D01", "decode", 1, ("slitherlink", [n], ["sol"], "square")))
    for n in HASHI:
        out.append(("D01", "decode", 1, ("hashi", [n], ["edit"], "square")))
    for n in NONDANGO:
        out.append(("D01", "decode", 1, ("nondango", [n], ["edit"], "square")))
    out.append(("D01", "decode", 1, ("nondango", ["circle", "mark"], ["edit", "sol"], "square")))
    for i, (a, b) in enumerate(PAIRS):
        out.append(("D01", "decode", 3, ("slitherlink", [a, b], ["edit", "edit"], ("square", "sudoku", "kakuro")[i % 3])))
    for a, b in OVER:
        out.append(("D01", "decode", 3, ("slitherlink", [a, b], ["sol", "edit"], "square")))
        out.append(("D01", "decode", 3, ("slitherlink", [b, a], ["sol", "edit"], "square")))
    out.append(("D01", "heads", 2, ()))
    G = "slitherlink"
    for n, (_, f) in ATOMS.items():
        if n != "edge_diag_up":
            out.append(("D02", "encode", 2, (G, [[n]], [n], [])))
        out.append(("D02", "encode", 2, (G, [[n]], [], [n])))
    for n in BRIDGES:
        out.append(("D02", "encode", 2, ("hashi", [[n]], [n], [n])))
    for n in ("circle", "mark"):
        out.append(("D02", "encode", 2, ("nondango", [[n]], ["symbol"], [])))
    for m in ([["gray", "gray"]], [["gray", "number"]], [["black", "circle"]], [["edge_top", "edge_left"]], [["grid_direction r", "grid_direction d"]], [["number", "number"]], [["number"], ["number"]], [["gray"], ["edge_top"], ["black"]], [[], ["grid_in l", "grid_out u"]], [["content", "star"]], []):
        out.append(("D02", "encode", 4, (G, m, [], [])))
        out.append(("D02", "encode", 6, (G, m, ["surface", "number"], ["edge"])))
    out.append(("D02", "encode", 2, ("news", [["number"]], ["number"], [])))
    out.append(("D02", "encode", 2, ("easyasabc", [["number"]], ["number"], [])))
    one = [(1, 0, 0)] + [(n, *d) for n in (2, 3, 4) for d in ((1, 0), (0, 1))]
    for a in one:
        out.append(("D02", "ships", 2, ([a],)))
    for a, b in itertools.product(one[:5], repeat=2):
        if a <= b:
            out.append(("D02", "ships", 4, ([a, b],)))
    return out
