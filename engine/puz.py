"""Harness: symbolic execution of a real solver module against a rule specification."""

import functools
import json
import os
import random
import sys
import time
import traceback

import z3

import aig
import asp
import hooks
import sym
from aig import FALSE, TRUE, Aig, Inconclusive
from sym import Abort, ForceConcrete, SymInt, SymMap

REPO = os.environ.get("NOQX_REPO", "/repo")


def load_repo():
    """Import the real code and let it accept symbolic values (no other change)."""
    os.chdir(REPO)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    hooks.install()
    from noqx import manager

    if not manager.modules:
        manager.load_solvers("solver")
    for name, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None) or ""
        if name.startswith(("noqx", "solver")) and f.startswith(REPO + "/"):
            sym.patch_module(m)
    return manager.modules


@functools.lru_cache(None)
def projecting():
    """Does the real solver class list models that agree on all displayed atoms once?"""
    from noqx.clingo import ClingoSolver

    inst = ClingoSolver()
    inst.solve("{ a(1..2); c(1) }.\n#show.\n#show c/1.")
    return sorted(inst.solution()) == ["", "c(1)"]


class Item:
    """One element drawn on the board: concrete map/kind/direction, possibly symbolic place and value."""

    def __init__(self, kind, r, c, d, pos, val, tag=None):
        self.kind, self.r, self.c, self.d, self.pos, self.val, self.tag = kind, r, c, d, pos, val, tag

    def __repr__(self):
        return f"Item({self.kind},{self.d},{self.pos},{self.val})"


class Builder:
    """Draws symbolic elements on the board (handed to the spec's build())."""

    def __init__(self, ctx, rows, cols, cfg):
        from noqx import puzzle as P

        self.P = P
        self.D = P.Direction
        self.Color = P.Color
        self.ctx = ctx
        self.rows, self.cols = rows, cols
        self.cfg = cfg
        self.items = []
        self.param = {}
        self.margin = (0, 0, 0, 0)
        self.maps = {k: SymMap() for k in ("surface", "text", "symbol", "edge", "line")}
        self.n = 0
        self.layout = None
        self.choices = []

    # --- primitives
    def choose(self, options):
        v = self.ctx.choose(list(options))
        self.choices.append(repr(v))
        return v

    def fresh(self, base="v"):
        self.n += 1
        return f"{base}{self.n}"

    def int(self, lo, hi, name=None):
        return self.ctx.int(name or self.fresh() + f"_{lo}_{hi}", lo, hi)

    def among(self, values, name=None):
        values = sorted(set(values))
        if len(values) == 1:
            return values[0]
        return self.ctx.int(name or self.fresh() + "_" + "_".join(map(str, values)), None, values=values)

    def assume(self, c):
        self.ctx.assume(c)

    def cell(self, rmin=0, rmax=None, cmin=0, cmax=None):
        rmax = self.rows - 1 if rmax is None else rmax
        cmax = self.cols - 1 if cmax is None else cmax
        if rmin > rmax or cmin > cmax:
            raise sym.Infeasible()
        n = self.fresh("p")
        r = self.ctx.int(f"{n}r_{rmin}_{rmax}", rmin, rmax) if rmin < rmax else rmin
        c = self.ctx.int(f"{n}c_{cmin}_{cmax}", cmin, cmax) if cmin < cmax else cmin
        return r, c

    def after(self, a, b):
        """Cell b comes after cell a in reading order."""
        (r1, c1), (r2, c2) = a, b
        z = lambda e: e.z if isinstance(e, SymInt) else z3.IntVal(e)
        self.assume(z3.simplify(z3.Or(z(r1) < z(r2), z3.And(z(r1) == z(r2), z(c1) < z(c2)))))

    def put(self, kind, r, c, val, d="center", pos="normal", tag=None):
        d = self.D(d) if isinstance(d, str) else d
        self.maps[kind][self.P.Point(r, c, d, pos)] = val
        it = Item(kind, r, c, d.value, pos, val, tag)
        self.items.append(it)
        return it

    def _count(self, n):
        return self.choose(n) if isinstance(n, (tuple, list, range)) else n

    def slots(self, n, region=None):
        """n distinct cells in reading order."""
        out = []
        for _ in range(self._count(n)):
            rc = self.cell(**(region or {}))
            if out:
                self.after(out[-1], rc)
            out.append(rc)
        return out

    def distinct(self, *cells):
        """Pairwise different cells."""
        z = lambda e: e.z if isinstance(e, SymInt) else z3.IntVal(e)
        for i, (r1, c1) in enumerate(cells):
            for r2, c2 in cells[i + 1 :]:
                self.assume(z3.simplify(z3.Or(z(r1) != z(r2), z(c1) != z(c2))))

    # --- common elements
    def texts(self, n, ints=None, others=(), d="center", pos="normal", region=None, tag=None):
        """Text clues at distinct symbolic cells; each an integer of a symbolic value or one of `others`."""
        out = []
        for r, c in self.slots(n, region):
            kinds = (["int"] if ints is not None else []) + list(others)
            k = self.choose(kinds) if len(kinds) > 1 else kinds[0]
            v = self.among(ints) if k == "int" else k
            out.append(self.put("text", r, c, v, d, pos, tag))
        return out

    def symbols(self, n, names, d="center", pos="normal", region=None, tag=None):
        out = []
        for r, c in self.slots(n, region):
            out.append(self.put("symbol", r, c, self.choose(names), d, pos, tag))
        return out

    def surfaces(self, n, colors, region=None, tag=None):
        out = []
        for r, c in self.slots(n, region):
            col = self.choose(colors)
            out.append(self.put("surface", r, c, self.Color[col], tag=tag))
        return out

    def lines(self, n, dirs="rdlu", draws=(True, False)):
        """Given line halves (or crosses) on the board."""
        out = []
        for _ in range(self._count(n)):
            d = self.choose(list(dirs))
            w = self.choose(list(draws))
            r, c = self.cell()
            out.append(self.put("line", r, c, w, pos=d))
        self._same_key_distinct(out)
        return out

    def edges(self, n, dirs=("top", "left"), draws=(True, False), inner=True):
        out = []
        for _ in range(self._count(n)):
            d = self.choose(list(dirs))
            w = self.choose(list(draws))
            k = 1 if inner and not w else 0  # edges drawn on the frame are fine everywhere, crosses are not
            if d == "top":
                r, c = self.cell(rmin=k, rmax=self.rows - k)
            elif d == "left":
                r, c = self.cell(cmin=k, cmax=self.cols - k)
            else:
                r, c = self.cell(rmax=self.rows - 1, cmax=self.cols - 1)
            out.append(self.put("edge", r, c, w, d=d))
        self._same_key_distinct(out)
        return out

    def _same_key_distinct(self, items):
        z = lambda e: e.z if isinstance(e, SymInt) else z3.IntVal(e)
        for i, a in enumerate(items):
            for b in items[:i]:
                if (a.d, a.pos) == (b.d, b.pos):
                    self.assume(z3.simplify(z3.Or(z(a.r) != z(b.r), z(a.c) != z(b.c))))

    def rooms(self, layout, outer=False):
        """Draw the borders of a room layout, given as rows of letters ('.': no room / hole)."""
        self.layout = [list(x) for x in layout]
        L = self.layout
        R, C = self.rows, self.cols
        for r in range(R):
            for c in range(1, C):
                if L[r][c] != L[r][c - 1]:
                    self.put("edge", r, c, True, d="left", tag="room")
        for r in range(1, R):
            for c in range(C):
                if L[r][c] != L[r - 1][c]:
                    self.put("edge", r, c, True, d="top", tag="room")
        if self.cfg.get("x"):
            for r in range(R):
                for c in range(C):
                    if c and L[r][c] == L[r][c - 1]:
                        self.put("edge", r, c, False, d="left", tag="room")
                    if r and L[r][c] == L[r - 1][c]:
                        self.put("edge", r, c, False, d="top", tag="room")
        if outer or self.cfg.get("x"):
            for r in range(R):
                self.put("edge", r, 0, True, d="left", tag="room")
                self.put("edge", r, C, True, d="left", tag="room")
            for c in range(C):
                self.put("edge", 0, c, True, d="top", tag="room")
                self.put("edge", R, c, True, d="top", tag="room")

    def shape(self):
        """The elements as drawn, symbolic parts by their expression."""
        k = lambda v: repr(v.e) if isinstance(v, SymInt) else v
        return tuple((it.kind, k(it.r), k(it.c), it.d, it.pos, sym.plain(str(k(it.val)))) for it in self.items)

    def puzzle(self, name):
        self.ctx.check()
        p = self.P.Puzzle(name, "", self.param)
        p.row, p.col, p.margin = self.rows, self.cols, self.margin
        for k, m in self.maps.items():
            setattr(p, k, m)
        return p


class S:
    """What a spec sees: circuits, the elements drawn, and the displayed answer as literals."""

    def __init__(self, g, b, symlit, xlit):
        self.g = g
        self.b = b
        self.rows, self.cols = b.rows, b.cols
        self.cells = [(r, c) for r in range(b.rows) for c in range(b.cols)]
        self.items = b.items
        self.param = b.param
        self.cfg = b.cfg
        self._sym = symlit  # name -> {value: lit}
        self._x = xlit
        self.universe = {}
        self.reqs = []
        self.bads = []
        self.unsures = []
        self.wit = {}
        self.incomplete = False  # set by a spec: only soundness is claimed (heuristic modes)
        self.And, self.Or, self.Not, self.Iff, self.Xor, self.Implies, self.Ite = (
            g.And,
            g.Or,
            g.Not,
            g.Iff,
            g.Xor,
            g.Implies,
            g.Ite,
        )
        self.AtLeast, self.AtMost, self.Exactly = g.AtLeast, g.AtMost, g.Exactly

    # --- answer
    def x(self, name, *args):
        k = (name, args)
        l = self.universe.get(k)
        if l is None:
            l = self.universe[k] = self._x(k)
        return l

    def xmap(self, name):
        return {rc: self.x(name, *rc) for rc in self.cells}

    def req(self, l):
        self.reqs.append(int(l))

    def bad(self, l):
        """The drawing is not a puzzle of this type when l holds: it must be rejected."""
        self.bads.append(int(l))

    def unsure(self, l):
        """Nothing is claimed for drawings where l holds."""
        self.unsures.append(int(l))

    def witness(self, pred, fn):
        """How an undisplayed free choice pred(args) follows from the answer ("*n": any n-ary predicate)."""
        self.wit[pred] = fn

    # --- symbolic integers
    def dist(self, e):
        """{value: literal} of an int or SymInt."""
        if not isinstance(e, SymInt):
            return {int(e): TRUE}
        vs = sorted(sym.evars(e.e))
        out = {}

        def rec(i, env, l):
            if l == FALSE:
                return
            if i == len(vs):
                out.setdefault(sym.ev(e.e, env), []).append(l)
                return
            for v, vl in self._sym(vs[i]).items():
                env[vs[i]] = v
                rec(i + 1, env, self.g.And(l, vl))

        rec(0, {}, TRUE)
        return {k: self.g.Or(v) for k, v in out.items()}

    def eq(self, e, v):
        return self.dist(e).get(v, FALSE)

    def at(self, it, r, c):
        return self.And(self.eq(it.r, r), self.eq(it.c, c))

    def where(self, it):
        """[(r, c, literal)] over the places the element may be at."""
        dr, dc = self.dist(it.r), self.dist(it.c)
        out = []
        for r, a in dr.items():
            for c, b in dc.items():
                l = self.And(a, b)
                if l != FALSE:
                    out.append((r, c, l))
        return out

    def isint(self, it):
        return isinstance(it.val, (int, SymInt)) and not isinstance(it.val, bool)

    def sel(self, kind=None, tag=None, d=None, pos=None):
        for it in self.items:
            if kind is not None and it.kind != kind:
                continue
            if it.tag != tag and tag is not None:
                continue
            if tag is None and it.tag == "room":
                continue
            if d is not None and it.d != d or pos is not None and it.pos != pos:
                continue
            yield it

    def on(self, it, fn):
        """Require fn(r, c) wherever the element is."""
        for r, c, l in self.where(it):
            if (r, c) in self._cellset():
                self.req(self.Implies(l, fn(r, c)))

    def _cellset(self):
        return set(self.cells)

    def has(self, items):
        """cell -> literal: some of the items is there."""
        m = {rc: [] for rc in self.cells}
        for it in items:
            for r, c, l in self.where(it):
                m.setdefault((r, c), []).append(l)
        return {k: self.g.Or(v) for k, v in m.items()}

    def num_is(self, lits, val):
        """Exactly val of lits (val: int / SymInt)."""
        lits = list(lits)
        return self.Or([self.And(l, self.Exactly(lits, v) if v >= 0 else FALSE) for v, l in self.dist(val).items()])

    def num_cmp(self, lits, val, op):
        lits = list(lits)
        out = []
        for v, l in self.dist(val).items():
            k = {
                "ge": lambda: self.AtLeast(lits, v),
                "le": lambda: self.AtMost(lits, v),
                "gt": lambda: self.AtLeast(lits, v + 1),
                "lt": lambda: self.AtMost(lits, v - 1),
                "eq": lambda: self.Exactly(lits, v),
            }[op]()
            out.append(self.And(l, k))
        return self.Or(out)

    def dist_is(self, dist, val):
        """The distribution's value equals val."""
        return self.Or([self.And(l, dist.get(v, FALSE)) for v, l in self.dist(val).items()])

    def sum_is(self, digits, val):
        """The digits ({value: literal} each, at most one true, none true counting as 0) add up to val."""
        ds = []
        for d in digits:
            d = {k: l for k, l in d.items() if l != FALSE}
            rest = self.Or(list(d.values())) ^ 1
            d[0] = self.Or(d[0], rest) if 0 in d else rest
            ds.append(d)
        d = self.g.sum_dist(ds)
        ge = lambda v: self.Or([l for k, l in d.items() if k >= v])
        return self.Or([self.And(l, ge(v), ge(v + 1) ^ 1) for v, l in self.dist(val).items()])

    def by_val(self, val, fn):
        """OR over values v of (val == v and fn(v))."""
        return self.Or([self.And(l, fn(v)) for v, l in self.dist(val).items()])

    # --- geometry
    def inb(self, r, c):
        return 0 <= r < self.rows and 0 <= c < self.cols

    def adj(self, r, c):
        return [(a, b) for a, b in ((r - 1, c), (r + 1, c), (r, c - 1), (r, c + 1)) if self.inb(a, b)]

    def adjx(self, r, c):
        return [(a, b) for a in (r - 1, r + 1) for b in (c - 1, c + 1) if self.inb(a, b)]

    def adj8(self, r, c):
        return self.adj(r, c) + self.adjx(r, c)

    def rays(self, r, c):
        """Four lists of cells going outwards from (r, c): up, down, left, right."""
        return (
            [(a, c) for a in range(r - 1, -1, -1)],
            [(a, c) for a in range(r + 1, self.rows)],
            [(r, a) for a in range(c - 1, -1, -1)],
            [(r, a) for a in range(c + 1, self.cols)],
        )

    def room_list(self):
        d = {}
        for r, c in self.cells:
            k = self.b.layout[r][c]
            d.setdefault(k, []).append((r, c))
        return d

    # --- graphs
    def reach(self, start, allowed, adj=None):
        """Cells reachable from start (cell -> literal) through allowed cells; start is not checked against allowed."""
        adj = adj or self.adj
        cur = dict(start)
        cells = list(allowed)
        for rc in cells:
            cur.setdefault(rc, FALSE)
        for _ in range(len(cells)):
            new = {}
            for rc in cells:
                new[rc] = self.Or(cur[rc], self.And(allowed[rc], self.Or([cur[n] for n in adj(*rc) if n in cur])))
            if new == cur:
                break
            cur = new
        return cur

    def connected(self, m, adj=None):
        """All true cells of m form one component (vacuous when there are none)."""
        none, start = TRUE, {}
        for rc in m:
            start[rc] = self.And(m[rc], none)
            none = self.And(none, m[rc] ^ 1)
        rch = self.reach(start, m, adj)
        return self.And([self.Implies(m[rc], rch[rc]) for rc in m])

    def closure(self, nodes, link):
        """Reflexive-transitive closure over nodes; link(a, b) literal for a < b (symmetric). Returns same(a, b)."""
        g = self.g
        nodes = list(nodes)
        n = len(nodes)
        m = [[FALSE] * n for _ in range(n)]
        for i in range(n):
            m[i][i] = TRUE
            for j in range(i):
                m[i][j] = m[j][i] = int(link(nodes[j], nodes[i]))
        for k in range(n):
            for i in range(n):
                if m[i][k] == FALSE or i == k:
                    continue
                for j in range(i):
                    if j == k or m[k][j] == FALSE:
                        continue
                    m[i][j] = m[j][i] = g.Or(m[i][j], g.And(m[i][k], m[k][j]))
        idx = {v: i for i, v in enumerate(nodes)}
        return lambda a, b: m[idx[a]][idx[b]]

    def comp(self, m, adj=None):
        """same(a, b): a and b are true cells of m in the same component."""
        adj = adj or self.adj
        cl = self.closure(list(m), lambda a, b: self.And(m[a], m[b]) if b in adj(*a) else FALSE)
        return lambda a, b: m[a] if a == b else cl(a, b)

    def no2x2(self, m):
        return self.And(
            [
                self.And(m[r, c], m[r + 1, c], m[r, c + 1], m[r + 1, c + 1]) ^ 1
                for r in range(self.rows - 1)
                for c in range(self.cols - 1)
            ]
        )

    def no_adj(self, m):
        return self.And(
            [self.And(m[r, c], m[n]) ^ 1 for r, c in m for n in self.adj(r, c) if n > (r, c) and n in m]
        )

    def visible(self, r, c, clear):
        """Number of cells seen from (r, c), itself excluded, in the four directions until a non-clear cell, as literals
        (one literal per cell: it is seen)."""
        out = []
        for ray in self.rays(r, c):
            l = TRUE
            for n in ray:
                l = self.And(l, clear[n])
                out.append(l)
        return out

    # --- common rule fragments
    def shade_givens(self, x, kinds=("surface",)):
        """Dark surface: shaded; light surface: not shaded."""
        for it in self.sel("surface"):
            dark = it.val in self.b.Color.DARK
            self.on(it, lambda r, c: x[r, c] if dark else x[r, c] ^ 1)

    DIR = {"u": (-1, 0), "d": (1, 0), "l": (0, -1), "r": (0, 1)}
    OPP = {"u": "d", "d": "u", "l": "r", "r": "l"}

    def path(self, name="grid_direction", cells=None):
        """Undirected lines between cell centres: D[r, c, d]; requires both halves of each link to agree."""
        cells = list(cells or self.cells)
        cs = set(cells)
        D = {(r, c, d): self.x(name, r, c, d) for r, c in cells for d in "lurd"}
        for r, c in cells:
            for d, (dr, dc) in self.DIR.items():
                n = (r + dr, c + dc)
                self.req(self.Iff(D[r, c, d], D[n[0], n[1], self.OPP[d]]) if n in cs else D[r, c, d] ^ 1)
        return D

    def line_givens(self, D):
        for it in self.sel("line"):
            for r, c, l in self.where(it):
                if (r, c, it.pos) in D:
                    self.req(self.Implies(l, D[r, c, it.pos] if it.val else D[r, c, it.pos] ^ 1))

    def deg(self, D, rc):
        return [D[rc[0], rc[1], d] for d in "lurd"]

    def lnk(self, D, a, b):
        for d, (dr, dc) in self.DIR.items():
            if (a[0] + dr, a[1] + dc) == b:
                return D[a[0], a[1], d]
        return FALSE

    def reach_link(self, start, nodes, link, adj=None):
        """Nodes reachable from start (node -> literal) over links."""
        adj = adj or self.adj
        nodes = list(nodes)
        ns = set(nodes)
        cur = {n: int(start.get(n, FALSE)) for n in nodes}
        nb = {n: [(m, link(m, n)) for m in adj(*n) if m in ns] for n in nodes}
        for _ in range(len(nodes)):
            new = {n: self.Or(cur[n], self.Or([self.And(l, cur[m]) for m, l in nb[n]])) for n in nodes}
            if new == cur:
                break
            cur = new
        return cur

    def one_component(self, m, link, adj=None):
        """All true nodes of m are joined by links."""
        none, start = TRUE, {}
        for n in m:
            start[n] = self.And(m[n], none)
            none = self.And(none, m[n] ^ 1)
        rch = self.reach_link(start, list(m), link, adj)
        return self.And([self.Implies(m[n], rch[n]) for n in m])

    def single_loop(self, D):
        """The lines form at most one closed loop without crossings; returns cell -> literal: visited."""
        vis = {}
        for rc in self.cells:
            dg = self.deg(D, rc)
            vis[rc] = self.Or(dg)
            self.req(self.Implies(vis[rc], self.Exactly(dg, 2)))
        self.req(self.one_component(vis, lambda a, b: self.lnk(D, a, b)))
        return vis

    def regions(self):
        """Borders between cells (edge_left / edge_top) cutting the board into regions; returns same(a, b)."""
        R, C = self.rows, self.cols
        EL = {(r, c): self.x("edge_left", r, c) for r in range(R) for c in range(C + 1)}
        ET = {(r, c): self.x("edge_top", r, c) for r in range(R + 1) for c in range(C)}
        for r in range(R):
            self.req(EL[r, 0])
            self.req(EL[r, C])
        for c in range(C):
            self.req(ET[0, c])
            self.req(ET[R, c])

        def open_(a, b):
            (r1, c1), (r2, c2) = min(a, b), max(a, b)
            if (r2, c2) == (r1, c1 + 1):
                return EL[r2, c2] ^ 1
            if (r2, c2) == (r1 + 1, c1):
                return ET[r2, c2] ^ 1
            return FALSE

        same = self.closure(self.cells, open_)
        for r, c in self.cells:
            for n in ((r + 1, c), (r, c + 1)):
                if n in self._cellset():
                    self.req(self.Or(open_((r, c), n), same((r, c), n) ^ 1))
        self.EL, self.ET, self.open = EL, ET, open_
        for it in self.sel("edge"):
            E = {"left": EL, "top": ET}.get(it.d)
            for r, c, l in self.where(it):
                if E is not None and (r, c) in E:
                    self.req(self.Implies(l, E[r, c] if it.val else E[r, c] ^ 1))
        return same

    def numbers(self, values, cells=None, name="number"):
        """One number per cell: N[rc][v]."""
        cells = self.cells if cells is None else cells
        N = {}
        for rc in cells:
            N[rc] = {v: self.x(name, rc[0], rc[1], v) for v in values}
            self.req(self.Exactly(list(N[rc].values()), 1))
        return N

    def num_givens(self, N, kind="text"):
        for it in self.sel(kind):
            if self.isint(it):
                self.in_range(it, N)
                self.on(it, lambda r, c: self.Or([self.And(l, N[r, c].get(v, FALSE)) for v, l in self.dist(it.val).items()]))

    def in_range(self, it, N):
        """Nothing is claimed for a given number outside the numbers a cell can hold."""
        for r, c, l in self.where(it):
            if (r, c) in N:
                for v, k in self.dist(it.val).items():
                    if v not in N[r, c]:
                        self.unsure(self.And(l, k))

    def inside(self, D):
        """cell -> literal: the centre (off the loop) is inside, by the parity of links crossed going left."""
        out = {}
        for r in range(self.rows):
            p = FALSE
            for c in range(self.cols):
                out[r, c] = p
                p = self.Xor(p, D[r, c, "d"])
        return out

    def room_of(self):
        return {(r, c): self.b.layout[r][c] for r, c in self.cells}

    def one_per_room(self, items):
        """Nothing is claimed when two of the items share a room."""
        items = list(items)
        ro = self.room_of()
        for i, a in enumerate(items):
            for b in items[:i]:
                self.unsure(
                    self.Or(
                        [
                            self.And(la, lb)
                            for r, c, la in self.where(a)
                            for r2, c2, lb in self.where(b)
                            if ro[r, c] == ro[r2, c2]
                        ]
                    )
                )

    def on_room(self, it, fn):
        """Require fn(cells of the room) for the room the item is in."""
        ro = self.room_of()
        rooms = self.room_list()
        by = {}
        for r, c, l in self.where(it):
            by.setdefault(ro[r, c], []).append(l)
        for k, ls in by.items():
            self.req(self.Implies(self.Or(ls), fn(rooms[k])))


class _NoWit:
    """A specification seen without its witnesses."""

    def __init__(self, s):
        self.universe = s.universe
        self.wit = {}


class Violation(Exception):
    def __init__(self, kind, case, msg):
        super().__init__(msg)
        self.kind, self.case, self.msg = kind, case, msg


_BOOLK = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_IMPLIES}


class Harness:
    """Checks one scenario (spec, board, configuration) of one puzzle type."""

    def __init__(self, spec, rows, cols, cfg, tier="quick", deadline=None):
        self.spec, self.rows, self.cols, self.cfg = spec, rows, cols, cfg
        self.tier = tier
        self.g = Aig()
        self.symv = {}  # symbol -> {value: lit}
        self.stats = {
            "paths": 0,
            "groups": 0,
            "queries": 0,
            "exceptions": 0,
            "witnesses": 0,
            "ground_rules": 0,
            "cegar": 0,
            "feas_queries": 0,
        }
        self.deadline = deadline
        self.symcons = []
        self.samples = []
        self.nwit = 0
        self._cc = {}

    # symbols
    def symlits(self, name, dom=None):
        d = self.symv.get(name)
        if d is None:
            d = {v: self.g.named(f"{name}={v}") for v in dom}
            self.symv[name] = d
        if dom is not None and set(d) != set(dom):
            raise Abort(f"symbol {name} has two domains")
        return d

    def sym_excl(self, vars_):
        out = []
        for n, dom in vars_.items():
            d = self.symlits(n, dom)
            ls = list(d.values())
            out.append(self.g.Exactly(ls, 1))
        return self.g.And(out)

    def cond(self, e):
        """z3 Boolean over the symbols -> literal."""
        g = self.g
        k = e.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return TRUE
        if k == z3.Z3_OP_FALSE:
            return FALSE
        if k == z3.Z3_OP_AND:
            return g.And([self.cond(x) for x in e.children()])
        if k == z3.Z3_OP_OR:
            return g.Or([self.cond(x) for x in e.children()])
        if k == z3.Z3_OP_NOT:
            return self.cond(e.arg(0)) ^ 1
        if k == z3.Z3_OP_IMPLIES:
            return g.Implies(self.cond(e.arg(0)), self.cond(e.arg(1)))
        hit = self._cc.get(e.get_id())
        if hit is not None:
            return hit[1]
        # arithmetic atom: tabulate over the domains of its symbols
        vs = {}

        def walk(x):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                vs[str(x)] = x
            for y in x.children():
                walk(y)

        walk(e)
        names = sorted(vs)
        total = 1
        for n in names:
            total *= len(self.symv[n])
        if total > 200000:
            raise Abort(f"condition over {names} too large to tabulate")
        f = self._compile(e, names)
        out = []

        def rec(i, env, l):
            if i == len(names):
                if f(env):
                    out.append(l)
                return
            for v, vl in self.symv[names[i]].items():
                env[names[i]] = v
                rec(i + 1, env, g.And(l, vl))

        rec(0, {}, TRUE)
        r = g.Or(out)
        self._cc[e.get_id()] = (e, r)
        return r

    @staticmethod
    def _compile(e, names):
        ops = {
            z3.Z3_OP_EQ: lambda a, b: a == b,
            z3.Z3_OP_LE: lambda a, b: a <= b,
            z3.Z3_OP_GE: lambda a, b: a >= b,
            z3.Z3_OP_LT: lambda a, b: a < b,
            z3.Z3_OP_GT: lambda a, b: a > b,
            z3.Z3_OP_DISTINCT: lambda a, b: a != b,
            z3.Z3_OP_SUB: lambda *a: a[0] - sum(a[1:]),
            z3.Z3_OP_UMINUS: lambda a: -a,
            z3.Z3_OP_ITE: lambda c, a, b: a if c else b,
            z3.Z3_OP_AND: lambda *a: all(a),
            z3.Z3_OP_OR: lambda *a: any(a),
            z3.Z3_OP_NOT: lambda a: not a,
        }

        def prod(*a):
            r = 1
            for x in a:
                r *= x
            return r

        def ediv(a, b):
            return a // b if b > 0 else -(a // -b)

        def emod(a, b):
            return a - b * ediv(a, b)

        ops[z3.Z3_OP_ADD] = lambda *a: sum(a)
        ops[z3.Z3_OP_MUL] = prod
        ops[z3.Z3_OP_IDIV] = ediv
        ops[z3.Z3_OP_MOD] = emod

        def comp(x):
            if z3.is_int_value(x):
                v = x.as_long()
                return lambda env: v
            if z3.is_true(x):
                return lambda env: True
            if z3.is_false(x):
                return lambda env: False
            if z3.is_const(x):
                n = str(x)
                return lambda env: env[n]
            op = ops.get(x.decl().kind())
            if op is None:
                raise Abort(f"operator {x.decl()} in a path condition")
            ch = [comp(y) for y in x.children()]
            return lambda env: op(*[c(env) for c in ch])

        return comp(e)

    def solve(self, roots):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget of this scenario used up")
        self.stats["queries"] += 1
        return self.g.solve(roots, timeout=600)

    # --- the run
    def run(self, module):
        force = set()
        for _ in range(60):
            try:
                return self._run(module, force)
            except ForceConcrete as e:
                if not e.names - force:
                    raise Abort(f"cannot make {e.names} concrete") from e
                force |= e.names
        raise Abort("too many restarts")

    def _run(self, module, force):
        spec = self.spec
        groups = {}

        def fn(ctx):
            random.seed(0)
            b = Builder(ctx, self.rows, self.cols, self.cfg)
            ctx.builder = b
            spec.build(b)
            p = b.puzzle(spec.name)
            b.case_maps = {k: list(m.items()) for k, m in b.maps.items()}
            b.stage = "solve"
            return module.solve(p)

        maxp = spec.max_paths
        self.stats["paths"] = 0
        for path in sym.explore(fn, max_paths=maxp, force=force):
            self.stats["paths"] += 1
            self.stats["feas_queries"] += path.nq
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("time budget of this scenario used up (paths)")
            b = path.ctx.builder
            if path.exc is not None and getattr(b, "stage", None) != "solve":
                raise path.exc
            for n, dom in path.vars.items():
                if dom is None:
                    raise Abort(f"unbounded symbol {n}")
                self.symlits(n, dom)
            for t in path.toks:
                pass
            if path.exc is not None:
                if isinstance(path.exc, ForceConcrete):
                    raise path.exc
                text = ("EXC", type(path.exc).__name__, sym.plain(str(path.exc)))
            else:
                text = path.result
                if not isinstance(text, str):
                    text = ("EXC", "TypeError", f"solve returned {type(text).__name__}")
            used = tuple((t.e) for t in path.toks)
            key = (text, used, tuple(b.choices), tuple(path.vars.items()), b.shape())
            gr = groups.get(key)
            if gr is None:
                gr = groups[key] = {"b": b, "conds": [], "vars": path.vars, "toks": path.toks, "text": text}
            gr["conds"].append(path.conds)
            if len(groups) == 1 and path.exc is None:
                # token problems show early: restart before exploring everything
                if isinstance(text, str):
                    asp._prepare_text(text, path.toks)
        self.stats["groups"] = len(groups)
        specs = {}
        witness = 0
        for key, gr in groups.items():
            witness += self.check_group(gr, specs)
        self.stats["witnesses"] = self.nwit
        return self.stats

    def spec_for(self, b, vars_, cache):
        key = (tuple(b.choices), tuple(vars_.items()), b.shape())
        hit = cache.get(key)
        if hit is None:
            g = self.g
            s = S(g, b, lambda n: self.symv[n], lambda k: g.named(("X", k)))
            self.spec.spec(s)
            hit = cache[key] = (s, g.And(s.reqs), g.Or(s.bads), g.Or(s.unsures))
        return hit

    def check_group(self, gr, specs):
        g = self.g
        b = gr["b"]
        s, sp, bad, unsure = self.spec_for(b, gr["vars"], specs)
        pc = g.And(self.sym_excl(gr["vars"]), g.Or([g.And([self.cond(c) for c in cs]) for cs in gr["conds"]]))
        pc = g.And(pc, unsure ^ 1)
        if pc == FALSE:
            return 0
        text = gr["text"]
        circ = None
        if isinstance(text, str):
            try:
                doms = {n: d for n, d in gr["vars"].items()}
                obs, syms, order = asp.ground(text, gr["toks"], doms)
                circ = asp.Circuit(g, obs, syms, order, lambda n, v: self.symv[n].get(v, FALSE))
                self.stats["ground_rules"] += circ.nrules
            except asp.BadProgram as e:
                text = ("EXC", "RuntimeError", "the grounder rejects the generated program: " + str(e)[:300])
        if circ is None:
            self.stats["exceptions"] += 1
            _, cls, msg = text
            ok = bad if cls == "ValueError" else FALSE
            m = self.solve([pc, ok ^ 1])
            if m is not None:
                raise Violation(
                    "exception", self.case(b, m, gr, None), f"{cls}: {msg} on a drawing that is a valid puzzle"
                    if cls == "ValueError" else f"{cls}: {msg} (an internal error) while generating the program"
                )
            return 0
        if bad != FALSE:
            m = self.solve([pc, bad])
            if m is not None:
                raise Violation("accepts", self.case(b, m, gr, None), "a drawing that is not a puzzle of this type is accepted")
            pc = g.And(pc, bad ^ 1)
        uni = s.universe
        # soundness
        extra = [l for k, l in circ.shown.items() if k not in uni]
        sub = {uni[k]: circ.shown.get(k, FALSE) for k in uni}
        sp_f = g.subst([sp], sub)[0]
        bad_answer = g.Or(sp_f ^ 1, g.Or(extra))
        m = self.solve([pc, circ.legal, bad_answer])
        if m is not None:
            ks = list(circ.shown)
            vals = g.eval([circ.shown[k] for k in ks], m)
            ans = [k for k, v in zip(ks, vals) if v]
            raise Violation("soundness", self.case(b, m, gr, ans), "an answer that breaks the rules or a given is produced")
        # completeness
        m = None if s.incomplete else self.complete(b, gr, pc, sp, s, circ)
        if m is not None:
            ks = list(uni)
            vals = g.eval([uni[k] for k in ks], m)
            ans = [k for k, v in zip(ks, vals) if v]
            raise Violation("completeness", self.case(b, m, gr, ans), "a rule-abiding answer is not produced")
        # uniqueness of displayed answers
        if self.spec.unique and not projecting():
            m = self.dup(pc, circ)
            if m is not None:
                ks = list(circ.shown)
                vals = g.eval([circ.shown[k] for k in ks], m)
                ans = [k for k, v in zip(ks, vals) if v]
                raise Violation("duplicate", self.case(b, m, gr, ans), "the same answer is produced more than once")
        # vacuity: some drawing of this group has an answer
        if self.nwit >= 8:
            return 0
        m = self.solve([pc, sp])
        if m is None:
            return 0
        if len(self.samples) < 2:
            ks = list(uni)
            vals = g.eval([uni[k] for k in ks], m)
            self.samples.append(self.case(b, m, gr, [k for k, v in zip(ks, vals) if v]))
        self.nwit += 1
        return 1

    def accept(self, s, circ, hidden_out=None):
        """Legal and shown == X', with the choices replaced by X' or by their witnesses."""
        g = self.g
        uni = s.universe
        m, hid = {}, []
        for a, f in [*circ.choice.items(), *circ.guess]:
            k = circ.key.get(a)
            if k is not None and k in circ.shown:
                m[f] = uni.get(k, FALSE)
            elif k is not None and (k[0] in s.wit or f"*{len(k[1])}" in s.wit):
                w = s.wit.get(k[0]) or s.wit[f"*{len(k[1])}"]
                w = w(*k[1])
                if w is None:
                    hid.append(f)
                else:
                    m[f] = int(w)
            else:
                hid.append(f)
        keys = list(set(circ.shown) | set(uni))
        roots = [circ.legal] + [circ.shown.get(k, FALSE) for k in keys]
        if m:
            roots = g.subst(roots, m)
        acc = g.And(roots[0], g.And([g.Iff(l, uni.get(k, FALSE)) for l, k in zip(roots[1:], keys)]))
        if hid:
            cone = set(g.cone([acc]))
            hid = [h for h in hid if h >> 1 in cone]
        return acc, hid

    def complete(self, b, gr, pc, sp, s, circ):
        g = self.g
        acc, hid = self.accept(s, circ)
        if s.wit:
            m = self._complete(gr, pc, sp, s, acc, hid)
            if m is None:
                return None
            # the witnesses may not fit the code (any more): confirm without them
            s = _NoWit(s)
            acc, hid = self.accept(s, circ)
            xs = list(s.universe.values())
            syms = [l for n in gr["vars"] for l in self.symv[n].values()]
            if self.solve([acc] + [l if m.get(l, False) else l ^ 1 for l in xs + syms]) is None:
                return {l: m.get(l, False) for l in xs + syms}
            self.stats["witness_fallbacks"] = self.stats.get("witness_fallbacks", 0) + 1
        return self._complete(gr, pc, sp, s, acc, hid)

    def _complete(self, gr, pc, sp, s, acc, hid):
        g = self.g
        if not hid:
            return self.solve([pc, sp, acc ^ 1])
        # counterexample-guided: find X', look for hidden choices accepting it, generalise, block
        block = []
        xs = list(s.universe.values())
        syms = [l for n in gr["vars"] for l in self.symv[n].values()]
        for _ in range(self.spec.max_cegar):
            m = self.solve([pc, sp] + block)
            if m is None:
                return None
            self.stats["cegar"] += 1
            fix = [l if m.get(l, False) else l ^ 1 for l in xs + syms]
            h = self.solve([acc] + fix)
            if h is None:
                full = {l: m.get(l, False) for l in xs + syms}
                return full
            r = g.subst([acc], {x: (TRUE if h.get(x, False) else FALSE) for x in hid})[0]
            block.append(r ^ 1)
        raise Inconclusive("too many refinement steps for undisplayed choices")

    def dup(self, pc, circ):
        g = self.g
        hidden = [
            (a, f) for a, f in circ.choice.items() if not (circ.key.get(a) is not None and circ.key[a] in circ.shown)
        ]
        if not hidden and not circ.guess:
            return None
        ren = {f: g.input() for f in circ.choice.values()}
        ren.update({gi: g.input() for _, gi in circ.guess})
        keys = list(circ.shown)
        atoms = [a for a, _ in hidden] + [a for a, _ in circ.guess]
        roots = [circ.legal] + [circ.shown[k] for k in keys] + [circ.atom[a] for a in atoms]
        r2 = g.subst(roots, ren)
        n = len(keys)
        same = [g.Iff(a, b) for a, b in zip(roots[1 : 1 + n], r2[1 : 1 + n])]
        diff = g.Or([g.Xor(a, b) for a, b in zip(roots[1 + n :], r2[1 + n :])])
        return self.solve([pc, roots[0], r2[0], diff] + same)

    def case(self, b, m, gr, ans):
        env = {}
        for n in gr["vars"]:
            for v, l in self.symv[n].items():
                if m.get(l, False):
                    env[n] = v
            env.setdefault(n, list(self.symv[n])[0])

        def val(x):
            if isinstance(x, SymInt):
                return sym.ev(x.e, env)
            if isinstance(x, str):
                for i, j, t in reversed(sym.tokens_of(x)):
                    t = b.ctx.toks[t]
                    x = str.__str__(x)[:i] + str(sym.ev(getattr(t, "e", t), env)) + str.__str__(x)[j:]
                return str.__str__(x)
            if hasattr(x, "name") and hasattr(x, "value"):
                return "Color." + x.name
            return x

        els = []
        for kind, entries in b.case_maps.items():
            for k, v in entries:
                els.append([kind, val(k[0]), val(k[1]), k[2].value, k[3], val(v)])
        return {
            "puzzle": self.spec.name,
            "rows": self.rows,
            "cols": self.cols,
            "margin": list(b.margin),
            "param": {k: val(v) for k, v in b.param.items()},
            "elements": els,
            "answer": None if ans is None else sorted([[k[0], list(k[1])] for k in ans], key=str),
        }


class Spec:
    """Base class of the rule specifications."""

    name = ""
    boards = [(3, 3), (2, 4), (4, 2)]
    thorough_boards = [(4, 4)]
    cfgs = [{}]
    unique = True
    max_paths = 6000
    max_cegar = 3000
    prop = None

    def build(self, b):
        raise NotImplementedError

    def spec(self, s):
        raise NotImplementedError

    def scenarios(self, tier):
        bs = list(self.boards) + (list(self.thorough_boards) if tier == "thorough" else [])
        for rc in bs:
            for i, cfg in enumerate(self.cfgs):
                if "board" in cfg and tuple(cfg["board"]) != tuple(rc):
                    continue
                yield rc[0], rc[1], cfg
