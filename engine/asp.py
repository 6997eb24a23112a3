"""From the program text the real code generates to a Boolean circuit.

lift_and_ground: the text may hold tokens (see sym.py).  Each token becomes an ASP variable bound by
an extra body atom vsym(k,V); the values of symbol k are a choice `{vsym(k,d): d in dom} = 1`, so one
run of the real grounder instantiates the program for every value of the symbols at once.
translate: stable-model semantics of the ground program as a circuit.
"""

import re

import clingo
from clingo import ast

from sym import T0, T1, Abort, ForceConcrete, asp_text, evars, tokens_of


class Unsupported(Abort):
    """The generated program is outside what the translation handles."""


class BadProgram(Exception):
    """The real grounder rejects the generated program."""


class _Obs:
    def __init__(self):
        self.rules = []
        self.wrules = []
        self.out = []
        self.outterms = []
        self.mins = []

    def rule(self, choice, head, body):
        self.rules.append((choice, tuple(head), tuple(body)))

    def weight_rule(self, choice, head, lower_bound, body):
        self.wrules.append((choice, tuple(head), lower_bound, tuple(body)))

    def output_atom(self, symbol, atom):
        self.out.append((symbol, atom))

    def output_term(self, symbol, condition):
        self.outterms.append((symbol, tuple(condition)))

    def minimize(self, priority, literals):
        self.mins.append((priority, tuple(literals)))

    def external(self, atom, value):
        pass

    def project(self, atoms):
        pass


def key_of(s):
    args = []
    for a in s.arguments:
        if a.type == clingo.SymbolType.Number:
            args.append(a.number)
        elif a.type == clingo.SymbolType.String:
            args.append(a.string)
        else:
            args.append(str(a))
    return (s.name if s.positive else "-" + s.name, tuple(args))


def _prepare_text(text, toks):
    """Replace tokens by ASP terms over VSYM variables; returns text, variable names used."""
    used = {}

    def vname(n):
        if n not in used:
            used[n] = f"VSYM{len(used)}"
        return used[n]

    out, last = [], 0
    inq = False
    scan = 0
    for i, j, t in tokens_of(text):
        # a token inside a quoted string or glued to an identifier is only meaningful concretely
        k = scan
        while k < i:
            ch = text[k]
            if ch == "\\" and inq:
                k += 1
            elif ch == '"':
                inq = not inq
            elif ch == "%" and not inq:
                nl = text.find("\n", k)
                k = nl if nl >= 0 else len(text)
            k += 1
        scan = j
        e = toks[t].e
        prev = text[i - 1] if i else " "
        nxt = text[j] if j < len(text) else " "
        if inq or prev.isalnum() or prev == "_" or nxt.isalnum() or nxt == "_" or prev == T1 or nxt == T0:
            raise ForceConcrete(evars(e))
        names = {v: vname(v) for v in evars(e)}
        s = asp_text(e, names)
        if s is None:
            raise ForceConcrete(evars(e))
        out.append(text[last:i])
        out.append(s)
        last = j
    out.append(text[last:])
    return "".join(out), used


class _Vars(ast.Transformer):
    def __init__(self):
        self.seen = set()

    def visit_Variable(self, v):
        if v.name.startswith("VSYM"):
            self.seen.add(v.name)
        return v


def ground(text, toks=(), doms=None):
    """Ground the program. doms: symbol -> iterable of values."""
    msgs = []

    def log(code, msg):
        msgs.append((code, msg))

    ctl = clingo.Control(["--warn=none"], logger=log)
    obs = _Obs()
    ctl.register_observer(obs, replace=True)
    order = []
    if T0 in text:
        text, used = _prepare_text(text, toks)
        order = list(used)
        bound = {v: i for i, v in enumerate(used.values())}
        plain, extra = [], []
        head = "\n".join(
            "{ vsym(%d,(%s)) } = 1." % (i, ";".join(str(x) for x in doms[n])) if False else
            "{ " + "; ".join(f"vsym({i},{x})" for x in doms[n]) + " } = 1."
            for i, n in enumerate(order)
        )
        try:
            with ast.ProgramBuilder(ctl) as bld:
                ast.parse_string(head, bld.add, logger=log)

                def add(stm):
                    tv = _Vars()
                    tv.visit(stm)
                    if tv.seen:
                        if not hasattr(stm, "body"):
                            raise Unsupported(f"symbolic value in statement {stm}")
                        for v in sorted(tv.seen):
                            loc = stm.location
                            atom = ast.SymbolicAtom(
                                ast.Function(
                                    loc,
                                    "vsym",
                                    [ast.SymbolicTerm(loc, clingo.Number(bound[v])), ast.Variable(loc, v)],
                                    0,
                                )
                            )
                            stm.body.append(ast.Literal(loc, ast.Sign.NoSign, atom))
                    bld.add(stm)

                ast.parse_string(text, add, logger=log)
            ctl.ground([("base", [])])
        except RuntimeError as e:
            raise BadProgram(f"{e}: {[m for _, m in msgs][:3]}") from e
    else:
        try:
            ctl.add("base", [], text)
            ctl.ground([("base", [])])
        except RuntimeError as e:
            raise BadProgram(f"{e}: {[m for _, m in msgs][:3]}") from e
    syms = {}
    for sa in ctl.symbolic_atoms:
        syms[sa.literal] = key_of(sa.symbol)
    if obs.mins:
        raise Unsupported("optimization statement")
    if obs.outterms:
        raise Unsupported("shown terms")
    return obs, syms, order


def _sccs(nodes, succ):
    """Tarjan, iterative; returns SCCs in dependency order (dependencies first)."""
    index, low, onst, st, out = {}, {}, set(), [], []
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ.get(root, ())))]
        index[root] = low[root] = len(index)
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    break
                if w in onst:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


def _order(key, a):
    """Order of terms: by predicate and arguments where known."""
    if key is None:
        return (1, "", (), a)
    return (0, key[0], tuple((0, x, "") if isinstance(x, int) else (1, 0, str(x)) for x in key[1]), a)


class Circuit:
    """Circuit view of one ground program."""

    def __init__(self, g, obs, syms, order, symlit, tag=""):
        """symlit(symbol, value) -> literal."""
        groups = self._build(g, obs, syms, order, symlit, None)
        if groups:
            self._build(g, obs, syms, order, symlit, groups)

    def _build(self, g, obs, syms, order, symlit, groups):
        """groups: sets of choices known to be at most one (a weighted sum over them becomes a sum of digits);
        None: return the candidates that the constraints without weighted sums enforce."""
        self.g = g
        self.choice = {}  # atom key -> input literal
        self.guess = []  # (input, value) consistency of guessed atoms
        self.atom = {}  # atom id -> literal
        self.key = syms
        rules = {}  # atom -> list of (kind, data)
        cons = []
        heads = set()
        fixed = {}
        for a, k in syms.items():
            if k[0] == "vsym":
                fixed[a] = symlit(order[k[1][0]], k[1][1])

        def split(choice, head, body):
            if not head:
                cons.append(body)
                return
            if choice:
                for h in head:
                    if h not in fixed:
                        rules.setdefault(h, []).append(("c", body))
            elif len(head) == 1:
                if head[0] not in fixed:
                    rules.setdefault(head[0], []).append(("n", body))
            else:
                for h in head:  # shifted; checked head-cycle-free below
                    rest = tuple(-x for x in head if x != h)
                    disj.append(head)
                    if body[0] != "b":
                        raise Unsupported("disjunction with weight body")
                    rules.setdefault(h, []).append(("n", ("b", body[1] + rest)))

        disj = []
        for choice, head, body in obs.rules:
            split(choice, head, ("b", body))
        for choice, head, lb, body in obs.wrules:
            split(choice, head, ("w", lb, body))

        def lits(body):
            return body[1] if body[0] == "b" else [l for l, _ in body[2]]

        succ_all, succ_pos = {}, {}
        for h, rs in rules.items():
            sa, sp = set(), set()
            for _, body in rs:
                for l in lits(body):
                    if abs(l) not in rules:
                        continue
                    sa.add(abs(l))
                    if l > 0:
                        sp.add(l)
            succ_all[h], succ_pos[h] = sa, sp
        atoms = sorted(rules)
        comps = _sccs(atoms, succ_all)
        poscomp = {}
        for i, comp in enumerate(_sccs(atoms, succ_pos)):
            for a in comp:
                poscomp[a] = (i, len(comp))
        for head in disj:
            if len({poscomp[h][0] for h in head}) < len(head):
                raise Unsupported("disjunction with head cycle")
        val = self.atom
        val.update(fixed)

        group, gmem, tainted = {}, {}, set()
        for i, ms in enumerate(groups or ()):
            gmem[i] = ms
            group.update((l, i) for l in ms)

        def blit(body, cur, neg):
            if body[0] == "b":
                return g.And([(cur.get(l, 0) if l > 0 else neg.get(-l, 0) ^ 1) for l in body[1]])
            if group and len({w for _, w in body[2]}) > 1:
                parts = {}
                for l, w in sorted(body[2], key=lambda x: _order(syms.get(abs(x[0])), abs(x[0]))):
                    if l in group and group[l] not in parts or l not in group:
                        parts[group.get(l, ("s", len(parts)))] = []
                    parts[group[l] if l in group else ("s", len(parts) - 1)].append((l, w))
                if any(len(v) > 1 for v in parts.values()):
                    digits = []
                    for gi, ms in parts.items():
                        d = {}
                        for l, w in ms:
                            d.setdefault(w, []).append(cur.get(l, 0) if l > 0 else neg.get(-l, 0) ^ 1)
                        d = {w: g.Or(ls) for w, ls in d.items()}
                        rest = g.Or(list(d.values())) ^ 1
                        d[0] = g.Or(d[0], rest) if 0 in d else rest
                        digits.append(d)
                    return g.Or([l for v, l in g.sum_dist(digits).items() if v >= body[1]])
            r = g.sum_ge([(w, cur.get(l, 0) if l > 0 else neg.get(-l, 0) ^ 1) for l, w in body[2]], body[1])
            if len({w for _, w in body[2]}) > 1:
                tainted.add(r >> 1)
            return r

        for comp in comps:
            cs = set(comp)
            fa = {}
            for a in comp:
                if any(k == "c" for k, _ in rules[a]):
                    fa[a] = g.input()
                    self.choice[a] = fa[a]

            def define(a, cur, neg):
                out = []
                for k, body in rules[a]:
                    b = blit(body, cur, neg)
                    out.append(b if k == "n" else g.And(fa[a], b))
                return g.Or(out)

            if len(comp) == 1 and comp[0] not in succ_all[comp[0]]:
                a = comp[0]
                val[a] = define(a, val, val)
                continue
            # negative edges inside the component: guess, compute the least model of the reduct, check
            neg = val
            guessed = {}
            for a in comp:
                for _, body in rules[a]:
                    for l in lits(body):
                        if l < 0 and -l in cs and -l not in guessed:
                            guessed[-l] = g.input()
            if guessed:
                neg = _Chain(guessed, val)
            # least fixpoint per positive component
            psub = {a: [b for b in succ_pos[a] if b in cs] for a in comp}
            for pc in _sccs(sorted(comp), psub):
                if len(pc) == 1 and pc[0] not in psub[pc[0]]:
                    val[pc[0]] = define(pc[0], val, neg)
                    continue
                cur = dict.fromkeys(pc, 0)
                view = _Chain(cur, val)
                for _ in range(len(pc)):
                    new = {a: define(a, view, neg) for a in pc}
                    if new == cur:
                        break
                    cur.clear()
                    cur.update(new)
                val.update(cur)
            for a, gi in guessed.items():
                self.guess.append((a, gi))
        ok = [g.Iff(gi, val[a]) for a, gi in self.guess]
        for body in cons:
            ok.append(blit(body, val, val) ^ 1)
        self.legal = g.And(ok)
        self.shown = {}
        for s, a in obs.out:
            k = key_of(s)
            if k[0] == "vsym":
                continue
            self.shown[k] = 1 if a == 0 else val.get(a, 0)
        self.byname = {k: val.get(a, 0) for a, k in syms.items() if k[0] != "vsym"}
        self.nrules = len(obs.rules) + len(obs.wrules)
        if groups is not None or not any(n > 0 for n in tainted):
            return None
        cand, seen = [], set()
        for lb, body in [(b[1], b[2]) for rs in rules.values() for _, b in rs if b[0] == "w"] + [
            (b[1], b[2]) for b in cons if b[0] == "w"
        ]:
            if lb == 2 and all(w == 1 and l in self.choice for l, w in body):
                cand.append([l for l, _ in body])
        wt = {}
        for b in [b for rs in rules.values() for _, b in rs] + cons:
            if b[0] == "w" and len({w for _, w in b[2]}) > 1:
                for l, w in b[2]:
                    wt.setdefault(l, set()).add(w)
        rank = [len({w for l in ms for w in wt.get(l, ())}) for ms in cand]
        cand = [ms for ms, k in zip(cand, rank) if k > 1]
        rank = [k for k in rank if k > 1]
        if not cand:
            return None
        sure = [l for l in ok if not tainted.intersection(g.cone([l]))]
        viol = {i: g.AtLeast([val[l] for l in ms], 2) for i, ms in enumerate(cand)}
        while viol:
            m = g.solve([*sure, g.Or(list(viol.values()))])
            if m is None:
                break
            ks = list(viol)
            for i, v in zip(ks, g.eval([viol[i] for i in ks], m)):
                if v:
                    del viol[i]
        out = []
        for i in sorted(viol, key=lambda i: (-rank[i], -len(cand[i]))):
            if not seen.intersection(cand[i]):
                seen.update(cand[i])
                out.append(cand[i])
        return out


class _Chain:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def get(self, k, d=None):
        r = self.a.get(k)
        return self.b.get(k, d) if r is None else r
