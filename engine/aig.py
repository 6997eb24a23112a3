"""Boolean circuits (and-inverter graphs), CNF and the SAT/SMT back ends.

A literal is an int 2*node+neg; FALSE = 0, TRUE = 1.  Nodes are hash-consed n-ary ANDs or inputs.
"""

import os
import shutil
import subprocess
import tempfile
import time

import z3

FALSE, TRUE = 0, 1
KISSAT = shutil.which("kissat")
STATS = {"queries": 0, "solver_s": 0.0, "sat": 0, "unsat": 0, "max_clauses": 0}


class Inconclusive(Exception):
    """The solver gave no verdict."""


class Aig:
    def __init__(self):
        self.nodes = [None]  # None: input/constant, tuple: AND of literals
        self.names = {}
        self.hash = {}
        self.inputs = {}
        self._cnt = {}

    # --- construction
    def input(self, name=None):
        n = len(self.nodes)
        self.nodes.append(None)
        if name is not None:
            self.names[n] = name
        return 2 * n

    def named(self, name):
        l = self.inputs.get(name)
        if l is None:
            l = self.inputs[name] = self.input(name)
        return l

    def And(self, *ls):
        if len(ls) == 1 and not isinstance(ls[0], int):
            ls = ls[0]
        s = set()
        for l in ls:
            if l is True:
                l = TRUE
            elif l is False:
                l = FALSE
            if l == FALSE:
                return FALSE
            if l == TRUE:
                continue
            if l ^ 1 in s:
                return FALSE
            s.add(l)
        if not s:
            return TRUE
        if len(s) == 1:
            return next(iter(s))
        key = tuple(sorted(s))
        h = self.hash.get(key)
        if h is None:
            # absorb: a AND (a AND b) = (a AND b); a AND not(a AND b) = a AND not b
            if len(key) == 2:
                a, b = key
                for x, y in ((a, b), (b, a)):
                    k = self.nodes[y >> 1]
                    if k is not None:
                        if not y & 1 and x in k:
                            self.hash[key] = y
                            return y
                        if not y & 1 and x ^ 1 in k:
                            self.hash[key] = FALSE
                            return FALSE
                        if y & 1 and x ^ 1 in k:
                            self.hash[key] = x
                            return x
            n = len(self.nodes)
            self.nodes.append(key)
            h = 2 * n
            self.hash[key] = h
        return h

    def Or(self, *ls):
        if len(ls) == 1 and not isinstance(ls[0], int):
            ls = ls[0]
        return self.And([(int(l) if isinstance(l, bool) else l) ^ 1 for l in ls]) ^ 1

    def Not(self, l):
        return int(l) ^ 1

    def Implies(self, a, b):
        return self.Or(int(a) ^ 1, b)

    def Xor(self, a, b):
        a, b = int(a), int(b)
        if a < 2:
            return b ^ a
        if b < 2:
            return a ^ b
        neg = (a & 1) ^ (b & 1)
        a, b = sorted((a & ~1, b & ~1))
        if a == b:
            return neg
        return self.Or(self.And(a, b ^ 1), self.And(a ^ 1, b)) ^ neg

    def Iff(self, a, b):
        return self.Xor(a, b) ^ 1

    def Ite(self, c, a, b):
        c, a, b = int(c), int(a), int(b)
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        if a == b:
            return a
        return self.And(self.Or(c ^ 1, a), self.Or(c, b))

    # --- counting: dist[k] = exactly k of the literals hold
    def unary(self, ls):
        """ge[k] for k = 0..n: at least k literals hold."""
        ls = [int(l) for l in ls]
        key = tuple(sorted(ls))
        hit = self._cnt.get(key)
        if hit is not None:
            return hit
        ge = [TRUE]
        for l in key:
            new = [TRUE]
            for k in range(1, len(ge) + 1):
                hi = ge[k] if k < len(ge) else FALSE
                new.append(self.Or(hi, self.And(ge[k - 1], l)))
            ge = new
        while len(ge) > 1 and ge[-1] == FALSE:
            ge.pop()
        self._cnt[key] = ge
        return ge

    def AtLeast(self, ls, k):
        ls = list(ls)
        if k <= 0:
            return TRUE
        if k > len(ls):
            return FALSE
        if k == 1:
            return self.Or(ls)
        if k == len(ls):
            return self.And(ls)
        ge = self.unary(ls)
        return ge[k] if k < len(ge) else FALSE

    def AtMost(self, ls, k):
        return self.AtLeast(ls, k + 1) ^ 1

    def Exactly(self, ls, k):
        ls = list(ls)
        return self.And(self.AtLeast(ls, k), self.AtMost(ls, k))

    def sum_ge(self, wl, bound):
        """sum of w*[l] >= bound, integer weights (any sign)."""
        d = {}
        for w, l in wl:
            l = int(l)
            if w == 0 or l == FALSE:
                continue
            if l == TRUE:
                bound -= w
                continue
            if w < 0:
                bound -= w
                w, l = -w, l ^ 1
            d[l] = d.get(l, 0) + w
        for l in [x for x in d if x & 1 == 0]:
            if l ^ 1 in d:  # both polarities
                m = min(d[l], d[l ^ 1])
                bound -= m
                for x in (l, l ^ 1):
                    d[x] -= m
                    if d[x] == 0:
                        del d[x]
        items = sorted(d.items(), key=lambda x: (-x[1], x[0]))
        if items and all(w == items[0][1] for _, w in items):
            w = items[0][1]
            return self.AtLeast([l for l, _ in items], -((-bound) // w))
        suf = [0] * (len(items) + 1)
        for i in range(len(items) - 1, -1, -1):
            suf[i] = suf[i + 1] + items[i][1]
        memo = {}

        def rec(i, b):
            if b <= 0:
                return TRUE
            if b > suf[i]:
                return FALSE
            k = (i, b)
            r = memo.get(k)
            if r is None:
                l, w = items[i]
                r = memo[k] = self.Ite(l, rec(i + 1, b - w), rec(i + 1, b))
            return r

        return rec(0, bound)

    def sum_dist(self, parts):
        """parts: list of {value: literal} distributions (exactly one holds); distribution of the sum."""
        acc = {0: TRUE}
        for p in parts:
            new = {}
            for a, la in acc.items():
                for b, lb in p.items():
                    l = self.And(la, lb)
                    if l != FALSE:
                        new.setdefault(a + b, []).append(l)
            acc = {k: self.Or(v) for k, v in new.items()}
        return acc

    # --- evaluation / substitution
    def cone(self, roots):
        seen, order, st = set(), [], [(r >> 1, False) for r in roots]
        while st:
            n, done = st.pop()
            if done:
                order.append(n)
                continue
            if n in seen:
                continue
            seen.add(n)
            k = self.nodes[n]
            if k is None:
                order.append(n)
            else:
                st.append((n, True))
                st.extend((l >> 1, False) for l in k if l >> 1 not in seen)
        return order

    def subst(self, roots, m):
        """Rebuild roots with inputs (positive literals) replaced per m."""
        new = {0: FALSE}
        for n in self.cone(roots):
            k = self.nodes[n]
            if k is None:
                new[n] = m.get(2 * n, 2 * n) if n else FALSE
            else:
                new[n] = self.And([new[l >> 1] ^ (l & 1) for l in k])
        return [new[r >> 1] ^ (r & 1) for r in roots]

    def eval(self, roots, val):
        """val: dict input literal -> bool (missing: False)."""
        v = {0: False}
        for n in self.cone(roots):
            k = self.nodes[n]
            if k is None:
                v[n] = bool(val.get(2 * n, False))
            else:
                v[n] = all(v[l >> 1] != bool(l & 1) for l in k)
        return [v[r >> 1] != bool(r & 1) for r in roots]

    # --- solving
    def cnf(self, roots):
        """Clauses asserting every root; returns (clauses, var of node)."""
        var = {}
        clauses = []
        pol = {}
        # polarity-aware Tseitin (Plaisted-Greenbaum)
        st = [r for r in roots if r not in (TRUE,)]
        seen = set()
        while st:
            l = st.pop()
            if l in seen or l < 2:
                continue
            seen.add(l)
            k = self.nodes[l >> 1]
            if k is not None:
                for x in k:
                    st.append(x if not l & 1 else x ^ 1)

        def v(l):
            n = l >> 1
            i = var.get(n)
            if i is None:
                i = var[n] = len(var) + 1
            return -i if l & 1 else i

        for l in seen:
            k = self.nodes[l >> 1]
            if k is None:
                continue
            if l & 1:  # not AND is used: AND-inputs all true -> node true, i.e. (not node -> some input false)
                clauses.append([v(l ^ 1)] + [v(x ^ 1) for x in k])
            else:
                a = v(l ^ 1)
                for x in k:
                    clauses.append([a, v(x)])
        for r in roots:
            if r == TRUE:
                continue
            if r == FALSE:
                clauses.append([])
            else:
                clauses.append([v(r)])
        return clauses, var

    def solve(self, roots, timeout=600, backend=None):
        """None if unsat, else dict input literal -> bool for the inputs in the cone."""
        roots = [int(r) for r in roots]
        STATS["queries"] += 1
        if FALSE in roots:
            STATS["unsat"] += 1
            return None
        clauses, var = self.cnf(roots)
        STATS["max_clauses"] = max(STATS["max_clauses"], len(clauses))
        t0 = time.perf_counter()
        backend = backend or BACKEND
        try:
            if backend == "kissat" and KISSAT and len(clauses) > 4000:
                m = _kissat(clauses, len(var), timeout)
            else:
                m = _z3(clauses, len(var), timeout)
            if m is None and CROSS and backend == "kissat" and KISSAT and len(clauses) > 4000:
                self._cross(clauses, len(var))
        finally:
            STATS["solver_s"] += time.perf_counter() - t0
        if m is None:
            STATS["unsat"] += 1
            return None
        STATS["sat"] += 1
        return {2 * n: m.get(i, False) for n, i in var.items() if self.nodes[n] is None}


    @staticmethod
    def _cross(clauses, nv):
        """Thorough tier: a second solver decides the unsatisfiable queries again (as far as it gets in a minute)."""
        try:
            if _z3(clauses, nv, 60) is not None:
                raise AssertionError("the two solvers disagree")
            STATS["cross_checked"] = STATS.get("cross_checked", 0) + 1
        except Inconclusive:
            STATS["cross_timeouts"] = STATS.get("cross_timeouts", 0) + 1


CROSS = False
BACKEND = "kissat"
TMP = None


def _tmp():
    global TMP
    if TMP is None:
        d = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        TMP = tempfile.mkdtemp(prefix="vsat", dir=d)
        import atexit

        pid = os.getpid()
        atexit.register(lambda p: os.getpid() == pid and shutil.rmtree(p, ignore_errors=True), TMP)
    return TMP


def _dimacs(clauses, nv):
    return f"p cnf {nv} {len(clauses)}\n" + "\n".join(" ".join(map(str, c)) + " 0" for c in clauses) + "\n"


def _kissat(clauses, nv, timeout):
    p = subprocess.run(
        [KISSAT, "-q", f"--time={int(timeout)}"], input=_dimacs(clauses, nv), text=True, capture_output=True, check=False
    )
    if p.returncode == 20:
        return None
    if p.returncode != 10:
        raise Inconclusive(f"kissat: exit {p.returncode} {p.stderr[-200:]}")
    m = {}
    for line in p.stdout.splitlines():
        if line.startswith("v "):
            for x in line[2:].split():
                x = int(x)
                if x:
                    m[abs(x)] = x > 0
    return m


def _z3(clauses, nv, timeout):
    if any(not c for c in clauses):
        return None
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    path = os.path.join(_tmp(), f"{os.getpid()}.cnf")
    with open(path, "w", encoding="ascii") as f:
        f.write(_dimacs(clauses, nv))
    s.from_file(path)
    r = s.check()
    if r == z3.unsat:
        return None
    if r != z3.sat:
        raise Inconclusive(f"z3: {s.reason_unknown()}")
    m = {}
    mod = s.model()
    for d in mod.decls():
        nm = d.name()
        if nm.startswith("k!"):
            m[int(nm[2:])] = z3.is_true(mod[d])
    return m
