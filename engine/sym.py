"""Symbolic execution of the real Python code by operator overloading and re-execution.

A SymInt stands for an integer input of the code under test.  Arithmetic builds expressions;
a comparison asks the current Context, which consults z3 for the feasibility of both outcomes
under the path condition and forks (the function is re-executed once per feasible decision
sequence).  Formatting a SymInt into text leaves a token in the text, so the text the code
produces stays symbolic; see asp.lift.
"""

import z3

T0, T1, TD = "\ue000", "\ue001", 0xE010  # token: T0 + digits (private use area) + T1


class Abort(Exception):
    """The engine cannot go on with this execution (never a verdict)."""


class ForceConcrete(Exception):
    """A symbolic value was used where only a concrete one is meaningful: re-run with it concretised."""

    def __init__(self, names):
        super().__init__(names)
        self.names = set(names)


class PathLimit(Abort):
    pass


CTX = None


def cur():
    if CTX is None:
        raise Abort("symbolic value used outside of a symbolic execution")
    return CTX


def _z(e):
    return e.z if isinstance(e, SymInt) else z3.IntVal(int(e))


# expression AST: ('v', name) ('c', n) ('+',a,b) ('-',a,b) ('*',a,b) ('//',a,b) ('%',a,b) ('neg',a) ('abs',a)
def ev(e, env):
    k = e[0]
    if k == "v":
        return env[e[1]]
    if k == "c":
        return e[1]
    a = ev(e[1], env)
    if k == "neg":
        return -a
    if k == "abs":
        return abs(a)
    b = ev(e[2], env)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "//":
        return a // b
    if k == "%":
        return a % b
    raise Abort(k)


def evars(e, acc=None):
    acc = set() if acc is None else acc
    if e[0] == "v":
        acc.add(e[1])
    elif e[0] != "c":
        for x in e[1:]:
            evars(x, acc)
    return acc


def asp_text(e, names):
    """ASP term for e with names: variable name -> ASP variable; None if not expressible."""
    k = e[0]
    if k == "v":
        return names[e[1]]
    if k == "c":
        return str(e[1]) if e[1] >= 0 else f"({e[1]})"
    a = asp_text(e[1], names)
    if a is None:
        return None
    if k == "neg":
        return f"(-{a})"
    if k == "abs":
        return f"|{a}|"
    b = asp_text(e[2], names)
    if b is None or k not in "+-*":
        return None
    return f"({a}{k}{b})"


class SymBase:
    pass


class SymInt(SymBase):
    __slots__ = ("e", "_zc")

    def __init__(self, e):
        self.e = e
        self._zc = None

    @property
    def z(self):
        if self._zc is None:
            self._zc = self._mk(self.e)
        return self._zc

    @classmethod
    def _mk(cls, e):
        k = e[0]
        if k == "v":
            return z3.Int(e[1])
        if k == "c":
            return z3.IntVal(e[1])
        a = cls._mk(e[1])
        if k == "neg":
            return -a
        if k == "abs":
            return z3.If(a >= 0, a, -a)
        b = cls._mk(e[2])
        if k == "+":
            return a + b
        if k == "-":
            return a - b
        if k == "*":
            return a * b
        # z3 div/mod are Euclidean: equal to Python's floor for a positive divisor
        if k == "//":
            return z3.If(b > 0, a / b, (-a) / (-b))
        if k == "%":
            return z3.If(b > 0, a % b, -((-a) % (-b)))
        raise Abort(k)

    @staticmethod
    def _e(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, bool):
            return ("c", int(o))
        if isinstance(o, int):
            return ("c", int(o))
        return None

    def _bin(self, k, o, rev=False):
        oe = self._e(o)
        if oe is None:
            return NotImplemented
        a, b = (oe, self.e) if rev else (self.e, oe)
        if k in "+-" and b == ("c", 0):
            return SymInt(a)
        if k == "+" and a == ("c", 0):
            return SymInt(b)
        # fold constants: (x + c1) + c2
        if k in "+-" and b[0] == "c" and a[0] == "+" and a[2][0] == "c":
            c = a[2][1] + (b[1] if k == "+" else -b[1])
            return SymInt(a[1]) if c == 0 else SymInt(("+", a[1], ("c", c)))
        if k == "-" and b[0] == "c":
            return SymInt(("+", a, ("c", -b[1])))
        if k == "+" and a[0] == "c":
            return SymInt(("+", b, a))
        if k == "*" and (a == ("c", 1) or b == ("c", 1)):
            return SymInt(b if a == ("c", 1) else a)
        return SymInt((k, a, b))

    def __add__(self, o):
        return self._bin("+", o)

    def __radd__(self, o):
        return self._bin("+", o, True)

    def __sub__(self, o):
        return self._bin("-", o)

    def __rsub__(self, o):
        return self._bin("-", o, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin("*", o)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin("*", o, True)

    def __floordiv__(self, o):
        self._nz(o)
        if CTX is not None and CTX.define_div and self._e(o) is not None:
            return CTX.divmod(self, o)[0]
        return self._bin("//", o)

    def __rfloordiv__(self, o):
        self._nz(self)
        return self._bin("//", o, True)

    def __mod__(self, o):
        self._nz(o)
        if CTX is not None and CTX.define_div and self._e(o) is not None:
            return CTX.divmod(self, o)[1]
        return self._bin("%", o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        self._nz(self)
        return self._bin("%", o, True)

    @staticmethod
    def _nz(o):
        if isinstance(o, SymInt):
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        elif o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return self.__index__() / (o.__index__() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __neg__(self):
        return SymInt(("neg", self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(("abs", self.e))

    def __pow__(self, o):
        return self.__index__() ** (o.__index__() if isinstance(o, SymInt) else o)

    def __lshift__(self, o):
        return self.__index__() << int(o)

    def __rshift__(self, o):
        return self.__index__() >> int(o)

    def __and__(self, o):
        return self.__index__() & int(o)

    def __or__(self, o):
        return self.__index__() | int(o)

    __rand__ = __and__
    __ror__ = __or__

    def _cmp(self, o, f):
        if isinstance(o, float):
            return f(self.__index__(), o)
        if not isinstance(o, (SymInt, int)):
            return NotImplemented
        return cur().branch(f(self.z, _z(o)))

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, (SymInt, int)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return self != 0

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return cur().concretize(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __str__(self):
        c = cur()
        if evars(self.e) & c.force:
            return str(self.__index__())
        names = {v: v for v in evars(self.e)}
        if c.asp_mode and asp_text(self.e, names) is None:
            return str(self.__index__())
        return c.token(self)

    def __repr__(self):
        if CTX is None:
            return f"SymInt({self.e})"
        return str(self)

    def __format__(self, spec):
        if spec:
            return format(self.__index__(), spec)
        return str(self)

    # int API
    def bit_length(self):
        return self.__index__().bit_length()

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def tokens_of(s):
    """Token ids in a string, with their spans."""
    out, i = [], 0
    while True:
        i = s.find(T0, i)
        if i < 0:
            return out
        j = s.index(T1, i)
        out.append((i, j + 1, int("".join(str(ord(ch) - TD) for ch in s[i + 1 : j]))))
        i = j + 1


def has_token(s):
    return T0 in s


class Context:
    """One path of one symbolic execution."""

    def __init__(self, prefix, assumptions, force, max_decisions=4000, asp_mode=True):
        self.trail = []  # [choice, [remaining alternatives]]
        self.prefix = prefix
        self.pos = 0
        self.solver = z3.SolverFor("QF_LIA") if False else z3.Solver()
        self.conds = []
        self.toks = []
        self.tokidx = {}
        self.force = force
        self.max_decisions = max_decisions
        self.asp_mode = asp_mode
        self.nqueries = 0
        self.vars = {}
        self.define_div = False  # name quotients and remainders instead of using div/mod terms
        self.divs = {}
        for a in assumptions:
            self.solver.add(a)
            self.conds.append(a)
        self.cache = {}

    # --- inputs
    def int(self, name, lo, hi=None, values=None):
        """A fresh symbolic integer in lo..hi (or in values)."""
        if name in self.vars:
            raise Abort(f"duplicate symbol {name}")
        dom = tuple(values) if values is not None else (range(lo, hi + 1) if hi is not None else None)
        self.vars[name] = dom
        v = z3.Int(name)
        if dom is not None:
            if isinstance(dom, range) or list(dom) == list(range(dom[0], dom[-1] + 1)):
                c = z3.And(v >= dom[0], v <= dom[-1])
            else:
                c = z3.Or([v == d for d in dom])
            self.assume(c)
        elif lo is not None:
            self.assume(v >= lo)
        return SymInt(("v", name))

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.solver.add(c)
        self.conds.append(c)
        self.cache.clear()

    def check(self):
        """Drop the path if the assumptions made so far exclude it."""
        if self.solver.check() == z3.unsat:
            raise Infeasible()

    def divmod(self, a, b):
        """Quotient and remainder (Python semantics) as fresh integers with their defining constraints."""
        key = (a.e, SymInt._e(b))
        hit = self.divs.get(key)
        if hit is None:
            n = len(self.divs)
            q, m = (self.int(f"{x}{n}", None) for x in ("quo", "rem"))
            bz = _z(b)
            self.assume(a.z == q.z * bz + m.z)
            self.assume(z3.And(z3.Implies(bz > 0, z3.And(m.z >= 0, m.z < bz)), z3.Implies(bz < 0, z3.And(m.z <= 0, m.z > bz))))
            hit = self.divs[key] = (q, m)
        return hit

    def feasible(self, c):
        self.nqueries += 1
        r = self.solver.check(c)
        if r == z3.unknown:
            raise Abort("z3 unknown in path feasibility")
        return r == z3.sat

    def _decide(self, options):
        """options: list of alternatives not yet explored; returns index chosen."""
        if self.pos < len(self.prefix):
            choice, rest = self.prefix[self.pos]
        else:
            choice, rest = options[0], list(options[1:])
        self.pos += 1
        if self.pos > self.max_decisions:
            raise PathLimit("too many decisions on one path")
        self.trail.append((choice, rest))
        return choice

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        if self.pos < len(self.prefix):
            v = self._decide(None)
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            v = self._decide([True, False] if t and f else [t])
        self.solver.add(c if v else z3.Not(c))
        self.conds.append(c if v else z3.Not(c))
        self.cache[key] = (v, c)
        return v

    def choose(self, options):
        """Fork over a list of concrete alternatives (a finite input dimension, not a solver variable)."""
        options = list(options)
        i = self._decide(list(range(len(options))))
        return options[i]

    def concretize(self, s):
        if not isinstance(s, SymInt):
            return int(s)
        if s.e[0] == "c":
            return s.e[1]
        if s.e[0] == "v" and self.vars.get(s.e[1]) is not None:
            for v in self.vars[s.e[1]]:
                if self.branch(s.z == v):
                    return v
            raise Infeasible()
        for _ in range(400):
            # the value is part of the decision: a re-execution takes the same one
            if self.pos < len(self.prefix):
                v, taken = self._decide(None)
            else:
                if self.solver.check() != z3.sat:
                    raise Infeasible()
                v = self.solver.model().eval(s.z, model_completion=True).as_long()
                v, taken = self._decide([(v, True), (v, False)] if self.feasible(s.z != v) else [(v, True)])
            c = s.z == v if taken else s.z != v
            self.solver.add(c)
            self.conds.append(c)
            if taken:
                return v
        raise PathLimit("concretization of an unbounded value")

    # --- text
    def token(self, s):
        i = self.tokidx.get(s.e)
        if i is None:
            i = len(self.toks)
            self.toks.append(s)
            self.tokidx[s.e] = i
        return T0 + "".join(chr(TD + int(d)) for d in str(i)) + T1

    def tok_expr(self, i):
        return self.toks[i]


class Infeasible(Exception):
    """The path condition became unsatisfiable."""


class Path:
    def __init__(self, ctx, result, exc):
        self.conds = ctx.conds
        self.vars = dict(ctx.vars)
        self.toks = ctx.toks
        self.result = result
        self.exc = exc
        self.nq = ctx.nqueries
        self.trail = [t[0] for t in ctx.trail]
        self.ctx = ctx


def explore(fn, max_paths=20000, asp_mode=True, force=None, assumptions=(), max_decisions=4000):
    """Run fn(ctx) on every feasible path. Yields Path. fn's exceptions are part of the result."""
    global CTX
    force = set() if force is None else force
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        while True:
            ctx = Context(prefix, assumptions, force, asp_mode=asp_mode, max_decisions=max_decisions)
            CTX = ctx
            res = exc = None
            infeasible = False
            try:
                res = fn(ctx)
            except Infeasible:
                infeasible = True
            except Abort:
                raise
            except Exception as e:  # the code under test raised
                exc = e
            finally:
                CTX = None
            break
        # schedule the alternatives opened beyond the prefix
        for i in range(len(ctx.trail) - 1, len(prefix) - 1, -1):
            choice, rest = ctx.trail[i]
            for j, alt in enumerate(rest):
                stack.append([*[(c, []) for c, _ in ctx.trail[:i]], (alt, [])])
        if infeasible:
            continue
        n += 1
        if n > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
        yield Path(ctx, plain(res), exc)


def plain(x):
    """Texts with tokens as ordinary strings: what is looked at after a path no longer forks on them."""
    if isinstance(x, str):
        return str.__str__(x)
    if type(x) in (tuple, list):
        return type(x)(plain(y) for y in x)
    return x


# ---------------------------------------------------------------- builtins seen by the code under test
class SymStr(str):
    """A string with tokens; digit runs of it may be symbolic non-negative integers."""

    def isdigit(self):
        if not has_token(self):
            return str.isdigit(self)
        rest, last = "", 0
        for i, j, t in tokens_of(self):
            rest += self[last:i]
            last = j
            if not cur().tok_expr(t) >= 0:
                return False
        rest += self[last:]
        return rest == "" or str.isdigit(rest)

    isdecimal = isnumeric = isdigit

    def isspace(self):
        return False if has_token(self) else str.isspace(self)

    def split(self, *a, **k):
        return [SymStr(x) for x in str.split(self, *a, **k)]

    def strip(self, *a):
        return SymStr(str.strip(self, *a))

    def replace(self, *a):
        return SymStr(str.replace(self, *a))

    def rsplit(self, *a, **k):
        return [SymStr(x) for x in str.rsplit(self, *a, **k)]

    def splitlines(self, *a, **k):
        return [SymStr(x) for x in str.splitlines(self, *a, **k)]

    def partition(self, sep):
        return tuple(SymStr(x) for x in str.partition(self, sep))

    def rpartition(self, sep):
        return tuple(SymStr(x) for x in str.rpartition(self, sep))

    def lstrip(self, *a):
        return SymStr(str.lstrip(self, *a))

    def rstrip(self, *a):
        return SymStr(str.rstrip(self, *a))

    def removeprefix(self, p):
        return SymStr(str.removeprefix(self, p))

    def removesuffix(self, p):
        return SymStr(str.removesuffix(self, p))

    def lower(self):
        return SymStr(str.lower(self))

    def upper(self):
        return SymStr(str.upper(self))

    def join(self, xs):
        return SymStr(str.join(self, xs))

    def __add__(self, o):
        return SymStr(str.__add__(self, o))

    def __radd__(self, o):
        return SymStr(str.__add__(o, self))

    def __str__(self):
        return self

    def __getitem__(self, i):
        return SymStr(str.__getitem__(self, i))

    def __bool__(self):
        return str.__len__(self) > 0

    def __len__(self):
        if not has_token(self):
            return str.__len__(self)
        n = 0
        last = 0
        for i, j, t in tokens_of(self):
            n += i - last
            last = j
            v = cur().tok_expr(t)
            if _isinstance(v, _int):
                n += len(str(v))
                continue
            if v < 0:  # one path for each number of digits
                n += 1
                v = -v
            d = 1
            while v >= 10**d:
                d += 1
            n += d
        return n + str.__len__(self) - last

    def conc(self):
        return subst_tokens(self)

    def __iter__(self):
        if not has_token(self):
            return str.__iter__(self)
        return iter(self.conc())

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if not has_token(self) and not has_token(o):
            return str.__eq__(self, o)
        return tok_eq(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.conc())


def subst_tokens(s):
    out, last = "", 0
    for i, j, t in tokens_of(s):
        out += str.__getitem__(s, slice(last, i)) + str(cur().concretize(cur().tok_expr(t)))
        last = j
    return out + str.__getitem__(s, slice(last, None))


def tok_eq(a, b):
    """Equality of two strings that may hold tokens."""
    a, b = str(a) if type(a) is not str else a, str(b) if type(b) is not str else b
    ta, tb = tokens_of(a), tokens_of(b)
    # same shape: compare token by token
    if _shape(a) == _shape(b):
        conds = []
        for (_, _, x), (_, _, y) in zip(ta, tb):
            ex, ey = cur().tok_expr(x), cur().tok_expr(y)
            if ex.e == ey.e:
                continue
            conds.append(ex.z == ey.z)
        return True if not conds else cur().branch(z3.And(conds))
    na, nb = _numbers(a), _numbers(b)
    if na is not None and nb is not None:
        if na[1] != nb[1]:
            return False
        conds = [_z(x) == _z(y) for x, y in zip(na[0], nb[0]) if not (type(x) is type(y) is int and x == y)]
        return True if not conds else cur().branch(z3.And(conds))
    return str.__eq__(str.__str__(subst_tokens(a)), str.__str__(subst_tokens(b)))


def _numbers(s):
    """Numbers of a string and the text between them; None unless every number is a plain non-negative one."""
    nums, seps, last = [], [], 0
    s = str.__str__(s)
    i = 0
    while i < len(s):
        if s[i] == T0:
            j = s.index(T1, i) + 1
            v = cur().tok_expr(int("".join(chr(ord(ch) - TD + 48) for ch in s[i + 1 : j - 1])))
            if not v >= 0:
                return None
        elif s[i].isdigit():
            j = i
            while j < len(s) and s[j].isdigit():
                j += 1
            v = _int(s[i:j])
            if s[i] == "0" and j > i + 1:
                return None
        else:
            i += 1
            continue
        if j < len(s) and (s[j] == T0 or s[j].isdigit()):
            return None
        nums.append(v)
        seps.append(s[last:i])
        last = i = j
    return nums, (*seps, s[last:])


def _shape(s):
    out, last = [], 0
    for i, j, _ in tokens_of(s):
        out.append(str.__getitem__(s, slice(last, i)))
        last = j
    out.append(str.__getitem__(s, slice(last, None)))
    return tuple(str.__str__(x) for x in out)


_isinstance = isinstance
_int = int


def sym_isinstance(x, t):
    if type(x) is SymInt:
        ts = t if type(t) is tuple else (t,)
        return any(y is _int or y is sym_int or y is SymInt or y is object for y in ts)
    if t is sym_int:
        return _isinstance(x, _int)
    if type(t) is tuple:
        return _isinstance(x, tuple(_int if y is sym_int else y for y in t))
    return _isinstance(x, t)


class _SymIntMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is SymInt or _isinstance(x, _int)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class sym_int(metaclass=_SymIntMeta):
    """int() that keeps symbolic values."""

    def __new__(cls, x=0, *a):
        if type(x) is SymInt:
            return x
        if _isinstance(x, str) and has_token(x):
            ts = tokens_of(x)
            s = str.strip(str.__str__(x))
            if not a and len(ts) == 1 and s[0] == T0 and s[-1] == T1 and len(tokens_of(s)) == 1:
                return cur().tok_expr(ts[0][2])
            if not a and len(ts) == 1 and s[0] == "-" and s[1] == T0 and s[-1] == T1:
                return -cur().tok_expr(ts[0][2])
            return _int(subst_tokens(x), *a)
        return _int(x, *a)


class SymMap:
    """dict stand-in for the puzzle's element maps: keys may have symbolic coordinates."""

    def __init__(self, entries=()):
        self._d = []  # entries [key, value] in insertion order
        self._c = {}  # concrete key -> entry
        self._s = []  # entries with symbolic keys
        for k, v in entries.items() if hasattr(entries, "items") else entries:
            self[k] = v

    @staticmethod
    def _conc(k):
        if isinstance(k, tuple):
            return all(SymMap._conc(x) for x in k)
        return not isinstance(k, SymBase) and not (isinstance(k, str) and has_token(k))

    @staticmethod
    def _same(a, b):
        if a is b:
            return True
        if isinstance(a, str) or isinstance(b, str):
            if not (isinstance(a, str) and isinstance(b, str)):
                return False
            if not has_token(a) and not has_token(b):
                return str.__eq__(a, b)
            return tok_eq(a, b)
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return a == b
        if len(a) != len(b):
            return False
        conds = []
        for x, y in zip(a, b):
            if isinstance(x, SymInt) or isinstance(y, SymInt):
                if not isinstance(x, (SymInt, int)) or not isinstance(y, (SymInt, int)):
                    return False
                if isinstance(x, SymInt) and isinstance(y, SymInt) and x.e == y.e:
                    continue
                conds.append(_z(x) == _z(y))
            elif (not SymMap._same(x, y)) if isinstance(x, tuple) or isinstance(x, str) else x != y:
                return False
        return True if not conds else cur().branch(z3.And(conds))

    def _find(self, k):
        if self._conc(k):
            e = self._c.get(k)
            if e is not None:
                return e
            scan = self._s
        else:
            scan = self._d
        for e in scan:
            if self._same(e[0], k):
                return e
        return None

    def get(self, k, default=None):
        e = self._find(k)
        return default if e is None else e[1]

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        return e[1]

    def _new(self, k, v):
        e = [k, v]
        self._d.append(e)
        if self._conc(k):
            self._c[k] = e
        else:
            self._s.append(e)

    def _drop(self, e):
        self._d = [x for x in self._d if x is not e]
        self._s = [x for x in self._s if x is not e]
        if self._conc(e[0]):
            del self._c[e[0]]

    def __setitem__(self, k, v):
        e = self._find(k)
        if e is None:
            self._new(k, v)
        else:
            e[1] = v

    def setdefault(self, k, v=None):
        e = self._find(k)
        if e is None:
            self._new(k, v)
            return v
        return e[1]

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self._drop(e)

    def pop(self, k, *a):
        e = self._find(k)
        if e is None:
            if a:
                return a[0]
            raise KeyError(k)
        self._drop(e)
        return e[1]

    def update(self, o=(), **kw):
        for k, v in o.items() if hasattr(o, "items") else o:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self._d.clear()
        self._c.clear()
        self._s.clear()

    def copy(self):
        r = SymMap()
        for k, v in self.items():
            r._new(k, v)
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __contains__(self, k):
        return self._find(k) is not None

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __iter__(self):
        return iter([e[0] for e in self._d])

    def __reversed__(self):
        return reversed([e[0] for e in self._d])

    def keys(self):
        return _View([e[0] for e in self._d])

    def values(self):
        return _View([e[1] for e in self._d])

    def items(self):
        return _View([(e[0], e[1]) for e in self._d])

    def __eq__(self, o):
        if len(o) != len(self):
            return False
        return all(k in o and o[k] == v for k, v in self.items())

    def __repr__(self):
        return f"SymMap({self._d})"


class _View(list):
    def __sub__(self, o):
        return set(self) - set(o)

    def __and__(self, o):
        return set(self) & set(o)

    def __or__(self, o):
        return set(self) | set(o)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, type)

    def __getitem__(cls, x):
        return type[x]

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


class sym_type(metaclass=_TypeMeta):
    """type() that sees symbolic values as the values they stand for."""

    def __new__(cls, *a, **k):
        if len(a) != 1:
            return type(*a, **k)
        t = type(a[0])
        if t is _int or issubclass(t, SymInt):
            return sym_int
        for u, v in ((SymStr, str), (SymMap, dict)):
            if issubclass(t, u):
                return v
        return t


def patch_module(mod):
    """Let a module's own calls of int(), isinstance() and type() accept symbolic values."""
    mod.__dict__["isinstance"] = sym_isinstance
    mod.__dict__["int"] = sym_int
    mod.__dict__["type"] = sym_type
