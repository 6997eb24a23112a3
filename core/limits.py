"""T01: time limit and number of answers.  The real run_solver on a stand-in for clingo and a symbolic clock."""

import logging
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import z3

import hooks
import puz
import sym
from core import penpa as pp
from sym import SymInt, SymStr


class Reading:
    """json, noting when the drawing is read."""

    def __init__(self, inner, log):
        self.inner, self.log = inner, log
        self.dumps = inner.dumps if inner else pp.REAL_DUMPS

    def loads(self, text):
        self.log.append(("read",))
        return self.inner.loads(text) if self.inner else pp.REAL_LOADS(text)


def busy(log):
    """The parts of the work done so far that take their time: reading the drawing, generating the program, grounding, searching."""
    kinds = [e[0] for e in log]
    return [k for k in ("read", "program", "ground", "solve") if k in kinds]


class Clock:
    """Readings that never go back, of a clock that each part of the work moves on; nothing else does before the first reading."""

    def __init__(self, moment, log):
        self.moment, self.log = moment, log
        self.reads, self.done = [], []
        self.begin = self.now = moment("start")

    def read(self):
        """The next reading, and what holds of it."""
        new = [k for k in busy(self.log) if k not in self.done]
        t = self.moment(f"t{len(self.reads)}")
        low = self.now
        z = lambda v: v.z if isinstance(v, SymInt) else v
        low = z(low)
        for k in new:
            low = low + z(self.moment(k))
        cs = [z(t) >= low] if self.reads else [z(t) == low]
        self.done += new
        self.reads.append(t)
        self.now = t
        return t, cs


def run_case(nc, url, models, read, limit, count, threads, log):
    old = {n: nc.Config.__dict__.get(n) for n in ("time_limit", "max_solutions_to_find", "parallel_threads")}
    json0 = hooks.JSON
    hooks.CLOCK = read
    hooks.JSON = Reading(json0, log)
    nc.Config.time_limit, nc.Config.max_solutions_to_find, nc.Config.parallel_threads = limit, count, threads
    try:
        return pp.run_models(nc, "slitherlink", url, {}, models, log)
    finally:
        hooks.CLOCK, hooks.JSON = None, json0
        for n, v in old.items():
            setattr(nc.Config, n, v)


def texts(k):
    return [f"edge_top({i},{i + 1})" for i in range(k)]


def drawn(url, B):
    """Which of the models above an answer shows."""
    d = pp.REAL_LOADS(pp.unabbr(pp.body(url)[4]))["edge"]
    for i in range(49):
        if set(d) == {f"{B.idx(1, i - 1, i)},{B.idx(1, i - 1, i + 1)}"}:
            return i
    return None


def check_log(log, limit, count, threads, program_given=True):
    """What clingo was asked to do: conditions (symbolic) that must hold."""
    kinds = [e[0] for e in log]
    if kinds.count("solve") != 1 or "add" not in kinds or kinds.index("ground") > kinds.index("solve") or kinds.index("add") > kinds.index("ground"):
        return [z3.BoolVal(False)]
    _, m, t, asy = log[kinds.index("solve")]
    if isinstance(m, pp.Attr) or isinstance(t, pp.Attr):
        return [z3.BoolVal(False)]
    cs = [pp.same_val(m, count), pp.same_val(t, threads)]
    # the search is stopped at the limit: waits no longer than the limit, then cancels (or leaves) before anything else
    if asy is not True or "wait" not in kinds:
        return [z3.BoolVal(False)]
    w = log[kinds.index("wait")][1]
    if w is None or "get" in kinds[: kinds.index("wait")] or not ("cancel" in kinds[kinds.index("wait") :] or "exit" in kinds):
        return [z3.BoolVal(False)]
    cs.append(pp.z_(w) <= pp.z_(limit) if isinstance(w, SymInt) or isinstance(limit, SymInt) else z3.BoolVal(w <= limit))
    return cs


def limits(nmodels, tier="quick"):
    """For all clock readings, limits, answer counts and thread counts: TimeoutError exactly when the time measured reaches the limit, else every
    model found is returned, in order; clingo is asked for the configured number of answers and stopped at the limit."""
    pp.setup()
    from noqx import clingo as nc

    pr = pp.Prover()
    B = pp.Board(50, 51, [0, 0, 0, 0])
    url, _ = B.url({}, {})

    def fn(ctx):
        log = []
        clock = Clock(lambda n: ctx.int(n, 0), log)

        def read():
            t, cs = clock.read()
            for c in cs:
                ctx.assume(c)
            return t

        limit, count, threads = ctx.int("limit", 1), ctx.int("count", 1), ctx.int("threads", 1)
        res, err = None, None
        try:
            res = run_case(nc, url, [SymStr(t) for t in texts(nmodels)], read, limit, count, threads, log)
        except TimeoutError:
            err = True
        cs = check_log(log, limit, count, threads)
        if len(clock.reads) < 2 or busy(log) != clock.done:
            return z3.BoolVal(False)
        over = clock.now.z - clock.begin.z >= limit.z
        if err:
            cs.append(over)
        else:
            cs.append(z3.Not(over))
            cs.append(z3.BoolVal([drawn(u, B) for u in res] == list(range(nmodels))))
        return z3.And(cs)

    for path in pp.explore(fn):
        pr.stats["paths"] += 1
        m = pr.refute(path.conds, z3.BoolVal(False) if path.exc is not None else path.result)
        if m is not None:
            env = pp.model_env(path, m)
            raise puz.Violation("limits", {"fn": "limits", "env": env, "models": nmodels}, f"the time limit or the number of answers is not respected ({nmodels} found)")
    return pr.out(functions=["noqx.clingo.run_solver", "noqx.clingo.ClingoSolver.solve"])


def replay(case):
    """The real run_solver with these clock readings and settings."""
    from noqx import clingo as nc

    B = pp.Board(50, 51, [0, 0, 0, 0])
    url, _ = B.url({}, {})
    env, n = case["env"], case["models"]
    logging.disable(logging.CRITICAL)
    log, res = [], None
    clock = Clock(lambda n: env.get(n, 0), log)

    def read():
        t = clock.read()[0]
        if f"t{len(clock.reads) - 1}" not in env:
            t = clock.now = clock.reads[-1] = max(clock.reads[-2:-1] + [t])
        return t

    limit, count, threads = env["limit"], env["count"], env["threads"]
    try:
        res = run_case(nc, url, texts(n), read, limit, count, threads, log)
    except TimeoutError as e:
        print("raised", repr(e))
    except Exception as e:
        print("raised", repr(e))
        return 10
    print("started at", env.get("start", 0), "clock readings", clock.reads, "work", {k: env.get(k, 0) for k in busy(log)}, "limit", limit, "asked of clingo:", [e for e in log if e[0] not in ("control", "add", "read", "program")], "count", count, "threads", threads)
    ok = all(z3.is_true(z3.simplify(c)) for c in check_log(log, limit, count, threads))
    over = len(clock.reads) > 1 and clock.now - env.get("start", 0) >= limit
    got = None if res is None else [drawn(u, B) for u in res]
    print("answers returned:", got, "of", n, "; time over:", over)
    return 0 if ok and len(clock.reads) > 1 and busy(log) == clock.done and (res is None) == over and (res is None or got == list(range(n))) else 10


def JOBS(tier):
    return [("T01", "limits", 2, (n,)) for n in (range(12) if tier == "quick" else range(40))]
