"""H01: what was solved before does not matter.  The real solve() of every puzzle type runs twice on symbolic drawings,
and between fixed drawings of every type."""

import hashlib
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))

import puz
import run
import sym

CAP = {"quick": 3000, "thorough": 20000}


def example_texts(names=None):
    """Programs of the first documented example of every puzzle type, in a process that has solved nothing else before each."""
    from noqx.manager import modules, prepare_puzzle

    out = {}
    for n in sorted(names or modules):
        out[n] = example_text(modules, prepare_puzzle, n)
    return out


def example_text(modules, prepare_puzzle, n):
    ex = next((e for e in modules[n].examples if "data" in e and "test" not in e), None)
    if ex is None:
        return None
    random.seed(0)
    text = lambda v: v if v is None or isinstance(v, bool) else str(v)
    param = {k: text(ex.get("config", {}).get(k, v.get("default"))) for k, v in modules[n].parameters.items()}
    try:
        p = prepare_puzzle(n, ex["data"], param)
        random.seed(0)
        return modules[n].solve(p)
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def fresh(names):
    """The same in new processes, so that nothing was solved before (one process for all: a change shows at the first)."""
    code = (
        "import sys, json; sys.path[:0] = [%r, %r]; import run, puz; puz.load_repo(); from core import history;"
        "print(json.dumps(history.example_texts(json.loads(sys.argv[1]))))" % (ROOT, os.path.join(ROOT, "engine"))
    )
    env = {**os.environ, "PYTHONHASHSEED": "0", "NOQX_REPO": puz.REPO}
    r = subprocess.run([sys.executable, "-c", code, json.dumps(names)], capture_output=True, text=True, env=env, timeout=300)
    if r.returncode:
        raise sym.Abort("example programs: " + r.stderr[-300:])
    return json.loads(r.stdout)


def scenarios(spec, tier):
    """(rows, cols, cfg, kind): the smallest scenario of the puzzle type and another one of that size with all their drawings, a
    drawing that is refused halfway, and the plainest drawings of two scenarios of one size and of a few other sizes."""
    every = sorted(spec().scenarios(tier), key=lambda x: x[0] * x[1])
    size = lambda x: (x[0], x[1])
    same = [x for x in every if size(x) == size(every[0])]
    full = same[: 2 if tier == "quick" else 4]
    out = [(*x, "full") for x in full] + [(*every[0], "spoil")]
    rest = [x for x in every if not any(x is y for y in full)]
    plain, seen = [], {}
    for x in rest:
        if seen.setdefault(size(x), 0) < 2:
            seen[size(x)] += 1
            plain.append(x)
    return out + [(*x, "plain") for x in plain[: 4 if tier == "quick" else 12]]


def outcome(mod, p):
    random.seed(0)
    try:
        return "text", mod.solve(p)
    except (sym.Abort, sym.ForceConcrete, sym.Infeasible):
        raise
    except Exception as e:
        return "exc", f"{type(e).__name__}: {e}"


SPOILERS = [("text", "center", "zz", "normal"), ("text", "top", 3, "normal"), ("text", "center", 3, "zz"), ("symbol", "center", "zz__9", "normal"), ("symbol", "top", "zz__9", "normal"), ("line", "top", "zz", "normal"), ("param",)]


class Plain(puz.Builder):
    """The first choice everywhere."""

    def choose(self, options):
        self.choices.append(repr(list(options)[0]))
        return list(options)[0]


def spoil(b, how):
    """One element out of place, at a symbolic cell, so that the drawing is (likely) refused after a part of it was read."""
    if how[0] == "param":
        b.param = {k: "zz" for k in b.param}
    else:
        kind, d, val, pos = how
        b.put(kind, *b.cell(), val, d=d, pos=pos)


def compare(pairs):
    """The first pair of outcomes that differ."""
    return next(((n, a, b) for n, a, b in pairs if a != b), None)


class Fresh:
    """A copy of this process, made before anything was solved, that solves the same drawings in the opposite order."""

    def __init__(self, run_path):
        r1, self.send = os.pipe()
        self.recv, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(self.send), os.close(self.recv)
                with os.fdopen(r1, "rb") as f:
                    jobs = pickle.load(f)
                out = [digest(answer(j[1]) if j[0] == "request" else run_path(*j)) for j in reversed(jobs)][::-1]
                with os.fdopen(w2, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(r1), os.close(w2)

    def ask(self, jobs):
        with os.fdopen(self.send, "wb") as f:
            pickle.dump(jobs, f)
        with os.fdopen(self.recv, "rb") as f:
            try:
                out = pickle.load(f)
            except EOFError:
                out = None
        os.waitpid(self.pid, 0)
        self.pid = None
        return out

    def close(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.send), os.close(self.recv)


def requests(modules, name):
    """Requests as they arrive: the example of the type, the same drawing with each parameter changed, and sent as two other types."""
    ex = next((e for e in modules[name].examples if "data" in e and "test" not in e), None)
    if ex is None:
        return []
    text = lambda v: v if v is None or isinstance(v, bool) else str(v)
    usual = lambda n, e: {k: text(e.get(k, v.get("default"))) for k, v in modules[n].parameters.items()}
    base = usual(name, ex.get("config", {}))
    out = [(name, ex["data"], base)]
    for k, v in base.items():
        for w in (not v,) if isinstance(v, bool) else ("1", "2"):
            out.append((name, ex["data"], {**base, k: w}))
    names = sorted(modules)
    i = names.index(name)
    out += [(n, ex["data"], usual(n, {})) for n in (names[i - 1], names[(i + 1) % len(names)])]
    return out


def answer(req):
    """The program of a request, or how it is refused."""
    from noqx.manager import generate_program, prepare_puzzle

    random.seed(0)
    try:
        p = prepare_puzzle(*req[:2], dict(req[2]))
        random.seed(0)
        return "text", generate_program(p)
    except Exception as e:
        return "exc", f"{type(e).__name__}: {e}"


def digest(out):
    return hashlib.sha256(repr(tuple(str.__str__(x) for x in out)).encode()).hexdigest()


def history(name, tier="quick"):
    """For every drawing of the scenarios: the same program when it is solved again, the same as in a process that solves the drawings
    in the opposite order, and the documented examples' programs stay what they are in a new process (this type's after every drawing,
    all types' at the end)."""
    from noqx.manager import prepare_puzzle

    modules = puz.load_repo()
    spec = next(s for ss in run.all_specs().values() for s in ss if s.name == name)
    mod = modules[name]
    todo = scenarios(spec, tier)
    first = fresh(None)
    stats = {"paths": 0, "queries": 0, "drawings": 0}

    def build(ctx, i):
        rows, cols, cfg, kind = todo[i]
        random.seed(0)
        b = (puz.Builder if kind == "full" else Plain)(ctx, rows, cols, cfg)
        spec().build(b)
        if kind == "spoil":
            spoil(b, ctx.choose(SPOILERS))
        return b

    def run_path(i, trail, force):
        """One path again."""
        ctx = sym.Context([(c, []) for c in trail], (), force)
        sym.CTX = ctx
        try:
            return outcome(mod, build(ctx, i).puzzle(name))
        except Exception as e:
            return "exc", f"{type(e).__name__}: {e}"
        finally:
            sym.CTX = None

    other = Fresh(run_path)
    try:
        drawings, jobs, outs = [], [], []
        for i, (rows, cols, cfg, kind) in enumerate(todo):
            force = set()

            def fn(ctx):
                fn.b = b = build(ctx, i)
                fn.maps = {k: list(m.items()) for k, m in b.maps.items()}
                try:
                    a = outcome(mod, b.puzzle(name))
                    ex = example_text(modules, prepare_puzzle, name) if kind != "plain" else first[name]
                    c = outcome(mod, b.puzzle(name))
                except BaseException:
                    # left in the middle, which no real drawing does: what it leaves behind must not count
                    example_text(modules, prepare_puzzle, name)
                    raise
                return [(name, a, c), ("example", first[name], ex)]

            kept = len(drawings)
            for _ in range(60):
                del drawings[kept:], jobs[kept:], outs[kept:]
                try:
                    for path in sym.explore(fn, max_paths=CAP[tier], force=force):
                        stats["paths"] += 1
                        stats["queries"] += path.nq
                        if path.exc is not None:
                            raise path.exc
                        drawings.append((path.vars, path.conds, fn.maps, fn.b.param, rows, cols))
                        jobs.append((i, path.trail, force))
                        outs.append(digest(path.result[0][1]))
                        diff = compare(path.result)
                        d = concrete(name, drawings[-1]) if diff else None
                        if d:
                            raise puz.Violation("history", {"fn": "history", "puzzle": name, "then": name, "drawings": [d]}, f"{name}: the program of {'the example' if diff[0] == 'example' else 'a drawing'} depends on what was solved before")
                        if kind == "plain" and len(drawings) - kept >= 40:
                            break
                    break
                except sym.ForceConcrete as e:
                    if not e.names - force:
                        raise
                    force |= e.names
        reqs = requests(modules, name)
        for q in reqs:
            jobs.append(("request", q))
            outs.append(digest(answer(q)))
        back = other.ask(jobs)
        if back is None:
            raise sym.Abort("the second process did not finish")
        for k, (a, b) in enumerate(zip(outs, back)):
            if a == b:
                continue
            if k >= len(drawings):
                raise puz.Violation("history", {"fn": "history", "puzzle": name, "then": name, "drawings": [], "requests": reqs, "at": k - len(drawings)}, f"{name}: the program of a request depends on the requests before")
            # what came before it in one order or the other
            at = lambda ks: [d for d in (concrete(name, drawings[j]) for j in ks) if d]
            n = len(drawings)
            near = list(range(max(0, k - 40), k)) + list(range(k + 1, min(n, k + 41)))
            ends = [j for j in (*range(min(20, n)), *range(max(0, n - 20), n)) if j not in near and j != k]
            me = concrete(name, drawings[k])
            if me:
                raise puz.Violation("history", {"fn": "history", "puzzle": name, "then": name, "drawings": [], "before": at(ends + near), "drawing": me}, f"{name}: the program of a drawing depends on the drawings solved before")
        diff = compare([(n, first[n], example_text(modules, prepare_puzzle, n)) for n in sorted(modules)])
        if diff:
            raise puz.Violation("history", {"fn": "history", "puzzle": name, "then": diff[0], "drawings": [d for d in (concrete(name, x) for x in drawings[:150] + drawings[150:][-80:]) if d]}, f"{diff[0]}: the program of the example changes after {name} drawings were solved")
    finally:
        other.close()
    return {"stats": stats, "solver_extra": {"queries": stats["queries"]}, "functions": [f"solver.{name}.solve"], "samples": [f"{name} {r}x{c} {cfg} ({k})" for r, c, cfg, k in todo]}


def concrete(name, drawing):
    """The drawing of one path, with values."""
    vars_, conds, maps, param, rows, cols = drawing
    s = sym.z3.Solver()
    s.add(*conds)
    if s.check() != sym.z3.sat:
        return None
    m = s.model()
    env = {n: m.eval(sym.z3.Int(n), model_completion=True).as_long() for n in vars_}

    def val(x):
        if isinstance(x, sym.SymInt):
            return sym.ev(x.e, env)
        return "Color." + x.name if hasattr(x, "name") and hasattr(x, "value") else x

    els = [[kind, val(k[0]), val(k[1]), k[2].value, k[3], val(v)] for kind, es in maps.items() for k, v in es]
    return {"puzzle": name, "rows": rows, "cols": cols, "margin": [0, 0, 0, 0], "param": {k: val(v) for k, v in param.items()}, "elements": els}


def again(reqs):
    """The requests in a new process."""
    code = (
        "import sys, json; sys.path[:0] = [%r, %r]; import run, puz; puz.load_repo(); from core import history;"
        "print(json.dumps([history.answer(q) for q in json.load(sys.stdin)]))" % (ROOT, os.path.join(ROOT, "engine"))
    )
    env = {**os.environ, "PYTHONHASHSEED": "0", "NOQX_REPO": puz.REPO}
    r = subprocess.run([sys.executable, "-c", code], input=json.dumps(reqs), capture_output=True, text=True, env=env, timeout=300)
    return json.loads(r.stdout)


def alone(drawing):
    """Its outcome in a new process."""
    code = (
        "import sys, json; sys.path[:0] = [%r, %r]; import run, puz; m = puz.load_repo(); from core import history; from replay import build;"
        "d = json.loads(sys.argv[1]); print(json.dumps(history.outcome(m[d['puzzle']], build(d))))" % (ROOT, os.path.join(ROOT, "engine"))
    )
    env = {**os.environ, "PYTHONHASHSEED": "0", "NOQX_REPO": puz.REPO}
    r = subprocess.run([sys.executable, "-c", code, json.dumps(drawing)], capture_output=True, text=True, env=env, timeout=300)
    return tuple(json.loads(r.stdout)) if r.returncode == 0 else ("exc", r.stderr[-300:])


def replay(case):
    """The real code: drawings twice each, then the example, in this new process."""
    from noqx.manager import modules, prepare_puzzle
    from replay import build

    want = fresh(None)
    mod = modules[case["puzzle"]]
    bad = False

    def example(n, when):
        got = example_text(modules, prepare_puzzle, n)
        if got == want[n]:
            return False
        print(f"program of the example of {n} {when}: not the same as in a new process")
        show(want[n] or "", got or "")
        return True

    for d in case["drawings"]:
        a = outcome(mod, build(d))
        bad = example(case["puzzle"], "after a drawing") or bad
        b = outcome(mod, build(d))
        if a != b:
            print("drawing:", d["elements"], d["param"])
            print("first time:", a[0], len(a[1]), "characters; second time:", b[0], len(b[1]), "characters; different programs")
            show(a[1], b[1])
            bad = True
        if bad:
            return 10
    if case.get("requests"):
        q, k = case["requests"], case["at"]
        outs = [answer(x) for x in q]
        back = [tuple(x) for x in again(q[::-1])][::-1]
        for i, (a, b) in enumerate(zip(outs, back)):
            if a != b:
                print("request", q[i][0], q[i][2], "after", i, "others on the same board, and in the opposite order: different programs")
                show(a[1], b[1])
                return 10
        return 0
    if case.get("drawing"):
        for d in case["before"]:
            outcome(mod, build(d))
        a, b = alone(case["drawing"]), outcome(mod, build(case["drawing"]))
        if a != b:
            print("drawing:", case["drawing"]["elements"], "after", len(case["before"]), "other drawings")
            show(a[1], b[1])
            return 10
        return 0
    for n in sorted(modules):
        bad = example(n, f"after drawings of {case['puzzle']}") or bad
        if bad:
            return 10
    return 10 if any(example(n, "solved a second time") for n in sorted(modules)) else 0


def show(a, b):
    la, lb = a.splitlines(), b.splitlines()
    for x, y in zip(la + [""] * len(lb), lb + [""] * len(la)):
        if x != y:
            print("  before:", x[:200])
            print("  after: ", y[:200])
            return


def JOBS(tier):
    return [("H01", "history", 2, (s.name,)) for ss in run.all_specs().values() for s in ss]
