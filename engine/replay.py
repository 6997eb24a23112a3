"""Replays one counterexample on the real, unpatched code.  Usage: replay.py CASE.json
Exit 10: reproduced.  Exit 0: not reproduced."""

import json
import os
import sys

REPO = os.environ.get("NOQX_REPO", "/repo")
sys.dont_write_bytecode = True


def build(case):
    from noqx.puzzle import Color, Direction, Point, Puzzle

    p = Puzzle(case["puzzle"], "", dict(case["param"]))
    p.row, p.col, p.margin = case["rows"], case["cols"], tuple(case["margin"])
    for kind, r, c, d, pos, v in case["elements"]:
        if isinstance(v, str) and v.startswith("Color."):
            v = Color[v[6:]]
        getattr(p, kind)[Point(r, c, Direction(d), pos)] = v
    return p


class Obs:
    def __init__(self):
        self.out = set()

    def output_atom(self, symbol, atom):
        self.out.add(symbol)


def accepts(program, answer, models=1):
    import clingo

    ctl = clingo.Control(["--warn=none"], logger=lambda *_: None)
    ctl.configuration.solve.models = models
    obs = Obs()
    ctl.register_observer(obs)
    ctl.add("base", [], program)
    ctl.ground([("base", [])])

    def fn(name, args):
        neg = name.startswith("-")
        return clingo.Function(
            name.lstrip("-"), [clingo.Number(a) if isinstance(a, int) else clingo.String(a) for a in args], not neg
        )

    want = {fn(n, a) for n, a in answer}
    if not want <= obs.out:
        return 0
    n = 0
    with ctl.solve(assumptions=[(s, s in want) for s in obs.out], yield_=True) as h:
        for m in h:
            assert set(m.symbols(shown=True)) == want
            n += 1
    return n


def repeats(program, answer):
    """How often the real solver class lists this answer."""
    from noqx.clingo import ClingoSolver
    import clingo

    ctl = clingo.Control(["--warn=none"], logger=lambda *_: None)
    obs = Obs()
    ctl.register_observer(obs)
    ctl.add("base", [], program)
    ctl.ground([("base", [])])
    want = {clingo.Function(n.lstrip("-"), [clingo.Number(a) if isinstance(a, int) else clingo.String(a) for a in args], not n.startswith("-")) for n, args in answer}
    inst = ClingoSolver()
    inst.solve(program + "".join(f"\n:- {'not ' if s in want else ''}{s}." for s in obs.out))
    return len(inst.solution())


def main():
    case = json.load(open(sys.argv[1], encoding="utf-8"))
    os.chdir(REPO)
    sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    import hooks

    hooks.install()
    from noqx import manager

    manager.load_solvers("solver")
    if "core" in case:
        import importlib

        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        sys.path.insert(0, root)
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        return importlib.import_module(f"core.{case['core']}").replay(case)
    p = build(case)
    kind = case["kind"]
    prog = err = None
    try:
        prog = manager.modules[case["puzzle"]].solve(p)
        if kind == "exception":
            import clingo

            ctl = clingo.Control(["--warn=none"], logger=lambda *_: None)
            ctl.add("base", [], prog)
            ctl.ground([("base", [])])
    except Exception as e:
        err = e
    print(f"puzzle {case['puzzle']} {case['rows']}x{case['cols']} param {case['param']} elements {case['elements']}")
    if kind == "exception":
        print("raised:", repr(err))
        return 10 if err is not None else 0
    if err is not None:
        print("raised:", repr(err))
        return 10 if kind == "completeness" else 0
    if kind == "accepts":
        print("accepted without an error")
        return 10
    n = repeats(prog, case["answer"]) if kind == "duplicate" else accepts(prog, case["answer"])
    print(f"{kind}: the real program has {n} model(s) displayed as {case['answer']}")
    if kind == "soundness":
        return 10 if n else 0
    if kind == "completeness":
        return 10 if n == 0 else 0
    if kind == "duplicate":
        return 10 if n > 1 else 0
    return 0


if __name__ == "__main__":
    sys.exit(main())
