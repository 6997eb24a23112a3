"""Check of one property.  Usage: run.py PROPERTY [--tier quick|thorough] [--only NAME] [-v]"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import resource
import subprocess
import sys
import time
import traceback
from multiprocessing import connection as mp_connection

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import aig  # noqa: E402
import puz  # noqa: E402
import sym  # noqa: E402


def all_specs():
    import specs
    from specs.families import FAMILY

    out = {}
    for mi in pkgutil.iter_modules([os.path.join(ROOT, "specs")]):
        m = importlib.import_module(f"specs.{mi.name}")
        for v in vars(m).values():
            if isinstance(v, type) and issubclass(v, puz.Spec) and v.name and v.__module__ == m.__name__:
                v.prop = FAMILY.get(v.name, "NONE")
                out.setdefault(v.prop, []).append(v)
    return out


MODULES = None


class AllNames:
    """Every symbol, as a set."""

    def __contains__(self, x):
        return True

    def __or__(self, x):
        return self

    __ror__ = __or__

    def __and__(self, x):
        return set(x)

    __rand__ = __and__

    def __rsub__(self, x):
        return set()


def trace_functions(fn):
    """Functions of the code under test entered while fn runs."""
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(puz.REPO + "/") or f.startswith("./") or not f.startswith("/"):
                if not f.startswith("<"):
                    seen.add((os.path.relpath(f, puz.REPO), frame.f_code.co_qualname))

    sys.setprofile(prof)
    try:
        return fn()
    finally:
        sys.setprofile(None)
        trace_functions.last = sorted("%s:%s" % f for f in seen)


def reset_stats():
    for k in ("queries", "sat", "unsat", "max_clauses"):
        aig.STATS[k] = 0
    aig.STATS["solver_s"] = 0.0


class SpecJob:
    """One scenario of one puzzle type."""

    def __init__(self, cls, rows, cols, cfg, tier, budget):
        self.cls, self.rows, self.cols, self.cfg, self.tier, self.budget = cls, rows, cols, cfg, tier, budget
        self.weight = getattr(cls, "cost", 1) * rows * cols

    def run(self):
        spec, rows, cols, cfg = self.cls, self.rows, self.cols, self.cfg
        t0 = time.time()
        reset_stats()
        c = {k: str(v) for k, v in cfg.items() if k != "board"}
        out = {"name": spec.name, "bound": f"{rows}x{cols} {c if c else ''}".strip()}
        mod = MODULES.get(spec.name)
        if mod is None:
            out["error"] = f"no solver module named {spec.name}"
            out["solver"], out["wall_s"] = dict(aig.STATS), 0
            return out
        h = puz.Harness(spec(), rows, cols, cfg, self.tier, deadline=t0 + self.budget)
        try:

            def fn(ctx):
                b = puz.Builder(ctx, rows, cols, cfg)
                h.spec.build(b)
                p = b.puzzle(spec.name)
                return trace_functions(lambda: mod.solve(p))

            for _ in sym.explore(fn):
                break
            out["functions"] = trace_functions.last
            try:
                out["stats"] = h.run(mod)
            except sym.Abort as e:
                # outside of what the symbolic execution follows: the elements' places and values become
                # concrete (all of them in turn), the answers stay symbolic
                out["fallback"] = f"{type(e).__name__}: {e}"
                h = puz.Harness(spec(), rows, cols, cfg, self.tier, deadline=t0 + self.budget)
                out["stats"] = h._run(mod, AllNames())
            out["samples"] = h.samples
            if not out["stats"]["witnesses"] and not getattr(spec, "may_be_empty", False):
                out["error"] = "vacuous: no drawing of this scenario has an answer"
        except puz.Violation as v:
            out["violation"] = {"kind": v.kind, "msg": v.msg, "case": v.case}
            out["stats"] = h.stats
        except (sym.Abort, aig.Inconclusive) as e:
            out["error"] = f"{type(e).__name__}: {e}"
        except Exception:  # engine or spec bug
            out["error"] = traceback.format_exc()[-1500:]
        out["solver"] = dict(aig.STATS)
        out["wall_s"] = round(time.time() - t0, 2)
        return out


class CoreJob:
    """One scenario of a check in /verif/core: a function returning {"stats", "bound", ...} or raising puz.Violation."""

    def __init__(self, mod, name, tier, weight=1, args=()):
        self.mod, self.name, self.tier, self.weight, self.args = mod, name, tier, weight, args

    def run(self):
        t0 = time.time()
        reset_stats()
        label = self.name + ("" if not self.args else " " + " ".join(map(str, self.args)))
        out = {"name": self.name, "bound": label}
        try:
            m = importlib.import_module(f"core.{self.mod}")
            out.update(getattr(m, self.name)(*self.args, tier=self.tier) or {})
        except puz.Violation as v:
            out["violation"] = {"kind": v.kind, "msg": v.msg, "case": {"core": self.mod, **v.case}}
        except (sym.Abort, aig.Inconclusive) as e:
            out["error"] = f"{type(e).__name__}: {e}"
        except Exception:
            out["error"] = traceback.format_exc()[-1500:]
        st = dict(aig.STATS)
        for k, v in (out.pop("solver_extra", None) or {}).items():
            st[k] = st.get(k, 0) + v
        out["solver"] = st
        out["wall_s"] = round(time.time() - t0, 2)
        return out


def run_job(job):
    return job.run()


def _worker(job, conn, mem):
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        r = run_job(job)
        if "MemoryError" in r.get("error", "") or "bad_alloc" in r.get("error", ""):
            r = None
    except MemoryError:
        r = None
    if r is not None:
        conn.send(r)
    conn.close()
    os._exit(0)


def run_jobs(jobs, n, limit):
    """The results of the jobs, each in a process of its own, n at a time; one that dies (memory) is tried again alone at the end.
    Raises mp.TimeoutError at the limit."""
    ctx = mp.get_context("fork")
    total = os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES")
    todo, again, running = list(jobs), [], {}
    try:
        while todo or again or running:
            if not todo and not running and n > 1:
                todo, again, n = again, [], 1
            while todo and len(running) < n:
                job = todo.pop(0)
                a, b = ctx.Pipe(duplex=False)
                p = ctx.Process(target=_worker, args=(job, b, int(total * 0.85 / n)), daemon=True)
                p.start()
                b.close()
                running[a] = (p, job, time.time())
            ready = mp_connection.wait(list(running), timeout=max(0.1, min(5, limit - time.time())))
            if time.time() > limit:
                raise mp.TimeoutError
            for a, (p, job, t0) in list(running.items()):
                if a not in ready:
                    if time.time() - t0 < 1.5 * job_budget(job) + 60:
                        continue
                    p.kill()
                try:
                    r = a.recv() if a in ready else None
                except (EOFError, OSError):
                    r = None
                a.close()
                p.join()
                del running[a]
                if r is not None:
                    yield r
                elif a in ready and n > 1:
                    again.append(job)
                else:
                    what = "the process of this scenario ended (memory)" if a in ready else "time limit of this scenario"
                    yield {"name": job.name if isinstance(job, CoreJob) else job.cls.name, "bound": "", "error": what, "solver": {"queries": 0, "sat": 0, "unsat": 0, "max_clauses": 0, "solver_s": 0.0}, "wall_s": round(time.time() - t0, 2)}
    finally:
        for p, _, _ in running.values():
            p.terminate()


def job_budget(job):
    return getattr(job, "budget", 0) or 6 * 3600


def core_jobs(prop, tier):
    out = []
    d = os.path.join(ROOT, "core")
    if os.path.isdir(d):
        for mi in pkgutil.iter_modules([d]):
            m = importlib.import_module(f"core.{mi.name}")
            for p, name, weight, args in getattr(m, "JOBS", lambda tier: [])(tier):
                if p == prop or prop == "ALL":
                    out.append(CoreJob(mi.name, name, tier, weight, args))
    return out


def replay(path, timeout=300):
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, "replay.py"), path],
            capture_output=True,
            text=True,
            timeout=timeout,
            check=False,
        )
    except subprocess.TimeoutExpired:
        return 99, "replay timed out"
    return p.returncode, p.stdout + p.stderr


def known_findings(prop):
    """Committed list of genuine defects left in place: entries {property, status: finding, puzzle, case, what}."""
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        return [k for k in json.load(f) if k.get("property") == prop and k.get("status") == "finding"]


def write_replay(prop, v, n=0):
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{v['case'].get('puzzle') or v['case'].get('core')}-{n}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"kind": v["kind"], "msg": v["msg"], **v["case"]}, f, indent=1)
    return path


def evidence(prop, tier, results, njobs, viol, t0, findings):
    tot, solver, per, funcs, samples, undecided, fallbacks = {}, {}, {}, set(), [], [], []
    for r in results:
        for k, x in (r.get("stats") or {}).items():
            tot[k] = tot.get(k, 0) + x
        for k, x in (r.get("solver") or {}).items():
            solver[k] = max(solver.get(k, 0), x) if k == "max_clauses" else round(solver.get(k, 0) + x, 2)
        funcs.update(r.get("functions") or ())
        d = per.setdefault(r["name"], {"scenarios": 0, "queries": 0, "solver_s": 0.0, "bounds": []})
        d["scenarios"] += 1
        d["queries"] += (r.get("solver") or {}).get("queries", 0)
        d["solver_s"] = round(d["solver_s"] + (r.get("solver") or {}).get("solver_s", 0), 2)
        d["bounds"].append(r["bound"])
        if len(samples) < 6 and r.get("samples"):
            samples.append(r["samples"][0])
        if "error" in r:
            undecided.append(f"{r['name']} {r['bound']}: {r['error'][-300:]}")
        if "fallback" in r:
            fallbacks.append(f"{r['name']} {r['bound']}: {r['fallback'][:200]}")
    cov = {
        "explanation": (
            "The implementation is executed symbolically (elements on the board at symbolic places with symbolic values; "
            "path conditions decided by z3), the program text it generates is grounded by the real grounder and translated "
            "to a stable-model circuit, and a SAT/SMT query decides each property for every value within the bounds: "
            "no answer outside the specification, no specified answer missing, none displayed twice. "
            "A counterexample is replayed on the unmodified code before it is reported."
        ),
        "scenarios": len(results),
        "scenarios_planned": njobs,
        "symbolic_execution": tot,
        "solver": solver,
        "functions_encoded": sorted(funcs),
        "per_target": per,
        "samples": samples,
        "undecided": undecided,
        "concretised_fallbacks": fallbacks,
        "known_findings": findings,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(
            {
                "property": prop,
                "tier": "thorough" if tier == "thorough" else "quick",
                "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                "level": "other",
                "coverage": cov,
                "assumptions": [
                    "bounds: the boards, layouts and numbers of elements listed per target; larger boards are outside",
                    "clingo grounds faithfully; the reference rules in /verif/specs are the published rules of each type",
                ],
                "wall_s": round(time.time() - t0, 1),
                "violations": viol,
            },
            f,
            indent=1,
        )


def main():
    global MODULES
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--board")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    if a.tier == "thorough":
        aig.CROSS = True
    specs = all_specs()
    sp = [s for v in specs.values() for s in v] if prop == "ALL" else specs.get(prop, [])
    MODULES = puz.load_repo()
    budget = 400 if a.tier == "quick" else 3600
    jobs = []
    for s in sp:
        if a.only and s.name not in a.only.split(","):
            continue
        for rows, cols, cfg in s().scenarios(a.tier):
            if a.board and f"{rows}x{cols}" != a.board:
                continue
            jobs.append(SpecJob(s, rows, cols, cfg, a.tier, budget))
    jobs += [j for j in core_jobs(prop, a.tier) if not a.only or j.name in a.only.split(",")]
    if not jobs:
        print(f"ERROR nothing to check for {prop}")
        sys.exit(2)
    jobs.sort(key=lambda j: -j.weight)
    limit = t0 + (780 if a.tier == "quick" else 6 * 3600)
    results, viol, errs = [], [], []
    it = map(run_job, jobs) if a.j == 1 else run_jobs(jobs, a.j, limit)
    bad = 0
    while True:
        try:
            r = next(it)
        except StopIteration:
            break
        except mp.TimeoutError:
            errs.append(f"time limit: {len(jobs) - len(results)} scenarios not finished")
            bad += len(jobs) - len(results)
            break
        results.append(r)
        if a.v:
            print(
                r["name"], r["bound"], r.get("stats"), "wall", r["wall_s"], "solver %.1f" % r["solver"]["solver_s"],
                r.get("fallback", ""), r.get("error", ""), r.get("violation", ""), flush=True,
            )
        if "error" in r:
            errs.append(f"{r['name']} {r['bound']}: {r['error']}")
            bad += 1
        if "violation" in r:
            v = r["violation"]
            path = write_replay(prop, v, len(results))
            code, log = replay(path)
            if code == 10:
                viol.append((v, path, log))
                if not a.all:
                    break
            else:
                r["error"] = f"counterexample does not reproduce: {v['kind']} {v['msg']} ({path}) {log[-800:]}"
                errs.append(f"{r['name']} {r['bound']}: {r['error']}")
                bad += 1
    if a.j > 1:
        it.close()
    findings = []
    for k in known_findings(prop):
        path = os.path.join(ROOT, k["case"])
        code, _ = replay(path)
        if code == 10:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            findings.append(k["what"])
    for e in errs:
        print("UNDECIDED", e)
    for v, path, log in viol:
        print(f"{v['case'].get('puzzle') or v['case'].get('core')}: {v['kind']}: {v['msg']}\n{log.strip()}")
        print(f"VIOLATION property={prop} replay={path}")
    evidence(prop, a.tier, results, len(jobs), len(viol), t0, findings)
    q = sum(r["solver"]["queries"] for r in results)
    print(f"{prop}: {len(results)}/{len(jobs)} scenarios, {q} queries, {time.time()-t0:.1f}s, {sum('fallback' in r for r in results)} made concrete, {len(errs)} undecided")
    if viol:
        sys.exit(1)
    # undecided scenarios are not explored (listed above and in the evidence); with too many of them there is no verdict
    sys.exit(2 if bad * 2 > len(jobs) else 0)


if __name__ == "__main__":
    main()
