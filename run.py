"""Decide one property: python run.py C03 [--tier quick|thorough]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken, with a
counterexample that reproduces on the unpatched dcor in /repo.
python run.py --replay FILE re-runs a saved counterexample.
"""
from __future__ import annotations

import json
from fractions import Fraction
import multiprocessing as mp
import multiprocessing.connection
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DCOR_REPO", "/repo")
T0 = time.time()

_scratch = tempfile.mkdtemp(prefix="dcor-verif-")
sys.pycache_prefix = os.path.join(_scratch, "pyc")
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONPYCACHEPREFIX"] = os.path.join(_scratch, "pyc")
os.environ["NUMBA_CACHE_DIR"] = os.path.join(_scratch, "numba")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, HERE)

import props  # noqa: E402


class Replayer:
    """The unpatched dcor in its own process."""

    def __init__(self, mode):
        env = dict(os.environ)
        env["NUMBA_NUM_THREADS"] = "4"
        env["NUMBA_BOUNDSCHECK"] = "1"
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "replay_worker.py"), "--mode", mode],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            text=True, env=env, cwd=HERE)
        self.mode = mode
        self.ready = False
        self.err = []
        threading.Thread(target=self._drain, daemon=True).start()

    def _drain(self):
        for line in self.p.stderr:
            self.err.append(line)
            if len(self.err) > 200:
                self.err.pop(0)

    def run(self, cases):
        if not self.ready:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("replay process died:\n" + "".join(self.err[-20:]))
            self.ready = True
        self.p.stdin.write(json.dumps(cases) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay process died:\n" + "".join(self.err[-20:]))
        return json.loads(line)

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass


# ------------------------------------------------------------------ workers
class Pool:
    """One forked process per task, so that a crash or a hang costs one task only."""

    def __init__(self, nproc, tasks, deadline):
        self.ctx = mp.get_context("fork")
        self.n, self.todo, self.deadline = nproc, list(tasks), deadline
        self.live = {}

    @staticmethod
    def _child(conn, task):
        import resource
        import signal
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        conn.send(run_task(task))
        conn.close()
        os._exit(0)

    @staticmethod
    def _lost(task, why):
        return dict(prop=task[0], name=task[1], params=task[2], stats={}, failures=[],
                    inconclusive=[why], witnesses=[], err=None, exc=None, functions=[], s=0)

    def __iter__(self):
        while self.todo or self.live:
            while self.todo and len(self.live) < self.n:
                task = self.todo.pop(0)
                a, b = self.ctx.Pipe(duplex=False)
                p = self.ctx.Process(target=self._child, args=(b, task), daemon=True)
                sys.stdout.flush()
                p.start()
                b.close()
                self.live[a] = (p, task)
            ready = mp.connection.wait(list(self.live), timeout=1)
            for a in ready:
                p, task = self.live.pop(a)
                try:
                    r = a.recv()
                except (EOFError, OSError):
                    p.join()
                    r = self._lost(task, f"engine process ended with code {p.exitcode}")
                a.close()
                p.join()
                yield r
            if time.time() > self.deadline:
                for a, (p, task) in list(self.live.items()):
                    p.kill()
                    yield self._lost(task, "task did not return in time")
                for task in self.todo:
                    yield self._lost(task, "not started in time")
                self.live, self.todo = {}, []

    def close(self):
        for p, _ in self.live.values():
            p.kill()
            p.join()


_SEEN = set()


def _trace_start():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "dcor-verif")
    except ValueError:
        return
    root = os.path.realpath(REPO) + os.sep

    def start(code, off):
        f = code.co_filename
        if os.path.realpath(f).startswith(root):
            _SEEN.add(f"{os.path.relpath(os.path.realpath(f), root)}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def run_task(task):
    prop, name, params, opts, deadline = task
    from symx import core, env, ctx as cx
    import warnings
    import numpy as np
    h = props.find(prop, name)
    dcor = env.load()
    ek = dict(opts.get("engine", {}))
    wit = opts.get("witnesses", 2)
    e = core.Engine(deadline=min(deadline, time.time() + opts.get("task_s", 300 if opts.get("_tier") == "quick" else 3600)), **ek)
    e.want_witnesses = wit
    for k, v in opts.get("attrs", {}).items():
        setattr(e, k, v)
    t = time.time()
    err = None

    def fn():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in ("rng_table", "global_rng", "global_used", "eigs", "quots", "eig_hints"):
                e.__dict__.pop(k, None)
            c = cx.SymCtx(e, dcor)
            h["fn"](c, **params)
    try:
        with np.errstate(all="ignore"):
            e.explore(fn)
    except BaseException as ex:  # noqa: B902  engine bug or solver crash
        import traceback
        err = "".join(traceback.format_exception(ex))[-2000:]
        e.inconclusive.append(f"engine error: {type(ex).__name__}: {str(ex)[:200]}")
    return dict(prop=prop, name=name, params=params, stats=e.stats,
                failures=[dict(label=f.label, models=f.model, choices=f.choices,
                               detail=f.detail, garbage=f.garbage) for f in e.failures],
                inconclusive=e.inconclusive, witnesses=e.witnesses, err=err,
                exc=getattr(e, "last_exception", None),
                functions=sorted(_SEEN), s=time.time() - t)


# ------------------------------------------------------------------ check
def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in argv
    budget = 660 if tier == "quick" else 6 * 3600
    props.load_all()
    hs = [h for h in props.REG.get(prop, []) if only is None or h["name"] == only]
    if not hs:
        print(f"no harness for {prop}")
        return 2
    info = props.INFO.get(prop, {})
    deadline = T0 + budget
    tasks = []
    for h in hs:
        for p in h["quick"] + (h["thorough"] if tier == "thorough" else []):
            p = dict(p)
            w = p.pop("_w", h["opts"].get("weight", 1))
            tasks.append((w, (prop, h["name"], p, dict(h["opts"], _tier=tier), deadline)))
    tasks.sort(key=lambda t: -t[0])
    tasks = [t for _, t in tasks]

    jit = None
    if any(h["opts"].get("jit") for h in hs):
        jit = Replayer("jit")
    from symx import env
    load_error = None
    try:
        _trace_start()
        env.load()
    except BaseException as ex:  # noqa: B902
        load_error = f"{type(ex).__name__}: {ex}"
    nproc = min(8, len(tasks), os.cpu_count() or 1)
    results, violation = [], None
    replays = dict(counterexamples=0, reproduced=0, not_reproduced=0)
    unreproduced = []
    py = None

    def reproduce(cands, label):
        """Replay candidate inputs on the unpatched code; the failing one or None."""
        nonlocal jit, py
        replays["counterexamples"] += 1
        if py is None:
            py = Replayer("py")
        try:
            pr = py.run(cands)
        except RuntimeError as ex:
            pr = [{"failed": [["import", str(ex)]], "skip": None}] * len(cands)
        hot = [c for c, r in zip(cands, pr) if r["failed"]]
        if jit is None and not (hot or any(h["opts"].get("jit") for h in hs)):
            return None
        for c, r in zip(cands, pr):
            if r["failed"] and c.get("garbage"):
                # depends on uninitialised memory, which the replay fills with junk
                return dict(c, observed=r["failed"], mode="py")
        if jit is None:
            jit = Replayer("jit")
        todo = hot + [c for c in cands if c not in hot]
        try:
            jr = jit.run(todo)
        except RuntimeError as ex:
            # the real package does not even import / crashes: once more to be sure
            jit = Replayer("jit")
            try:
                jr = jit.run(todo[:1])
            except RuntimeError:
                jit = None
                return dict(todo[0], observed=[["crash", str(ex)[-800:]]])
        for c, r in zip(todo, jr):
            if r["failed"]:
                return dict(c, observed=r["failed"])
        return None

    def nearby(cands):
        out = []
        for c in cands[:4]:
            for k in (1, 2, 3):
                new = {}
                for i, (nm, v) in enumerate(sorted(c["inputs"].items())):
                    try:
                        f = Fraction(v)
                    except (TypeError, ValueError):
                        new[nm] = v
                        continue
                    new[nm] = str(f * (1 + Fraction(k * (i % 7 + 1), 3 * 10 ** 3)))
                out.append(dict(c, inputs=new))
        return out

    n_bad = 0
    pool = Pool(nproc, tasks, deadline + 30)
    try:
        for r in pool:
            results.append(r)
            if verbose:
                print(f"  {r['name']} {r['params']} paths={r['stats'].get('paths')} "
                      f"q={r['stats'].get('queries')} solver={r['stats'].get('solver_s', 0):.1f}s "
                      f"wall={r['s']:.1f}s fail={len(r['failures'])} "
                      f"inc={r['inconclusive'][:2]}", flush=True)
                if r["failures"]:
                    print("   ", r["failures"][0]["label"], r["failures"][0]["models"][:1],
                          r["failures"][0]["detail"][:200])
                if r["err"]:
                    print(r["err"])
            cands = []
            for f in r["failures"]:
                for m in f["models"]:
                    cands.append(dict(property=prop, harness=r["name"], params=r["params"],
                                      inputs=m, choices=f["choices"], label=f["label"],
                                      garbage=f.get("garbage", False)))
            if cands and n_bad < 12:
                n_bad += 1
                v = reproduce(cands, cands[0]["label"])
                if v is None:
                    # round numbers can hide a loss of precision: nearby inputs
                    v = reproduce(nearby(cands), cands[0]["label"])
                if v is not None:
                    replays["reproduced"] += 1
                    violation = v
                    break
                replays["not_reproduced"] += 1
                unreproduced.append(dict(harness=r["name"], params=r["params"],
                                         label=cands[0]["label"], inputs=cands[0]["inputs"],
                                         exc=(r["exc"] or "")[-600:]))
    finally:
        pool.close()

    # conformance: per-path witnesses of the solver, on the unpatched code
    validated = skipped = 0
    conf_mode = "jit" if jit is not None else "py"
    if violation is None:
        cases = [dict(property=prop, harness=r["name"], params=r["params"], inputs=w,
                      choices=c, label="witness")
                 for r in results for w, c in r["witnesses"]]
        for i in range(0, len(cases), 64):
            part = cases[i:i + 64]
            rep = jit
            if rep is None:
                py = py or Replayer("py")
                rep = py
            try:
                res = rep.run(part)
            except RuntimeError as ex:
                if load_error:
                    break
                print("INCONCLUSIVE replay process:", str(ex)[-500:])
                break
            bad = [c for c, r in zip(part, res) if r["failed"]]
            validated += sum(1 for r in res if not r["failed"] and not r["skip"])
            skipped += sum(1 for r in res if r["skip"])
            if bad:
                v = reproduce(bad[:8], "witness")
                if v is not None:
                    v["label"] = v["observed"][0][0]
                    violation = v
                    break
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    inc = [f"{r['name']} {r['params']}: {m}" for r in results for m in r["inconclusive"]]
    if load_error:
        inc.append("load: " + load_error)
    for u in unreproduced:
        inc.append(f"counterexample did not reproduce: {u['harness']} {u['params']} {u['label']}")
    functions = sorted({f for r in results for f in r["functions"]})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=int(tot.get("paths", 0)),
            transitions=int(tot.get("branches", 0)),
            traces_validated_against_impl=validated,
            samples=[dict(harness=r["name"], params=r["params"], inputs=w, choices=c)
                     for r in results for w, c in r["witnesses"][:1]][:5]
            or [dict(harness=r["name"], params=r["params"]) for r in results[:3]],
            meaning="states = symbolic paths explored to the end; transitions = branch "
                    "decisions taken on them; traces = solver witnesses of paths replayed "
                    f"on the unpatched package ({conf_mode} build)",
            tasks=len(tasks), tasks_finished=len(results),
            obligations=int(tot.get("asserts", 0)),
            solver_queries=int(tot.get("queries", 0) + tot.get("branch_queries", 0)),
            obligation_queries=int(tot.get("queries", 0)),
            unsat=int(tot.get("unsat", 0)), sat=int(tot.get("sat", 0)),
            unknown=int(tot.get("unknown", 0)),
            solver_s=round(tot.get("solver_s", 0), 2),
            infeasible_paths=int(tot.get("infeasible", 0)),
            functions_encoded=functions,
            bounds=sorted({f"{r['name']} {json.dumps(r['params'], sort_keys=True)}"
                           for r in results}),
            replays=replays, witnesses_skipped=skipped,
            inconclusive=inc[:40], unreproduced=unreproduced[:5],
            exhaustive=not inc and violation is None,
        ),
        assumptions=COMMON_ASSUMPTIONS + info.get("assumptions", []),
        wall_s=round(time.time() - T0, 2),
        violations=0 if violation is None else 1,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for rp in (jit, py):
        if rp is not None:
            rp.close()
    for kf in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    print(f"{prop} {tier}: tasks={len(results)}/{len(tasks)} paths={tot.get('paths', 0)} "
          f"obligations={tot.get('asserts', 0)} unsat={tot.get('unsat', 0)} "
          f"queries={ev['coverage']['solver_queries']} solver={tot.get('solver_s', 0):.1f}s "
          f"witnesses={validated} wall={time.time() - T0:.1f}s")
    for m in inc[:10]:
        print("INCONCLUSIVE", m[:300])
    if verbose:
        for u in unreproduced[:3]:
            print("UNREPRODUCED", json.dumps(u)[:1500])
    if violation is not None:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{violation['harness']}.json")
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("counterexample:", json.dumps(violation)[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if load_error:
        print("the package could not be loaded:", load_error)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "floating point is read as exact real arithmetic (rounding, overflow and "
    "accuracy are outside the claim); fixed-width integers wrap where noted",
    "numba-compiled functions mean their Python source plus the declared "
    "signature check; witnesses are replayed on the compiled build where stated",
    "NumPy/array_api_compat primitives mean their documented function on exact numbers",
    "sizes, dimensions and orders of observations are bounded as listed in bounds",
]


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    out = []
    for line in open(p):
        line = line.strip()
        if line and not line.startswith("#"):
            d = json.loads(line)
            if d.get("status") == "known" and d.get("property") == prop:
                out.append(d)
    return out


def replay(path):
    case = json.load(open(path))
    r = Replayer(case.get("mode", "jit"))
    try:
        res = r.run([case])[0]
    finally:
        r.close()
    print(json.dumps(res, indent=1))
    if res["failed"]:
        print(f"VIOLATION property={case['property']} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    finally:
        shutil.rmtree(_scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
