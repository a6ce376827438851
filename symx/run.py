"""check.py's engine room: explores a property's harnesses, replays what the solver
finds on the real code, writes the evidence file."""
import importlib
import json as _json
import os
import select
import signal
import subprocess
import sys
import time
import traceback



class json:
    """The real json functions: env.install() swaps those of the module."""

    dumps, loads, dump, load = (staticmethod(f) for f in (_json.dumps, _json.loads, _json.dump, _json.load))


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def setup_paths():
    os.environ.setdefault("TQDM_DISABLE", "1")
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if z not in sys.path:
        sys.path.append(z)


def load_prop(prop):
    from . import api

    api.HARNESSES.clear()
    importlib.import_module("props." + prop.lower())
    return [h for h in api.HARNESSES if h.prop == prop]


# ------------------------------------------------------------- concrete side
def concrete_run(h, cfg, values):
    from . import api, env

    if "__never__" in values:
        return never_run(h, cfg, values)
    ctx = api.ConcreteCtx(values)
    env.CTX = ctx
    env.graphs.reset()
    try:
        h.fn(ctx, cfg)
        return {"r": "pass", "obs": api.plain(ctx.observed), "checks": ctx.checks}
    except api.PropertyFailed as e:
        return {"r": "fail", "msg": str(e)}
    except api.Skip:
        return {"r": "skip"}
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "/repo/src/" in f.filename or "pylattica" in f.filename]
        at = f" at {inside[-1].filename}:{inside[-1].lineno}" if inside else ""
        return {"r": "fail", "msg": f"unexpected {type(e).__name__}: {str(e)[:200]}{at}"}
    finally:
        ctx.cleanup()


def never_run(h, cfg, values):
    """Is an outcome that should be possible seen in many runs with random draws?"""
    import random as _r

    from . import api, env

    want = values["__never__"]
    for seed in range(400):
        ctx = api.ConcreteCtx(values)
        ctx.rng = _r.Random(seed)
        ctx.unlimited = True
        env.CTX = ctx
        env.graphs.reset()
        try:
            h.fn(ctx, cfg)
            ctx.cover("a finished run")
        except (api.PropertyFailed, api.Skip, Exception):  # noqa: BLE001
            pass
        finally:
            ctx.cleanup()
        if want in ctx.covered:
            return {"r": "pass", "obs": [], "checks": 0}
    return {"r": "fail", "msg": f"outcome never seen in 400 runs: {want}"}


def serve():
    """Replays requests from stdin on the real code, one JSON object per line."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    setup_paths()
    from . import env

    env.install(False)
    loaded = {}
    for line in sys.stdin:
        q = json.loads(line)
        if q["prop"] not in loaded:
            loaded[q["prop"]] = {h.name: h for h in load_prop(q["prop"])}
        h = loaded[q["prop"]][q["harness"]]
        r = concrete_run(h, _cfg(q["cfg"]), q["values"])
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()


def _cfg(c):
    """JSON has no tuples."""
    if isinstance(c, list):
        return tuple(_cfg(x) for x in c)
    if isinstance(c, dict):
        return {k: _cfg(v) for k, v in c.items()}
    return c


class Replayer:
    def __init__(self):
        self.p = None

    def _start(self):
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", "-c",
             f"import sys; sys.path.insert(0, {VERIF!r}); from symx import run; run.serve()"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
            env=dict(os.environ, TQDM_DISABLE="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
                     PYTHONHASHSEED="0"), cwd="/")

    def ask(self, prop, harness, cfg, values, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self._start()
        self.p.stdin.write(json.dumps(
            {"prop": prop, "harness": harness, "cfg": cfg, "values": values}) + "\n")
        self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        line = self.p.stdout.readline() if r else ""
        if not line:
            self.p.kill()
            self.p = None
            return {"r": "hang" if not r else "died"}
        return json.loads(line)

    def fresh(self, *a, **k):
        self.close()
        r = self.ask(*a, **k)
        self.close()
        return r

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()
            self.p = None


# ------------------------------------------------------------- symbolic side
class ModuleState:
    """Puts pylattica's module-level data back between paths."""

    def __init__(self):
        import copy

        from . import env

        self.saved = []
        self.caches = []
        for m in env._pyl_modules():
            for k, v in list(vars(m).items()):
                if k.startswith("__") or k.startswith("_sx_"):
                    continue
                if isinstance(v, (dict, list, set)):
                    try:
                        self.saved.append((m, k, v, copy.deepcopy(v)))
                    except Exception:  # noqa: BLE001
                        continue
                elif isinstance(v, (int, str, float, bool, type(None), tuple)):
                    self.saved.append((m, k, v, None))
                if hasattr(v, "cache_clear"):
                    self.caches.append(v)
                if isinstance(v, type) and v.__module__ == m.__name__:
                    for ck, cv in list(vars(v).items()):
                        if hasattr(cv, "cache_clear"):
                            self.caches.append(cv)
                        elif isinstance(cv, (dict, list, set)) and not ck.startswith("__"):
                            try:
                                self.saved.append((v, ck, cv, copy.deepcopy(cv)))
                            except Exception:  # noqa: BLE001
                                pass

    def restore(self):
        import copy

        for o, k, v, c in self.saved:
            if isinstance(v, dict):
                v.clear()
                v.update(copy.deepcopy(c))
            elif isinstance(v, list):
                v[:] = copy.deepcopy(c)
            elif isinstance(v, set):
                v.clear()
                v.update(copy.deepcopy(c))
            if vars(o).get(k) is not v:
                setattr(o, k, v)
        for f in self.caches:
            f.cache_clear()


class Coverage:
    def __init__(self):
        self.fns = {}
        m = sys.monitoring
        try:
            m.use_tool_id(4, "symx")
        except ValueError:
            pass

        def start(code, off):
            if code.co_filename.startswith("/repo/src/pylattica") and code.co_name != "<module>":
                self.fns[code.co_filename[len("/repo/src/"):] + ":" + code.co_qualname] = 1
            return m.DISABLE

        m.register_callback(4, m.events.PY_START, start)
        m.set_events(4, m.events.PY_START)

    def functions(self):
        return sorted(f for f in self.fns if "<lambda>" not in f and "<genexpr>" not in f
                      and "<listcomp>" not in f)


def explore(prop, h, cfg, tier, deadline, seed, emit):
    import random as _r

    import z3

    from . import api, engine, env

    z3.set_param("smt.random_seed", 0)
    z3.set_param("lp.dio", False)  # does not heed timeouts
    t0 = time.time()
    eng = engine.Engine(
        max_paths=h.opts.get("max_paths", 200000),
        time_limit=max(1.0, deadline - t0),
        query_timeout_ms=h.opts.get("query_timeout_ms", 20000),
        max_pin=h.opts.get("max_pin", 64))
    engine.CUR = eng
    cov = Coverage()
    ms = ModuleState()
    rep = Replayer()
    nval = h.opts.get("validate", 12 if tier == "quick" else 40)
    res = dict(harness=h.name, cfg=cfg, bounds=h.bounds, paths=0, completed=0, pruned=0,
               incomplete=[], validated=0, validated_obs=0, mismatches=[], violations=[],
               unreproduced=[], samples=[], max_depth=0, checked_paths=0)
    truncated = None
    incomplete_n = 0
    covered = set()

    def replay(values, fresh=False):
        f = rep.fresh if fresh else rep.ask
        return f(prop, h.name, cfg, values)

    def jvals(v):
        return {k: (x if isinstance(x, (int, bool, str)) else float(x)) for k, x in v.items()}

    def candidate(values, msg, assertion, flagged):
        """A counterexample of the encoding: does the real code fail on it?"""
        values = jvals(values)
        r = replay(values)
        if r["r"] in ("fail", "hang", "died"):
            r2 = replay(values, fresh=True)
            if r2["r"] in ("fail", "hang", "died"):
                res["violations"].append(dict(harness=h.name, cfg=cfg, values=values,
                                              msg=r2.get("msg", r2["r"]), encoding_msg=msg))
                return True
        return False

    def extra_models(first, k=3):
        """Other inputs of the same path, to compare encoding and code on floats too."""
        if not eng.inputs or time.time() > deadline - 5:
            return False
        block = [first]
        for _ in range(k):
            cs = []
            for v in block:
                for name, (e, kind) in eng.inputs.items():
                    cs.append(e != (z3.BoolVal(v[name]) if kind == "bool" else z3.IntVal(v[name])))
            for c in cs:
                eng.solver.push()
                eng.solver.add(c)
            depth = len(cs)
            eng.solver.set("timeout", 1000)
            r = eng.solver.check()
            while r != z3.sat and depth:
                eng.solver.pop()
                depth -= 1
                r = eng.solver.check()
                if depth and depth < len(cs) - 4:
                    eng.solver.pop(depth)
                    depth = 0
            m = eng.solver.model() if r == z3.sat and depth else None
            if depth:
                eng.solver.pop(depth)
            eng.solver.set("timeout", eng.qt)
            if m is None:
                return False
            vals = jvals(eng.input_values(m))
            r = replay(vals)
            if r["r"] == "pass":
                res["validated"] += 1
            elif r["r"] in ("fail", "hang", "died"):
                return candidate(vals, "path passes in the encoding", False, True)
            block.append(vals)
        return False

    patience = 70 if tier == "quick" else 300

    def stuck(*_):
        raise engine.Stuck

    signal.signal(signal.SIGALRM, stuck)
    stop = False
    while eng.work and not stop:
        if res["paths"] >= eng.max_paths:
            truncated = "path budget"
            break
        if time.time() > deadline:
            truncated = "time budget"
            break
        prefix = eng.work.pop()
        eng.begin(prefix)
        ms.restore()
        ctx = api.SymCtx(eng)
        env.CTX = ctx
        env.graphs.reset()
        res["paths"] += 1
        why = None
        try:
            try:
                signal.setitimer(signal.ITIMER_REAL, patience)
                h.fn(ctx, cfg)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except engine.Stuck:
            # never ends? the real code decides
            why = "path not followed to its end in time"
        except engine.StopPath:
            res["pruned"] += 1
            ctx.cleanup()
            continue
        except engine.Deadline:
            truncated = "time budget"
            break
        except api.Violation as v:
            if candidate(v.inputs, v.msg, True, bool(eng.flags)):
                stop = True
            else:
                res["unreproduced"].append(dict(msg=v.msg, values=jvals(v.inputs), flags=eng.flags))
                if len(res["unreproduced"]) >= 3:
                    stop = True
            ctx.cleanup()
            continue
        except engine.Unsupported as e:
            why = f"unsupported: {e}"
        except z3.Z3Exception as e:
            why = f"z3: {e}"
        except Exception as e:  # noqa: BLE001
            why = f"{type(e).__name__}: {str(e)[:120]}"
            if os.environ.get("SYMX_TRACE"):
                traceback.print_exc()
        finally:
            ctx.cleanup()
        try:
            m = eng.model()
            values = eng.input_values(m)
        except engine.Deadline:
            truncated = "time budget"
            break
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            res["pruned"] += 1
            if why and not isinstance(e, engine.StopPath):
                incomplete_n += 1
                res["incomplete"].append(why + " (no model)")
            continue
        res["max_depth"] = max(res["max_depth"], len(eng.trace))
        if why is not None:
            if candidate(values, why, False, True):
                stop = True
            else:
                incomplete_n += 1
                if len(res["incomplete"]) < 5:
                    res["incomplete"].append(why)
            continue
        if eng.flags:
            incomplete_n += 1
            if len(res["incomplete"]) < 5:
                res["incomplete"].append("; ".join(eng.flags))
        res["completed"] += 1
        covered |= ctx.covered
        if eng.checks_here:
            res["checked_paths"] += 1
        n = res["completed"]
        if res["validated"] < nval and (n <= nval // 2 or n % max(1, h.opts.get("validate_every", 37)) == 0):
            v = jvals(values)
            r = replay(v)
            if r["r"] == "pass":
                res["validated"] += 1
                try:
                    obs = api.plain(api.quiet_eval(eng, list(eng.observed), m))
                    if obs:
                        res["validated_obs"] += 1
                        if not api.obs_equal(obs, r["obs"]):
                            res["mismatches"].append(dict(values=v, encoding=obs, real=r["obs"]))
                except engine.Unsupported:
                    pass
                if n <= 6 and extra_models(v):
                    stop = True
                if len(res["samples"]) < 2:
                    res["samples"].append(dict(inputs=v, branches=len(eng.trace)))
            elif r["r"] == "fail" or r["r"] in ("hang", "died"):
                if candidate(values, "path passes in the encoding", False, True):
                    stop = True
            else:
                res["mismatches"].append(dict(values=v, real=r["r"]))
    if res["completed"] == 0 and not (stop or truncated or incomplete_n or eng.truncated):
        candidate({"__never__": "a finished run"}, "no run finishes", True, False)
    elif "covers" in h.opts and not (stop or truncated or incomplete_n or eng.truncated):
        # every path was followed: an outcome on none of them is impossible
        for label in h.opts["covers"](cfg):
            if label not in covered and candidate({"__never__": label}, f"impossible outcome: {label}", True, False):
                break
    rep.close()
    res["incomplete_paths"] = incomplete_n
    if eng.truncated and not truncated:
        truncated = eng.truncated[0]
    res["truncated"] = truncated
    res["left"] = len(eng.work)
    res["stats"] = dict(eng.stats)
    res["solver_s"] = round(eng.solver_s, 3)
    res["wall_s"] = round(time.time() - t0, 2)
    res["functions"] = cov.functions()
    emit(res)


def _unfinished(h, cfg, wall):
    return dict(harness=h.name, cfg=cfg, bounds=h.bounds, paths=0, completed=0, pruned=0, incomplete=[], validated=0,
                validated_obs=0, mismatches=[], violations=[], unreproduced=[], samples=[], max_depth=0, checked_paths=0,
                incomplete_paths=0, truncated="time budget", left=1, stats={}, solver_s=0.0, wall_s=round(wall, 2),
                functions=[])


def run_check(prop, tier, seed, budget=None, jobs=8, only=None, verbose=False):
    setup_paths()
    import multiprocessing as mp

    real_ctx = mp.get_context("fork")
    Process, Pipe = real_ctx.Process, real_ctx.Pipe
    from . import env, rewrite

    env.install(True)
    rewrite.install(VERIF)
    t0 = time.time()
    hs = load_prop(prop)
    if budget is None:
        budget = 240 if tier == "quick" else 1500
    deadline = t0 + budget
    tasks = [(h, c) for h in hs for c in h.configs(tier) if only is None or h.name in only]
    tasks.sort(key=lambda hc: -hc[0].opts.get("weight", 1))
    results, running = [], {}
    errors = []
    stop = False
    while (tasks and not stop) or running:
        while tasks and len(running) < jobs and not stop:
            h, c = tasks.pop(0)
            a, b = Pipe(False)

            def go(h=h, c=c, b=b):
                try:
                    explore(prop, h, c, tier, deadline, seed, lambda r: b.send(r))
                except BaseException as e:  # noqa: BLE001
                    b.send(dict(error=f"{h.name} {c}: {type(e).__name__}: {e}\n{traceback.format_exc()}"))
                finally:
                    b.close()
                    sys.stdout.flush()
                    os._exit(0)

            p = Process(target=go)
            p.start()
            b.close()
            running[a] = (p, h, c)
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for a in ready:
            p, h, c = running.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = dict(error=f"{h.name} {c}: worker died")
            a.close()
            p.join()
            if "error" in r:
                errors.append(r["error"])
                print(r["error"], file=sys.stderr)
                continue
            results.append(r)
            if verbose:
                print(f"  {r['harness']} {json.dumps(r['cfg'])}: paths={r['paths']} completed={r['completed']} "
                      f"pruned={r['pruned']} incomplete={r['incomplete_paths']} validated={r['validated']} "
                      f"trunc={r['truncated']} left={r['left']} q={r['stats'].get('queries', 0)} "
                      f"solver={r['solver_s']}s wall={r['wall_s']}s")
                for i in r["incomplete"][:3]:
                    print("     incomplete:", i)
                for i in r["mismatches"][:3]:
                    print("     MISMATCH:", i)
                for i in r["unreproduced"][:3]:
                    print("     UNREPRODUCED:", i)
            if r["violations"]:
                stop = True
        if not stop and time.time() > deadline + 120:
            # a solver that does not heed its time limit
            for a, (p, h, c) in running.items():
                p.kill()
                p.join()
                a.close()
                results.append(_unfinished(h, c, time.time() - t0))
            running, tasks = {}, []
        if stop and running:
            for p, _, _ in running.values():
                p.terminate()
            for p, _, _ in running.values():
                p.join()
            for a in running:
                a.close()
            running = {}
    return finish(prop, tier, seed, results, errors, t0, verbose)


def finish(prop, tier, seed, results, errors, t0, verbose):
    from . import findings

    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    viol = [v for r in results for v in r["violations"]]
    known, new = findings.split(prop, viol)
    unrep = [dict(u, harness=r["harness"], cfg=r["cfg"]) for r in results for u in r["unreproduced"]]
    fns = sorted({f for r in results for f in r["functions"]})
    trunc = [f"{r['harness']} {json.dumps(r['cfg'])}: {r['truncated']}" for r in results if r["truncated"]]
    vac = [f"{r['harness']} {json.dumps(r['cfg'])}" for r in results if r["checked_paths"] == 0]
    cov = dict(
        states=tot("completed"), transitions=st.get("branches", 0),
        traces_validated_against_impl=tot("validated"),
        samples=[dict(s, harness=r["harness"], cfg=r["cfg"]) for r in results for s in r["samples"][:1]][:12],
        rule="states = symbolic paths run to the end of a harness; transitions = branch decisions on them; "
             "each path covers every input satisfying its path condition",
        exhaustive=not trunc and not tot("incomplete_paths") and not errors,
        harnesses=[dict(harness=r["harness"], cfg=r["cfg"], bounds=r["bounds"], paths=r["paths"],
                        completed=r["completed"], infeasible=r["pruned"], incomplete=r["incomplete_paths"],
                        incomplete_why=r["incomplete"], truncated=r["truncated"],
                        validated=r["validated"], reachable_assertions=r["checked_paths"],
                        solver_s=r["solver_s"], wall_s=r["wall_s"]) for r in results],
        functions_encoded=fns, functions_encoded_count=len(fns),
        queries=st.get("queries", 0), queries_sat=st.get("sat", 0), queries_unsat=st.get("unsat", 0),
        queries_unknown=st.get("unknown", 0), solver_s=round(tot("solver_s"), 2),
        assertions=st.get("assertions", 0), assertions_by_solver=st.get("assertions_by_solver", 0),
        assertions_by_rewriting=st.get("assertions_by_rewriting", 0),
        assertions_on_shorter_prefix=st.get("assertions_decided_on_shorter_prefix", 0),
        observations_compared=tot("validated_obs"),
        observation_mismatches=sum(len(r["mismatches"]) for r in results),
        unreproduced_counterexamples=len(unrep), truncated=trunc, unreached=vac)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in known:
        print(line)
    print(f"{prop} {tier}: {cov['states']} paths, {cov['assertions']} assertions, {cov['queries']} queries, "
          f"{cov['solver_s']}s solver, {cov['traces_validated_against_impl']} replayed, "
          f"{len(fns)} functions, exhaustive={cov['exhaustive']}, {ev['wall_s']}s")
    if new:
        for i, v in enumerate(new[:1]):
            path = os.path.join(VERIF, "evidence", f"replay-{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, how=f"/opt/venv/bin/python {VERIF}/check.py --replay {path}"),
                          f, indent=1)
            print(f"  {v['harness']} {json.dumps(v['cfg'])} inputs={json.dumps(v['values'])}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("ERROR: " + errors[0].split("\n")[0])
        return 2
    if unrep:
        print("ERROR: counterexample of the encoding does not reproduce on the real code: "
              + json.dumps(unrep[0])[:400])
        return 2
    if cov["states"] == 0:
        print("ERROR: no path completed: nothing was checked")
        return 2
    return 0


ASSUMPTIONS = [
    "float arithmetic of the code under test is read as exact real arithmetic; coordinates range over dyadic "
    "grids, where both agree, unless a harness says otherwise; every sampled path model is replayed on the real "
    "floats",
    "random draws, worker scheduling and CPU counts are nondeterministic stubs constrained only by their "
    "documented ranges",
    "JSON text is modelled structurally (keys become strings, tuples lists); replays use the real json module",
    "rustworkx, numpy (on proxies) and copy/deque run natively; rustworkx leaves the order of neighbors open, here it changes "
    "from call to call in a reproducible way",
    "sizes, step counts and sequence lengths are bounded as stated per harness",
]
