"""Runs the contracts of one property: symbolic discharge of every obligation, replay of
countermodels on the real code, runtime-contract sampling, evidence, verdict."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE_TRUST = [
    "exact-real reading: machine floats are treated as mathematical reals; float literals within a few ulp of a rational / algebraic / pi constant are read as that constant (vc/terms.py)",
    "vc/shim.py: the symbolic meaning given to torch operations (cross-checked on every run by executing the same contracts on real torch)",
    "vc/loader.py rewriting listed in its docstring (torch.jit.script read as identity)",
    "vc/poly.py + vc/prove.py normal forms and trigonometric identities; z3 and cvc5",
    "generic-element reading of batch axes (vc/shim.py Lane): torch operations not mixing batch elements act independently on each",
]


def _env_int(n, d):
    try:
        return int(os.environ.get(n, d))
    except ValueError:
        return d


def contracts_for(pid):
    sys.path.insert(0, os.path.join(HERE))
    import contracts

    return contracts.load(pid)


# ---------------------------------------------------------------- workers (forked)
def _alarm(*a):
    from . import prove as pv

    raise pv.OutOfTime()


def task_sym(job):
    """all parameter sets of one group of a unit, one after another in one process (shared memo)"""
    pid, ui, pis, budget = job
    for n, pi in enumerate(pis):
        yield _sym_one((pid, ui, pi, budget))


def _sym_one(job):
    pid, ui, pi, budget = job
    import vc.contract as C
    from . import prove as pv

    u = C.UNITS[pid][ui]
    t0 = time.time()
    for k in pv.STATS:
        pv.STATS[k] = 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget + 20)
    try:
        res, npaths = C.verify(u, u.params[pi], t0 + budget)
    except pv.OutOfTime:
        res, npaths = [C.ObRes(u.name, u.params[pi], "symbolic execution", "unknown", detail="out of time")], 0
    except (MemoryError, RecursionError) as e:
        res, npaths = [C.ObRes(u.name, u.params[pi], "symbolic execution", "unknown", detail=type(e).__name__)], 0
    except Exception as e:
        res, npaths = [
            C.ObRes(u.name, u.params[pi], "symbolic execution", "unsupported", detail="internal: " + traceback.format_exc(limit=-4)[-900:])
        ], 0
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rows = [
        dict(unit=r.unit, ui=ui, pi=pi, label=r.label, status=r.status, how=r.how, env=r.env, detail=r.detail, valid=r.valid)
        for r in res
    ]
    return dict(ui=ui, pi=pi, rows=rows, paths=npaths, stats=dict(pv.STATS), wall=time.time() - t0)


def groups(u):
    """parameter sets differing only in batch shape share a process"""
    g = {}
    for pi, p in enumerate(u.params):
        k = repr({a: b for a, b in sorted(p.items()) if a not in ("ax", "ra", "rb", "rc")})
        g.setdefault(k, []).append(pi)
    return list(g.values())


def plans(u, tier, seed, ui, pi, boost=1):
    """(seed, dtype, sizes) for runtime-contract executions"""
    n = u.nsamp * (1 if tier == "quick" else 6) * boost
    for k in range(n):
        for dt in u.dtypes:
            s = (seed * 1000003 + ui * 7919 + pi * 104729 + k * 31 + (7 if dt == "float32" else 0)) & 0x7FFFFFFF
            big = {"b": 40, "b0": 12, "b1": 7, "b2": 3}
            szs = [big, {}, {"b": 1, "b0": 1, "b1": 1, "b2": 1}]
            yield s, dt, dict(szs[k % 3]) if n > 1 else dict(big)


def task_conc(job):
    pid, ui, pi, tier, seed, boost, budget = job
    import vc.contract as C
    import torch

    torch.set_num_threads(1)
    u = C.UNITS[pid][ui]
    t0 = time.time()
    fails, n, checked, sample, skipped = [], 0, 0, None, 0
    signal.signal(signal.SIGALRM, _alarm)
    for s, dt, sizes in plans(u, tier, seed, ui, pi, boost):
        if time.time() - t0 > budget:
            break
        c = C.execute(u, u.params[pi], s, dt, sizes)
        n += 1
        if c.skipped:
            skipped += 1
            continue
        checked += c.checked
        if sample is None:
            sample = dict(unit=u.name, params=str(u.params[pi]), seed=s, dtype=dt, inputs={k: str(v)[:160] for k, v in c.record().items()})
        for lab, det in c.fails:
            fails.append(dict(ui=ui, pi=pi, seed=s, dtype=dt, sizes=sizes, label=lab, detail=det, tb=getattr(c, "tb", None)))
        if fails:
            break
    return dict(job=job, fails=fails, n=n, checked=checked, sample=sample, skipped=skipped, wall=time.time() - t0)


def pool_map(fn, jobs, procs, wall, decided=None):
    """fork-per-task pool that survives killed / stuck children"""
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    pending = list(jobs)
    running = {}
    out = []
    t0 = time.time()
    while pending or running:
        while pending and len(running) < procs:
            j = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, j, w))
            p.start()
            w.close()
            running[p] = (j, r, time.time())
        done = []
        for p, (j, r, ts) in running.items():
            lim = fn_limit(fn, j)
            fin = False
            while r.poll(0):
                try:
                    m = r.recv()
                    if m is None:
                        fin = True
                        break
                    out.append(m)
                    if decided is not None and decided(m):  # a failing input is in hand: the rest gets little more time
                        wall = min(wall, time.time() - t0 + 120)
                        decided = None
                except (EOFError, OSError):
                    fin = True
                    break
            if fin:
                p.join(5)
                done.append(p)
            elif not p.is_alive() and not r.poll(0):
                out.append(dict(job=j, dead=True))
                done.append(p)
            elif time.time() - ts > lim or time.time() - t0 > wall:
                p.kill()
                p.join()
                out.append(dict(job=j, dead=True))
                done.append(p)
        for p in done:
            running.pop(p)[1].close()
        if time.time() - t0 > wall:
            for j in pending:
                out.append(dict(job=j, dead=True))
            pending = []
        if not done:
            time.sleep(0.02)
    return out


def fn_limit(fn, job):
    n = len(job[-2]) if isinstance(job[-2], (list, tuple)) else 1
    return (float(job[-1]) + 25) * n + 40


def _child(fn, job, w):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        for x in fn(job):
            w.send(x)
        w.send(None)
    except BaseException as e:
        try:
            w.send(dict(job=job, dead=True, err=traceback.format_exc()[-800:]))
            w.send(None)
        except Exception:
            pass
    finally:
        w.close()
        os._exit(0)


# ---------------------------------------------------------------- verdict
def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "finding"]


def is_known(pid, unit, label, known):
    for k in known:
        if k["property"] == pid and k["unit"] == unit and (k.get("label") in (None, label) or str(label).startswith(str(k.get("label")))):
            return k
    return None


def write_replay(pid, name, d):
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    h = hashlib.sha1(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(rd, f"{pid}-{name}-{h}.json")
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


def main(argv):
    import vc.contract as C

    if argv and argv[0] == "--setup":
        import cvc5, z3, torch

        print("ready: torch", torch.__version__, "z3", z3.get_version_string(), "cvc5", cvc5.__version__)
        return 0
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    verbose = False
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "-v":
            verbose = True
            i += 1
        elif argv[i] == "--unit":
            only = argv[i + 1]
            i += 2
        else:
            i += 1
    seed = _env_int("VERIF_SEED", 1)
    t0 = time.time()
    meta = contracts_for(pid)
    units = C.UNITS.get(pid, [])
    procs = _env_int("VERIF_JOBS", os.cpu_count() or 4)
    wall = 560 if tier == "quick" else 3000
    known = known_findings()
    # import real code once before forking
    real_err = None
    try:
        import torch

        torch.set_num_threads(1)
        for u in units:
            for f in u.fns:
                C.real_module(f.split(":")[0])
    except BaseException as e:
        real_err = f"{type(e).__name__}: {e}"

    jobs, cjobs = [], []
    for ui, u in enumerate(units):
        if only and only not in u.name:
            continue
        if u.tier == "thorough" and tier != "thorough":
            continue
        if "sym" in u.modes:
            for g in groups(u):
                jobs.append((pid, ui, g, u.budget if tier == "quick" else u.budget * 3))
        for pi in range(len(u.params)):
            if "conc" in u.modes:
                cjobs.append((pid, ui, pi, tier, seed, 1, u.kw.get("cbudget", 60) * (1 if tier == "quick" else 4)))
    jobs.sort(key=lambda j: -units[j[1]].kw.get("weight", units[j[1]].budget))
    both = [("c",) + j for j in cjobs] + [("s",) + j for j in jobs]
    outs = pool_map(task_any, both, procs, wall, lambda m: any(not is_known(pid, units[f["ui"]].name, f["label"], known) for f in m.get("fails") or ()))
    sym = [o for o in outs if o["job"][0] == "s"]
    conc = [o for o in outs if o["job"][0] == "c"]

    rows, paths, stats = [], 0, {}
    undecided, refuted = [], []
    want = {(j[1], pi) for j in jobs for pi in j[2]}
    errs = {}
    for o in sym:
        if o.get("dead"):
            for pi in o["job"][3]:
                errs[(o["job"][2], pi)] = str(o.get("err"))[-400:]
            continue
        want.discard((o["ui"], o["pi"]))
        paths += o["paths"]
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for r in o["rows"]:
            rows.append(r)
            if r["status"] == "refuted":
                refuted.append(r)
            elif r["status"] != "proved":
                undecided.append(r)
        if verbose:
            ok = sum(r["status"] == "proved" for r in o["rows"])
            print(f"  [{units[o['ui']].name} {units[o['ui']].params[o['pi']]}] paths={o['paths']} {ok}/{len(o['rows'])} proved {o['wall']:.1f}s", flush=True)
    for ui, pi in sorted(want):
        rows.append(dict(unit=units[ui].name, ui=ui, pi=pi, label="symbolic execution", status="unknown", how="", env=None, detail="worker ended: " + errs.get((ui, pi), ""), valid=None))
        undecided.append(rows[-1])
    if verbose:
        pass
    violations, notes = [], []
    for o in conc:
        if o.get("dead"):
            notes.append(f"runtime contract worker ended: {o['job'][2:4]} {o.get('err','')}")
            continue
        for f in o["fails"]:
            violations.append(f)
    if verbose:
        for r in (refuted + undecided)[:40]:
            print("  ", r["status"], r["unit"], units[r["ui"]].params[r["pi"]], "|", r["label"], "|", str(r["detail"])[:600], "| env", r["env"], r["valid"])
        for f in violations[:12]:
            print("   runtime", units[f["ui"]].name, units[f["ui"]].params[f["pi"]], f["label"], f["detail"], (f.get("tb") or "")[-700:])
        for n in notes:
            print("   note", n)

    # replay countermodels on the real code, then contract-guided search
    nofail = []
    bounded_units = {}
    seenu = set()
    for r in refuted + undecided:
        u = units[r["ui"]]
        key = (r["ui"], r["pi"])
        if any((f["ui"], f["pi"]) == key for f in violations):
            continue
        hit = None
        if r["status"] == "refuted" and r["env"] and "conc" in u.modes and u.replayable:
            given = C.env_to_inputs(None, r["env"])
            try:
                c = C.execute(u, u.params[r["pi"]], seed, "float64", {"b": 1, "b0": 1, "b1": 1, "b2": 1}, given)
                if c.fails and not c.skipped:
                    hit = dict(ui=r["ui"], pi=r["pi"], seed=seed, dtype="float64", sizes={"b": 1, "b0": 1, "b1": 1, "b2": 1},
                               given={k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in given.items()},
                               label=c.fails[0][0], detail=c.fails[0][1] + f" (countermodel of obligation '{r['label']}')", tb=getattr(c, "tb", None))
            except Exception as e:
                notes.append(f"replay error {e}")
        if hit:
            violations.append(hit)
            continue
        if key not in seenu:
            seenu.add(key)
            bounded_units.setdefault(key, r)
        if r["status"] == "refuted" and r["valid"] and r["detail"] != "false" and not any(r["label"].startswith(z) for z in u.kw.get("open", ())):
            nofail.append(r)
    extra_eval = 0
    if bounded_units and not violations:
        more = [("c", pid, k[0], k[1], tier, seed + 17, 25, 90) for k in bounded_units if "conc" in units[k[0]].modes]
        left = wall - (time.time() - t0) + 150
        for o in pool_map(task_any, more, procs, max(60, left)):
            if o.get("dead"):
                notes.append(f"bounded stand-in worker ended {o['job'][2:4]}")
                continue
            extra_eval += o["n"]
            violations.extend(o["fails"])
            conc.append(o)

    new, shown = [], set()
    for f in violations:
        k = is_known(pid, units[f["ui"]].name, f["label"], known)
        if k:
            if k["id"] not in shown:
                shown.add(k["id"])
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            new.append(f)
    nofail = [r for r in nofail if not is_known(pid, r["unit"], r["label"], known)]
    undis = len(refuted) + len(undecided)
    nob = len(rows)
    nconc = sum(o.get("n", 0) - o.get("skipped", 0) for o in conc if not o.get("dead"))
    rc = 0
    if new:
        f = new[0]
        u = units[f["ui"]]
        rp = write_replay(pid, "replay", dict(kind="runtime", property=pid, unit=u.name, params=u.params[f["pi"]], **{k: v for k, v in f.items()}, functions=u.fns,
                                              failed_obligations=[dict(label=r["label"], status=r["status"], env=r["env"], goal=r["detail"]) for r in rows if r["status"] != "proved" and r["ui"] == f["ui"]][:20]))
        print(f"unit {u.name} {u.params[f['pi']]} ({', '.join(u.fns)}): {f['label']}: {f['detail']}")
        print(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    elif nofail:
        r = nofail[0]
        u = units[r["ui"]]
        rp = write_replay(pid, "obligation", dict(kind="obligation", property=pid, unit=u.name, params=u.params[r["pi"]], functions=u.fns, obligation=r["label"], goal=r["detail"], countermodel=r["env"], verifier=r["how"]))
        print(f"unit {u.name}: obligation '{r['label']}' refuted: {r['detail']} with {r['env']}")
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        rc = 1
    elif nob == 0 and nconc == 0:
        print(f"ERROR property={pid}: no obligations were generated and no contract could be executed")
        rc = 2
    # evidence
    full = lambda u: "sym" in u.modes and not u.kw.get("bounded")
    fns = sorted({f for u in units if full(u) for f in u.fns})
    bfn = sorted({f for u in units if not full(u) for f in u.fns} - set(fns))
    bunits = [dict(unit=u.name, functions=u.fns, bound=str(u.kw.get("bounded") or "runtime contract executions only: " + (u.note or "sampled inputs"))) for u in units if not full(u)]
    cov = dict(
        obligations=nob,
        discharged=nob - undis,
        checker_cmd=f"{sys.executable} check.py {pid} --tier {tier}",
        trusted_base=BASE_TRUST + meta.get("trusted", []),
        functions_under_contract=fns,
        functions_bounded_only=bfn,
        bounded_checks=bunits,
        paths_explored=paths,
        backends={k: v for k, v in stats.items() if k in ("poly", "z3", "cvc5", "const", "split", "pruned", "memo", "interval")},
        solver_seconds=round(stats.get("solver_s", 0.0), 2),
        undischarged=[dict(unit=r["unit"], params=str(units[r["ui"]].params[r["pi"]]), label=r["label"], status=r["status"], detail=str(r["detail"])[:200]) for r in (refuted + undecided)][:40],
        evaluations=nconc,
        distinct_nontrivial=nconc,
        runtime_contract_goals_checked=sum(o.get("checked", 0) for o in conc if not o.get("dead")),
        rule="runtime contract executions on the real torch code: every unit x parameter set x dtype x batch-shape plan, inputs drawn from the contract's precondition (random + structured edge values); distinct seeds per execution; executions whose precondition rejected the draw are not counted",
        samples=[o["sample"] for o in conc if not o.get("dead") and o.get("sample")][:3] or [dict(obligation=r["label"], unit=r["unit"]) for r in rows[:3]],
        bounded_standins=[dict(unit=units[k[0]].name, params=str(units[k[0]].params[k[1]]), why=r["detail"][:160], status=r["status"]) for k, r in bounded_units.items()],
        notes=notes[:20],
    )
    level = meta.get("level", "proof")
    if undis or not nob:
        if level == "proof" and not nob:
            level = "exploration"
        elif level == "proof":
            level = "exploration"
    if level == "exploration":
        cov["explanation"] = "some obligations were not discharged by the verifier on this tree; the listed stand-ins are bounded runtime-contract checks"
    if level == "other":
        cov["explanation"] = meta.get("explanation", "")
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", []) + sorted({u.note for u in units if u.note}), wall_s=round(time.time() - t0, 2), violations=len(new) + len(nofail))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {nob - undis}/{nob} obligations discharged, {nconc} runtime-contract executions, {len(new)+len(nofail)} violations, {time.time()-t0:.1f}s")
    if real_err and rc == 0 and nconc == 0:
        print("the package could not be imported:", real_err)
    return rc


def task_any(job):
    if job[0] == "s":
        for r in task_sym(job[1:]):
            r["job"] = job
            yield r
    else:
        r = task_conc(job[1:])
        r["job"] = job
        yield r


def replay(path):
    import vc.contract as C

    d = json.load(open(path))
    pid = d["property"]
    contracts_for(pid)
    if d["kind"] != "runtime":
        print(json.dumps(d, indent=1))
        return 1
    for u in C.UNITS[pid]:
        if u.name == d["unit"]:
            c = C.execute(u, d["params"], d["seed"], d["dtype"], d["sizes"], d.get("given"))
            for n, x in c.record().items():
                print(n, "=", str(x)[:400])
            for lab, det in c.fails:
                print("FAILS:", lab, det)
            return 1 if c.fails else 0
    return 2
