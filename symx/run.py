"""Check driver:  python3-vt /verif/symx/run.py C01 [quick|thorough] [--case SUBSTR]

Loads /repo's current source into private instrumented modules, explores every
case of props/<id>.py, discharges the obligations of every path with z3,
replays counterexamples (and a sample of ordinary paths) on the real code."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
from time import perf_counter as _perf_counter, time as _now
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/usr/lib/python3/dist-packages")
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.setrecursionlimit(6000)

from symx import core, instr, senv, charset  # noqa: E402

VENV = "/opt/venv/lib/python3.12/site-packages"
LIB = {"html", "html.parser", "_markupbase", "html.entities"}
PRIV = None
CASES = []
MOD = None
DEADLINE = float("inf")


def make_private(extra_roots=(), extra_lib=(), extra_block=(), shims=None):
    return instr.install(instr.Private(
        ["tonnikala", "markupsafe", "props"] + list(extra_roots), ["/repo", HERE, VENV],
        block={"markupsafe._speedups", "tonnikala.runtime._buffer"} | set(extra_block), lib=LIB | set(extra_lib), shims=shims))


def load_known(prop):
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn):
        return {}
    with open(fn) as f:
        return {k["id"]: k for k in json.load(f)["findings"] if k["property"] == prop}


def run_case(i):
    case = CASES[i]
    t0 = _now()
    instr.CALLED.clear()
    res = dict(i=i, name=case["name"], status="ok", msg="", narrow=False)
    if _now() > DEADLINE - 5:
        res.update(status="skipped", msg="no time was left", stop="time", paths=0, queries=0, solver_s=0.0, branches=0, presolved=0, complete=False,
                   obligations=0, discharged=0, failures=[], known={}, reached={}, samples=[], checked_paths=0, cert=None, wall=0.0, steps=0, called=[], aborted=0)
        return res
    for narrow in (False, True):
        # a required case must finish; an optional one explores until its budget runs out
        budget = case.get("budget", 60) if not case.get("need", True) else case.get("budget", 500)
        env = senv.SymEnv(case, PRIV, deadline=min(_now() + budget, DEADLINE), seed=SEED, narrow=narrow,
                          max_steps=case.get("max_steps", 400000), listed=LISTED, max_fail=case.get("max_fail", 3))
        fn = getattr(MOD, case["fn"])
        cert = None
        res["status"] = "ok"
        try:
            cert = env.run(fn)
        except core.Inconclusive as e:
            res.update(status="inconclusive", msg=str(e))
        except core.EngineError as e:
            res.update(status="engine", msg=str(e) + "\n" + traceback.format_exc()[-2500:])
        except RecursionError as e:
            res.update(status="engine", msg="RecursionError\n" + traceback.format_exc()[-1500:])
        except Exception as e:
            res.update(status="engine", msg=traceback.format_exc()[-3000:])
        res["narrow"] = narrow
        if res["status"] == "engine" and not narrow and not env.failures:
            res["why_narrow"] = res["msg"]
            if os.environ.get("SYMX_VERBOSE"):
                print(case["name"], "reduced alphabet:", res["msg"])
            continue
        break
    st = env.ex.stats
    res.update(paths=st.paths, aborted=st.aborted, queries=st.queries, solver_s=st.solver_s, branches=st.branches,
               presolved=st.presolved, complete=env.ex.complete, stop=env.ex.stop_reason, obligations=env.obligations,
               discharged=env.discharged, failures=env.failures, known=env.known_hits, reached=env.reached,
               samples=env.samples, checked_paths=env.paths_with_checks, cert=cert, wall=_now() - t0,
               steps=env.ex.steps, called=sorted({"%s:%s" % (os.path.relpath(c.co_filename, "/repo"), c.co_qualname) for c in instr.CALLED
                              if c.co_filename.startswith("/repo/")}))
    return res


def replay(prop, jobs, timeout=600):
    """Run jobs on the real code; returns list of results."""
    if not jobs:
        return []
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env["PYTHONHASHSEED"] = "0"
    env.update(getattr(sys.modules.get("props.%s" % prop.lower()), "OPTS", {}).get("replay_env", {}))
    p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", os.path.join(HERE, "symx", "crun.py"), "props.%s" % prop.lower()],
                       input="\n".join(json.dumps(j) for j in jobs) + "\n", capture_output=True, text=True, env=env, timeout=timeout)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    if len(out) != len(jobs):
        raise RuntimeError("replay ended early (%d of %d): %s" % (len(out), len(jobs), p.stderr[-2000:]))
    return out


def job(case, inputs, timeout=10):
    return dict(fn=case["fn"], args=case.get("args", {}), inputs=inputs, timeout=timeout)


def confirmed(opts, d, o):
    return o["status"] in ("fail", "exc", "timeout") or bool(opts.get("trust") and d["msg"].startswith(opts["trust"]))


def norm(o):
    return json.loads(json.dumps(o))


def main():
    global PRIV, CASES, MOD, SEED, LISTED, DEADLINE
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    rest = sys.argv[2:]
    while rest:
        a = rest.pop(0)
        if a == "--case":
            only = rest.pop(0)
        else:
            tier = a
    SEED = int(os.environ.get("VERIF_SEED", "1"))
    t0 = _now()
    # whatever is not explored by then is reported as undecided
    DEADLINE = t0 + float(os.environ.get("SYMX_WALL", "720" if tier == "quick" else "100000"))
    known = load_known(prop)
    LISTED = set(known)
    # the plain (uninstrumented) module lists the cases and can provide engine options
    plain = importlib.import_module("props.%s" % prop.lower())
    opts = getattr(plain, "OPTS", {})
    for n in ("space", "alnum", "re_s", "re_w", "re_d", "lowerchanges", "linebreak"):
        charset.named(n)
    problems = []
    try:
        PRIV = make_private(**opts.get("private", {}))
        MOD = PRIV.load("props.%s" % prop.lower())
        for m in getattr(plain, "PRELOAD", ["tonnikala.loader"]):
            PRIV.load(m)
        PRIV.snapshot()
    except Exception as e:
        # the code under test does not even import: let the real code confirm it
        problems.append("loading the code under test failed: " + traceback.format_exc()[-3000:])
    CASES = list(plain.cases(tier))
    if only:
        CASES = [c for c in CASES if only in c["name"]]
    results = []
    if not problems:
        order = sorted(range(len(CASES)), key=lambda i: -CASES[i].get("cost", 1))
        nproc = int(os.environ.get("SYMX_PROCS", "8"))
        if nproc == 1 or len(CASES) == 1:
            results = [run_case(i) for i in order]
        else:
            with mp.get_context("fork").Pool(min(nproc, len(CASES)), maxtasksperchild=None) as pool:
                for r in pool.imap_unordered(run_case, order, 1):
                    results.append(r)
    results.sort(key=lambda r: r["i"])
    violations = []
    known_seen = {}
    jobs, tags = [], []
    for r in results:
        case = CASES[r["i"]]
        for f in r["failures"]:
            jobs.append(job(case, f["inputs"]))
            tags.append(("fail", case, f))
        for k, fl in r["known"].items():
            for f in fl[:1]:
                jobs.append(job(case, f["inputs"]))
                tags.append(("known", case, dict(f, id=k)))
        for inp, obs in r["samples"]:
            jobs.append(job(case, inp))
            tags.append(("trace", case, obs))
    def run_jobs(ix, timeout):
        # split over a few processes
        from concurrent.futures import ThreadPoolExecutor
        n = max(1, min(8, (len(ix) + per_process - 1) // per_process))
        chunks = [ix[k::n] for k in range(n)]
        with ThreadPoolExecutor(n) as tp:
            for idx, rs in zip(chunks, tp.map(lambda ks: replay(prop, [jobs[k] for k in ks], timeout), chunks)):
                for k, o in zip(idx, rs):
                    out[k] = o

    traces = 0
    out = [None] * len(jobs)
    per_process = 2
    # failures of different cases first: one that is confirmed is enough
    first = {}
    for k, (kind, case, d) in enumerate(tags):
        if kind == "fail":
            first.setdefault(case["name"], k)
    few = sorted(first.values())
    few = few[::max(1, len(few) // 16)][:16]
    if few:
        try:
            run_jobs(few, max(30, min(240, t0 + 850 - _now())))
        except Exception as e:
            print("note: replay of a few failures: %s" % e)
    if any(out[k] is not None and confirmed(opts, tags[k][2], out[k]) for k in few):
        keep = [k for k in few if out[k] is not None and confirmed(opts, tags[k][2], out[k])]
        jobs, tags, out = [jobs[k] for k in keep], [tags[k] for k in keep], [out[k] for k in keep]
    else:
        per_process = 20
        try:
            run_jobs([k for k in range(len(jobs)) if out[k] is None], max(30, min(600, t0 + 850 - _now())))
        except Exception as e:
            problems.append("replay: %s" % e)
            out = []
    unconfirmed = []
    undecided = {}      # case name -> why
    for (kind, case, d), o, jb in zip(tags, out, jobs):
        if kind == "trace":
            if o["status"] == "ok" and norm(o["obs"]) == norm(d):
                traces += 1
            elif o["status"] in ("fail", "exc", "timeout") and not [k for k in o["known"] if k in known]:
                # the real code fails where the symbolic run passed
                print("note: the symbolic run did not show this failure of the real code")
                violations.append((case, dict(kind="trace", msg="replayed path", detail="", inputs=jb["inputs"]), jb, o))
            elif o["status"] in ("fail", "exc", "timeout"):
                undecided.setdefault(case["name"], "trace mismatch (known): %s %s on %s" % (o["status"], o["msg"], show(jb["inputs"])))
            else:
                undecided.setdefault(case["name"], "trace mismatch: %r vs symbolic %r on %s (%s)" % (o["obs"], d, show(jb["inputs"]), o["status"]))
            continue
        ok = o["status"] in ("fail", "exc", "timeout")
        if not ok and opts.get("trust") and d["msg"].startswith(opts["trust"]):
            # what is wrong cannot be seen from outside of the process, but the code that was executed is the real one
            violations.append((case, d, jb, dict(o, detail="(seen in the execution of the intermediate code only)")))
        elif not ok:
            unconfirmed.append("%s: %s %s on %s: real code says %s" % (case["name"], d["msg"], d["detail"], show(jb["inputs"]), o["status"]))
            undecided.setdefault(case["name"], "not reproduced on the real code: " + unconfirmed[-1])
        elif kind == "known":
            known_seen.setdefault(d["id"], (case, d, jb))
        else:
            violations.append((case, d, jb, o))
    # vacuity: every case must check something, every promised label must be reached
    for r in results:
        case = CASES[r["i"]]
        need = case.get("need", True)
        if r["status"] in ("engine", "inconclusive", "skipped"):
            undecided.setdefault(r["name"], r["msg"])
        elif need and not r["complete"] and r["stop"] != "failures":
            undecided.setdefault(r["name"], "not completed (%s), %d paths" % (r["stop"], r["paths"]))
        if r["status"] == "ok" and not r["failures"]:
            if not r["obligations"] and not r["known"]:
                undecided.setdefault(r["name"], "vacuous, no obligation reached")
            for lab in case.get("reach", ()):
                if not r["reached"].get(lab) and r["complete"]:
                    undecided.setdefault(r["name"], "label %s never reached" % lab)
    violations.extend(try_undecided(prop, undecided, known, t0))
    extra = None
    if hasattr(plain, "extra") and not only:
        # checks by another engine (CBMC, JavaScript) that belong to the same property
        try:
            extra = plain.extra(tier, SEED)
            violations.extend(extra.get("violations", []))
            problems.extend(extra.get("problems", []))
            for k in extra.get("known", ()):
                known_seen.setdefault(k, None)
        except Exception:
            problems.append("extra: " + traceback.format_exc()[-3000:])
    wall = _now() - t0
    write_evidence(prop, tier, results, traces, violations, problems, known_seen, wall, plain, extra, undecided)
    for k in known:
        if k in known_seen:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]["what"]))
    tot = dict(paths=sum(r["paths"] for r in results), obligations=sum(r["obligations"] for r in results),
               queries=sum(r["queries"] for r in results))
    print("%s %s: %d cases, %d paths, %d obligations, %d solver queries, %d traces replayed, %.1fs"
          % (prop, tier, len(results), tot["paths"], tot["obligations"], tot["queries"], traces, wall))
    if violations:
        v = violations[0]
        path = write_replay(prop, v)
        for v in violations[:int(os.environ.get("SYMX_SHOW", "5"))]:
            describe(v)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    # No verdict for these cases: they are outside of what was explored, and the evidence says so.  There are none on a tree
    # that the interpreter understands.
    for n, why in sorted(undecided.items()):
        print("UNDECIDED: %s: %s" % (n, why))
    for p in problems:
        print("PROBLEM: " + p)
    if problems or (undecided and len(undecided) >= len(results)) or (undecided and os.environ.get("SYMX_STRICT")):
        return 2
    return 0


def try_undecided(prop, undecided, known, t0):
    """Cases without a verdict: at least run them on the real code with a few inputs of the domain."""
    if not undecided:
        return []
    jobs, cs = [], []
    for case in CASES:
        if case["name"] in undecided:
            for seed in range(30 if len(undecided) < 100 else 6):
                jobs.append(dict(job(case, {}), seed=seed + 1))
                cs.append(case)
    out = []
    try:
        from concurrent.futures import ThreadPoolExecutor
        chunks = [list(range(k, len(jobs), 8)) for k in range(8)]
        with ThreadPoolExecutor(8) as tp:
            for idx, rs in zip(chunks, tp.map(lambda ix: replay(prop, [jobs[k] for k in ix], max(20, t0 + 850 - _now())), chunks)):
                for k, o in zip(idx, rs):
                    if o["status"] in ("fail", "exc", "timeout") and not [i for i in o["known"] if i in known]:
                        out.append((cs[k], dict(kind="trace", msg="undecided case run on the real code", detail="", inputs=o["inputs"]), dict(jobs[k], inputs=o["inputs"]), o))
    except Exception as e:
        print("note: undecided cases could not be run: %s" % e)
    return out


def show(inputs):
    out = {}
    for k, v in inputs.items():
        out[k] = "".join(map(chr, v)) if isinstance(v, list) and all(0 <= x < 0x110000 for x in v) else v
    return repr(out)


def describe(v):
    if isinstance(v, dict):
        print("  %s" % v.get("msg"))
        return
    case, d, jb, o = v
    print("  case %s: %s %s" % (case["name"], d["msg"], d["detail"][-300:] if not os.environ.get("SYMX_VERBOSE") else d["detail"]))
    print("    inputs %s" % show(jb["inputs"]))
    print("    real code: %s %s %s" % (o["status"], o["msg"], o["detail"][-300:]))


def write_replay(prop, v):
    dirn = os.path.join(HERE, "evidence", "replay")
    os.makedirs(dirn, exist_ok=True)
    path = os.path.join(dirn, "%s.json" % prop)
    with open(path, "w") as f:
        if isinstance(v, dict):
            json.dump(v, f, indent=1, default=str)
        else:
            case, d, jb, o = v
            json.dump(dict(property=prop, case=case["name"], failure=d, job=jb, real=o, inputs=show(jb["inputs"]),
                           how="echo '<job as one line of JSON>' | /opt/venv/bin/python /verif/symx/crun.py props.%s" % prop.lower()), f, indent=1, default=str)
    return path


def write_evidence(prop, tier, results, traces, violations, problems, known_seen, wall, plain, extra, undecided):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    called = sorted(set(x for r in results for x in r["called"]))
    samples = []
    for r in results:
        for inp, obs in r["samples"][:1]:
            samples.append("%s %s -> %s" % (r["name"], show(inp), json.dumps(obs)[:300]))
    cov = dict(
        states=sum(r["paths"] for r in results),
        transitions=sum(r["branches"] for r in results),
        traces_validated_against_impl=traces,
        samples=samples[:12] or ["none"],
        obligations=sum(r["obligations"] for r in results),
        discharged=sum(r["discharged"] for r in results),
        solver_queries=sum(r["queries"] for r in results),
        solver_seconds=round(sum(r["solver_s"] for r in results), 2),
        domain_coverage_certified_cases=sum(1 for r in results if r["cert"]),
        complete_cases=sum(1 for r in results if r["complete"]),
        cases=[dict(name=r["name"], paths=r["paths"], obligations=r["obligations"], queries=r["queries"], complete=r["complete"],
                    reduced_alphabet=r["narrow"], certified=r["cert"], wall=round(r["wall"], 2)) for r in results],
        functions_encoded=called,
        bounds=getattr(plain, "BOUNDS", ""),
        outside=getattr(plain, "OUTSIDE", ""),
        known_findings=sorted(known_seen),
        problems=problems[:20], undecided={k: v[:300] for k, v in sorted(undecided.items())[:40]}, undecided_cases=len(undecided),
        exhaustive=not undecided and all(r["complete"] for r in results),
    )
    if extra:
        cov["extra"] = extra.get("evidence", {})
    ev = dict(property=prop, tier=tier, seed=SEED, level=getattr(plain, "LEVEL", "model_checking"), coverage=cov,
              assumptions=list(getattr(plain, "ASSUMPTIONS", [])) + [
                  "the symbolic interpreter (symx) models str, re and html.parser faithfully; %d explored paths were replayed on the real code with equal results" % traces],
              wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
