"""Command line: decide one property on the current tree of /repo.

    check C05            quick tier (VERIF_TIER=thorough for the deep one)
    check --replay F     re-run a reported counterexample on the real code
    check --case C05/x   one case, verbose
"""
import argparse
import importlib
import json
import os
import pickle
import re
import selectors
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

from symx import harness as H          # noqa: E402
from symx import loader as L           # noqa: E402

REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
ASSUME = [
    "real arithmetic: floats are exact reals, machine epsilon is 0; rounding "
    "and overflow are outside the claim (C33: epsilon is 2^-52, exponentials "
    "and gamma functions have the range of doubles)",
    "every draw of a generator is an arbitrary value in the support of the "
    "distribution asked for; the library's own sampling algorithms "
    "(numpy, scipy) are trusted to produce that distribution",
    "log, exp, loggamma, digamma, sqrt are uninterpreted apart from their "
    "functional equations (products, shifts by integers) and sign facts",
    "KMeans / SpectralClustering return arbitrary label vectors; scipy "
    "optimisers return an arbitrary point of their bounds",
]


def load_checks(prop):
    importlib.import_module("checks." + prop.lower())
    return H.REG.get(prop, [])


def known_labels():
    """known: property=C05 case=<regex> label=<text> :: <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\S+) case=(\S+) label=(.*?) :: "
                         r"(.*)", ln.strip())
            if m:
                out.append(m.groups())
    return out


def track():
    """names of the /repo functions executed by the symbolic runs"""
    seen = set()
    mon = sys.monitoring
    root = os.path.join(L.REPO, L.PKG) + os.sep

    def start(code, off):
        if code.co_filename.startswith(root) and code.co_name != "<module>":
            seen.add(code.co_filename[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE
    try:
        mon.use_tool_id(3, "symx")
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    except ValueError:
        pass
    return seen


def hard_stop(sig, frame):
    raise H.HardStop()


def work(args):
    idx, prop, seed, budget, timeout_ms, known, stop_at = args
    case = H.REG[prop][idx]
    left = stop_at - time.time()
    if left < 1:
        return {"case": case.name, "skipped": True}
    seen = track()
    sys.setrecursionlimit(6000)
    try:
        r = H.CaseRun(case, seed=seed, budget=budget, timeout_ms=timeout_ms,
                      known=known)
        r.budget = min(r.budget, left)
        r.eng.deadline = r.t0 + r.budget
        # one term may grow without a branch ever looking at the clock
        signal.signal(signal.SIGALRM, hard_stop)
        signal.setitimer(signal.ITIMER_REAL, r.budget + 8, 4)
        r = r.go()
        signal.setitimer(signal.ITIMER_REAL, 0)
        s = r.summary()
    except H.HardStop:
        return {"case": case.name, "skipped": True}
    except Exception as ex:
        signal.setitimer(signal.ITIMER_REAL, 0)
        import traceback
        traceback.print_exc()
        return {"case": case.name, "error": f"{type(ex).__name__}: {ex}"}
    s["functions"] = sorted(seen)
    s["files"] = dict(L.FILES)
    return s


def fan_out(todo, jobs, stop_at):
    """results of the cases, one forked process each; whatever still runs at
    stop_at, or when the caller stops listening, is killed"""
    queue, running = list(todo), {}
    sel = selectors.DefaultSelector()
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while queue or running:
            while queue and len(running) < jobs:
                t = queue.pop(0)
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(rd)
                        data = pickle.dumps(work(t))
                        with os.fdopen(wr, "wb") as f:
                            f.write(data)
                        code = 0
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                os.close(wr)
                running[rd] = (pid, bytearray(), t)
                sel.register(rd, selectors.EVENT_READ)
            left = stop_at - time.time()
            if left <= 0:
                return
            for key, _ in sel.select(timeout=min(left, 5)):
                rd = key.fd
                pid, buf, t = running[rd]
                data = os.read(rd, 1 << 20)
                if data:
                    buf += data
                    continue
                sel.unregister(rd)
                os.close(rd)
                del running[rd]
                os.waitpid(pid, 0)
                try:
                    r = pickle.loads(bytes(buf))
                except Exception:
                    r = {"case": H.REG[t[1]][t[0]].name,
                         "error": "the process of the case died"}
                yield r
    finally:
        for rd, (pid, _, _) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(rd)
        sel.close()


def write_replay(prop, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    n = 0
    slug = re.sub(r"[^A-Za-z0-9_.-]+", "_", rec["case"].split("/")[1])
    while True:
        p = os.path.join(REPLAYS, f"{prop}-{slug}-{n}.json")
        if not os.path.exists(p):
            break
        n += 1
    with open(p, "w") as f:
        json.dump(rec, f, indent=1, default=float)
    return p


def replay(path):
    rec = json.load(open(path))
    prop = rec["case"].split("/")[0]
    load_checks(prop)
    for c in H.REG[prop]:
        if c.name == rec["case"]:
            break
    else:
        print("no such case", rec["case"])
        return 2
    st, fails, ctx = H.run_concrete(c, rec["env"], rec.get("seed", 0))
    print("replay", rec["case"], "->", st)
    for a, b in fails:
        print("  ", a, ":", b)
    return 1 if st == "fail" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    known = known_labels()
    if a.case:
        prop = a.case.split("/")[0]
        load_checks(prop)
        for c in H.REG[prop]:
            if re.fullmatch(a.case, c.name):
                r = H.CaseRun(c, seed=seed, verbose=True, budget=60,
                              known=[k[2] for k in known if k[0] == prop and
                                     re.fullmatch(k[1], c.cid)])
                print(json.dumps(r.go().summary(), indent=1, default=str))
        return 0
    return check(a.prop, tier, seed, known, a.jobs, a.v)


def check(prop, tier, seed, known, jobs, verbose):
    t0 = time.time()
    cases = load_checks(prop)
    quick = tier == "quick"
    total = 240 if quick else 840
    budget = 60 if quick else 500
    tmo = 4000 if quick else 15000
    todo = []
    for i, c in enumerate(cases):
        if quick and c.tier != "quick":
            continue
        kn = [k[2] for k in known if k[0] == prop and
              re.fullmatch(k[1], c.cid)]
        todo.append((i, prop, seed, budget, tmo, kn, t0 + total))
    H.warm()
    res, viol = [], None
    for r in fan_out(todo, jobs, t0 + total + 60):
        res.append(r)
        if verbose and (r.get("wall", 0) > 8 or any(r.get(k) for k in (
                "undecided", "gaps", "incomplete", "validation_fail",
                "error", "violation", "skipped"))
                or not r.get("validated")):
            print(json.dumps({k: r.get(k) for k in (
                "case", "wall", "paths", "goals", "discharged",
                "undecided", "gaps", "incomplete", "cut_bound",
                "validated", "validation_fail", "error",
                "violation")}, default=str), flush=True)
        if r.get("violation"):
            viol = r
            break
    done = {r["case"] for r in res}
    if viol is None:
        res += [{"case": cases[t[0]].name, "skipped": True} for t in todo
                if cases[t[0]].name not in done]
    res.sort(key=lambda r: r["case"])
    return report(prop, tier, seed, known, res, viol, len(todo), t0, cases)


def report(prop, tier, seed, known, res, viol, ntodo, t0, cases):
    def tot(k):
        return sum(r.get(k, 0) or 0 for r in res)
    run = [r for r in res if "paths" in r]
    fn = sorted({f for r in run for f in r["functions"]})
    files = {}
    for r in run:
        files.update(r["files"])
    open_ = []
    for r in res:
        if r.get("skipped"):
            open_.append(f"{r['case']}: not run (time)")
        if r.get("error"):
            open_.append(f"{r['case']}: error {r['error']}")
        for k, v in (r.get("undecided") or {}).items():
            open_.append(f"{r['case']}: undecided x{v}: {k}")
        for k, v in (r.get("gaps") or {}).items():
            open_.append(f"{r['case']}: not encoded x{v}: {k}")
        if r.get("incomplete"):
            open_.append(f"{r['case']}: {r['incomplete']} paths left (time)")
        if r.get("validation_fail"):
            open_.append(f"{r['case']}: encoding differs from a concrete run:"
                         f" {r['validation_fail'][0]}")
        if "paths" in r and not r.get("violation") and not r["completed"]:
            open_.append(f"{r['case']}: no path reached an assertion")
    for k in known:
        if k[0] != prop:
            continue
        for r in run:
            if re.fullmatch(k[1], r["case"].split("/", 1)[1]) and \
                    k[2] in r["known_seen"]:
                print(f"KNOWN-FINDING: property={prop} {k[3]}")
                break
    samples = []
    for r in run[:6]:
        samples.append({"case": r["case"], "bounds": r["bounds"],
                        "paths": r["paths"],
                        "obligations": {k: v for k, v in
                                        list(r["labels"].items())[:4]}})
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("completed"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": tot("validated"),
            "samples": samples,
            "explanation": "symbolic execution of the listed functions from "
            "/repo's current sources; states = symbolic paths that reached "
            "their assertions, transitions = branch decisions taken on "
            "symbolic conditions, obligations discharged by exact "
            "rational-function normalisation or by z3 (unsat) for every "
            "value within the bounds",
            "branch_sides_shown_feasible_by_a_concrete_point":
            tot("witnessed"),
            "obligations": tot("goals"), "discharged": tot("discharged"),
            "queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
            "query_results": {k: tot(k) for k in ("sat", "unsat",
                                                  "unknown")},
            "cases_run": len(run), "cases_registered": ntodo,
            "cases": {r["case"]: {
                k: r[k] for k in ("bounds", "paths", "completed",
                                  "cut_infeasible", "cut_bound", "goals",
                                  "discharged", "queries", "solver_s",
                                  "validated", "wall")} for r in run},
            "paths_cut_by_draw_bound": tot("cut_bound"),
            "functions_encoded": fn, "source_sha256_16": files,
            "open": open_,
            "exhaustive": not open_ and not viol,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {len(run)} cases, {tot('paths')} paths, "
          f"{tot('goals')} obligations, {tot('discharged')} discharged, "
          f"{tot('queries')} queries, {tot('validated')} traces validated, "
          f"{ev['wall_s']} s")
    for o in open_[:40]:
        print("INCONCLUSIVE", o)
    if viol:
        v = viol["violation"]
        p = write_replay(prop, v)
        print(f"counterexample in {v['case']}: {v['label']} -- {v['detail']}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    if not tot("discharged"):
        print("nothing decided")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
