"""python -m mon.run --prop C01 --tier quick [--seed N] [--replay FILE] [--only RULE]

exit 0: the property held on everything explored (known findings are printed)
exit 1: a violation; a line VIOLATION property=<id> replay=<file>
exit 2: inconclusive or an error of the check itself
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import env
from .core import Monitor, Inconclusive, canon, jsonable

OUT = os.environ.get("VERIF_OUT", os.path.join(env.VERIF, "out"))
KNOWN = os.path.join(env.VERIF, "known_findings.json")


def in_repo(tb):
    """Does the traceback end in (or pass through) the code under test?"""
    repo = os.path.realpath(env.REPO) + os.sep
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(repo):
            return True
        tb = tb.tb_next
    return False


def run_case(prop, case):
    import numpy as np
    import contextlib, io
    mod = importlib.import_module("mon.props." + prop.lower())
    m = Monitor(prop, case)
    t = time.time()
    out = {"error": None, "inconclusive": None}
    try:
        np.random.seed(12345)
        np.seterr(all="ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            mod.run(case, m)
        if not m.events:
            out["inconclusive"] = "no monitor was reached"
    except Inconclusive as e:
        out["inconclusive"] = str(e)
    except Exception as e:
        if in_repo(sys.exc_info()[2]):
            m.raised("code under test raised on a valid workload", e)
        elif isinstance(e, (IndexError, ValueError, TypeError, ZeroDivisionError, ArithmeticError)):
            # the oracle could not even read the result: wrong shape, missing entries, not a number
            m.raised("a result has the wrong form", e)
        else:
            out["error"] = traceback.format_exc()[-3000:]
    out.update(m.pack())
    out["wall"] = time.time() - t
    return out


def _child(prop, case, conn):
    try:
        r = run_case(prop, case)
    except BaseException:
        r = {"error": traceback.format_exc()[-3000:], "inconclusive": None, "events": {}, "worst": {}, "viol": [],
             "known": [], "states": [], "notes": {}, "wall": 0.0}
    try:
        conn.send(r)
    finally:
        conn.close()


def run_all(prop, cases, jobs, case_limit, deadline):
    """One fresh forked process per case, at most `jobs` at a time."""
    import signal
    ctx = mp.get_context("fork")
    todo, live, res = list(range(len(cases))), {}, [None] * len(cases)
    empty = {"events": {}, "worst": {}, "viol": [], "known": [], "states": [], "notes": {}, "wall": 0.0}

    def end(i, r):
        p, c, t0 = live.pop(i)
        res[i] = r
        if p.is_alive() and r.get("killed"):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                p.kill()
        p.join(5)
        c.close()

    fast = os.environ.get("VERIF_FAILFAST") == "1"     # used by tools/mutate.py only
    while todo or live:
        if fast and any(r and r["viol"] for r in res):
            todo = []
            for i in list(live):
                end(i, dict(empty, error=None, inconclusive="stopped early", killed=True))
            break
        while todo and len(live) < jobs and time.time() < deadline:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)

            def target(i=i, b=b):
                os.setpgid(0, 0)
                _child(prop, cases[i], b)
            p = ctx.Process(target=target)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        if not live:
            break
        mp.connection.wait([v[1] for v in live.values()] , timeout=1.0)
        now = time.time()
        for i in list(live):
            p, c, t0 = live[i]
            if c.poll():
                try:
                    end(i, c.recv())
                except EOFError:
                    end(i, dict(empty, error=None, inconclusive="worker died (exit code %s)" % p.exitcode))
            elif now - t0 > case_limit or now > deadline + 60:
                end(i, dict(empty, error=None, inconclusive="case exceeded its time limit", killed=True, limit=case_limit, timeout=now < deadline + 60))
    return res


def hung(mod, cases, res):
    """Calculations that never return although comparable ones do so at once."""
    done = {}
    for c, r in zip(cases, res):
        if r and not r["inconclusive"]:
            done.setdefault(c.get("kind"), []).append(r["wall"])
    out = []
    for c, r in zip(cases, res):
        w = done.get(c.get("kind"), [])
        if r and r.get("timeout") and len(w) >= 3 and 10 * max(w) < r["limit"]:
            out.append((c, dict(r, inconclusive=None, viol=[{"rule": "the calculation ends", "witness": {"limit_s": r["limit"], "others_at_most_s": round(max(w), 1)}}])))
    return out


def load_known():
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            return json.load(f)
    return {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or max(1, (os.cpu_count() or 4)))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, default=None, help="run only this case index, in-process, verbosely")
    ap.add_argument("--kind")
    ap.add_argument("--first", type=int, default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("mon.props." + a.prop.lower())
    known = {f["key"]: f for f in load_known()["findings"] if f["property"] == a.prop}

    if a.replay:
        case = json.load(open(a.replay))["case"]
        r = run_case(a.prop, case)
        print(json.dumps({k: r[k] for k in ("events", "viol", "known", "error", "inconclusive")}, indent=1))
        return 1 if r["viol"] else (2 if r["error"] or r["inconclusive"] else 0)

    cases = mod.cases(a.tier, a.seed)
    if a.kind:                # development: only cases of these kinds
        cases = [c for c in cases if c.get("kind") in a.kind.split(",")][:a.first]
    if a.case is not None:
        r = run_case(a.prop, cases[a.case])
        print(json.dumps({"case": cases[a.case], **r}, indent=1, default=repr))
        return 1 if r["viol"] else 0
    limit = 860 if a.tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3000"))
    case_limit = getattr(mod, "CASE_LIMIT", {}).get(a.tier, 100 if a.tier == "quick" else 900)
    res = run_all(a.prop, cases, a.jobs, case_limit, t0 + limit - 120)

    events, worst, states, kn = {}, {}, set(), {}
    viol, bad, skipped = [], [], 0
    nontrivial = set()
    for c, r in zip(cases, res):
        if r is None:
            skipped += 1
            continue
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
        states.update(r["states"])
        for key, text in r["known"]:
            kn.setdefault(key, text)
        if r["viol"]:
            viol.append((c, r))
        if r["error"] or (r["inconclusive"] and c not in [h[0] for h in hung(mod, cases, res)]):
            bad.append((c, r))
        elif r["events"]:
            nontrivial.add(canon(c))
        if a.verbose:
            print("%7.1fs %-9s %s" % (r["wall"], "VIOL" if r["viol"] else "ERR" if r["error"] else "INC" if r["inconclusive"] else "ok",
                                  canon(c)[:150]))
    for c, r in hung(mod, cases, res):
        viol.append((c, r))
    # a known finding that the committed file does not list is a violation
    unlisted = [k for k in kn if k not in known]
    need = getattr(mod, "REQUIRED", [])
    missing = [r for r in need if not events.get(r)]

    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": len([r for r in res if r is not None]),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": [jsonable({"case": c, "events": r["events"], "notes": r["notes"]})
                        for c, r in list(zip(cases, res))[:3] if r is not None],
            "oracle_decisions": sum(events.values()),
            "decisions_per_rule": events,
            "largest_error_over_tolerance": {k: round(v, 6) if v == v and v != float("inf") else str(v) for k, v in worst.items()},
            "distinct_states_observed": len(states),
            "cases_not_started": skipped, "cases_inconclusive": len(bad),
            "known_findings_seen": sorted(kn),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "pylibxc is replaced by /verif/env/pylibxc (exact LDA/GGA formulas, derivatives by complex step)",
            "holds for the executions observed, not for all executions"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(unlisted),
    }
    with open(os.path.join(env.VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for key in sorted(kn):
        if key in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, key, kn[key]))
    print("%s %s seed=%d: %d cases, %d oracle decisions over %d rules, %d distinct states, %.1fs" % (
        a.prop, a.tier, a.seed, ev["coverage"]["evaluations"], sum(events.values()), len(events), len(states), time.time() - t0))
    if a.verbose:
        for k in sorted(events):
            print("   %-70s %6d  worst/tol %.3g" % (k[:70], events[k], worst.get(k, 0.0)))

    if viol or unlisted:
        os.makedirs(OUT, exist_ok=True)
        n = 0
        for c, r in viol:
            n += 1
            path = os.path.join(OUT, "%s-%s-%d.json" % (a.prop, a.tier, n))
            json.dump({"property": a.prop, "case": c, "violations": r["viol"],
                       "replay": "./check.sh %s %s --replay %s" % (a.prop, a.tier, path)}, open(path, "w"), indent=1)
            for v in r["viol"][:3]:
                print("  rule: %s" % v["rule"])
                print("  witness: %s" % json.dumps(v["witness"])[:600])
            if n >= 5:
                break
        for k in unlisted:
            n += 1
            path = os.path.join(OUT, "%s-%s-%d.json" % (a.prop, a.tier, n))
            json.dump({"property": a.prop, "case": {}, "violations": [{"rule": k, "witness": kn[k]}]}, open(path, "w"))
        print("VIOLATION property=%s replay=%s" % (a.prop, os.path.join(OUT, "%s-%s-1.json" % (a.prop, a.tier))))
        return 1
    if bad:
        for c, r in bad[:3]:
            print("INCONCLUSIVE/ERROR: %s\n%s" % (canon(c)[:300], r["error"] or r["inconclusive"]))
        # an isolated case without an answer (a solver that did not finish) does not void the others
        if any(r["error"] for c, r in bad) or len(bad) > max(1, len(cases) // 4):
            return 2
    if missing:
        print("INCONCLUSIVE: these monitors were never reached: %s" % missing)
        return 2
    if skipped and a.tier == "quick":
        print("note: %d of %d cases were not started within the time budget" % (skipped, len(cases)))
        if skipped > len(cases) // 2:
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
