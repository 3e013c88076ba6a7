"""python -m vmon.run <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Drives the workloads of one property through the monitored code on all cores, lets
its oracle judge every case, writes evidence/<PROPERTY>.json and exits
0 (held on everything explored) / 1 (VIOLATION) / 3 (no verdict: nothing observed).
"""
import os
import sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import argparse
import json
import signal
import tempfile
import time
import traceback
import zlib
import multiprocessing as mp
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


_P = None
ASSUMPTIONS = [
    "flopy (grid geometry, point location) and numpy behave as documented",
    "the polygons and elevations generated by vmon/geo.py are the ground truth for adjacency, areas and outline cells",
]


def _init(pid):
    global _P
    os.environ.setdefault("MPLCONFIGDIR", tempfile.gettempdir())
    from . import monitor
    monitor.install()
    from . import props
    _P = props.PROPS[pid]


def run_case(seed, idx, tier, case_wall=120):
    """one workload under the monitor -> plain dict"""
    import numpy as np
    from . import monitor
    from .props import Case, Skip
    rng = np.random.default_rng([seed, zlib.crc32(_P.id.encode()), idx])
    case = Case(rng, idx, tier)
    if _P.id in ("H01", "H02", "G01", "E01"):
        case.thousands = 520        # many operations per case
    out = {"idx": idx, "status": "ok", "viol": [], "known": []}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(case_wall)
    try:
        _P.fn(case)
    except Skip as e:
        out["status"] = "skip:" + str(e)
    except monitor.CallFailed as e:
        # the operation the property is about gave no answer
        if case.in_setup:
            out["status"] = "setup:" + e.name
            out["setup_error"] = str(e)
        else:
            case.fail("raises" if not isinstance(e, monitor.NoEnd) else "no-end", str(e))
    except CaseTimeout:
        out["status"] = "timeout"
    except (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError) as e:
        # the oracle could not read what dany returned (absent, ragged, of another kind or size)
        tb = traceback.extract_tb(e.__traceback__)
        case.fail("unusable-result", f"a returned result can not be interpreted: {type(e).__name__}: {str(e)[:200]} "
                                     f"({os.path.basename(tb[-1].filename)}:{tb[-1].lineno})")
        out["trace"] = traceback.format_exc()[-1500:]
    except Exception as e:
        out["trace"] = traceback.format_exc()[-1500:]
        inside = [t for t in traceback.extract_tb(e.__traceback__) if os.path.dirname(t.filename).endswith(os.sep + "dany")]
        if inside and not case.in_setup:
            # raised by dany while the oracle read an attribute or result
            case.fail("raises", f"{inside[-1].name} raised {type(e).__name__}: {str(e)[:200]}")
        else:
            out["status"] = "harness"
    finally:
        signal.alarm(0)
    out["viol"] = case.violations[:4]
    out["desc"] = case.desc
    out["counts"] = dict(case.counts)
    if case.mon is not None:
        for k, v in case.mon.counts.items():
            out["counts"][k] = out["counts"].get(k, 0) + v
        out["ratio"] = case.mon.max_ratio
    out["sig"] = case.sig
    return out


def _work(args):
    seed, idxs, tier = args
    res = [run_case(seed, i, tier) for i in idxs]
    from .monitor import LINES
    return res, {k: set(v) for k, v in LINES.items()}


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    keys = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                keys[key.split("=", 1)[1]] = text
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    if a.replay:
        r = json.load(open(a.replay))
        _init(pid)
        res = run_case(r["seed"], r["idx"], r["tier"], 600)
        print(json.dumps(res, indent=1, default=str))
        return 1 if res["viol"] else 0

    t0 = time.time()
    from .plan import PLAN
    plan = PLAN[pid]
    ncase = a.cases or plan[tier]
    wall_cap = 420 if tier == "quick" else 840
    step = max(1, min(12, ncase // (a.jobs * 4) or 1))
    chunks = [(a.seed, list(range(i, min(ncase, i + step))), tier) for i in range(0, ncase, step)]
    results, lines = [], {}
    known = known_findings(pid)
    capped, nviol = False, 0
    with mp.get_context("fork").Pool(a.jobs, _init, (pid,)) as pool:
        for res, ln in pool.imap_unordered(_work, chunks):
            results += res
            for k, v in ln.items():
                lines.setdefault(k, set()).update(v)
            nviol += sum(1 for r in res for v in r["viol"] if v["key"] not in known)
            wall = time.time() - t0
            if wall > wall_cap or nviol >= 40 and wall > 60:
                capped = True
                pool.terminate()
                break
    results.sort(key=lambda r: r["idx"])
    status = Counter(r["status"].split(":")[0] for r in results)
    counts, kcount = Counter(), Counter()
    viol = []
    ksample = {}
    for r in results:
        counts.update(r["counts"])
        for v in r["viol"]:
            if v["key"] in known:
                kcount[v["key"]] += 1
                ksample.setdefault(v["key"], (r["idx"], v["msg"]))
            else:
                viol.append((r, v))
    sigs = {r["sig"] for r in results if r["sig"]}
    harness = [r for r in results if r["status"] == "harness"]
    judged = status["ok"]

    vout = []
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if viol:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = Counter()
        for r, v in viol:
            seen[v["key"]] += 1
            if seen[v["key"]] > 3 or len(vout) >= 8:
                continue
            path = os.path.join(rd, f"{pid}-{tier}-s{a.seed}-c{r['idx']}.json")
            json.dump({"property": pid, "seed": a.seed, "idx": r["idx"], "tier": tier,
                       "key": v["key"], "message": v["msg"], "scene": r["desc"],
                       "rerun": f"cd /verif && ./check.sh {pid} --replay {path}"},
                      open(path, "w"), indent=1, default=str)
            vout.append({"key": v["key"], "message": v["msg"][:400], "replay": path})

    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "coverage": {
            "evaluations": int(judged),
            "distinct_nontrivial": len(sigs),
            "rule": plan["rule"],
            "samples": [{"case": r["idx"], "scene": r["desc"],
                         "observed": {k: v for k, v in r["counts"].items()
                                      if not k.startswith("calls:")}}
                        for r in results if r["sig"]][:5],
            "cases": {"planned": ncase, "run": len(results), "wall_capped": capped, **status},
            "observed": dict(sorted(counts.items())),
            "largest_share_of_step_budget":
                round(max([r.get("ratio", 0) for r in results] or [0]), 4),
            "dany_lines_executed":
                {f"{k[0]}:{k[1]}": len(v) for k, v in sorted(lines.items())},
            "known_findings_seen":
                {k: {"times": n, "first_case": ksample[k][0]} for k, n in kcount.items()},
            "setup_errors": [r["setup_error"] for r in results if "setup_error" in r][:3],
            "violation_list": vout,
        },
        "assumptions": ASSUMPTIONS,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)

    print(f"{pid} tier={tier} seed={a.seed} cases={len(results)}/{ncase} judged={judged} "
          f"distinct={len(sigs)} {dict(status)} wall={time.time()-t0:.1f}s")
    for k in kcount:
        print(f"KNOWN-FINDING: property={pid} {known[k]} (seen {kcount[k]} times, e.g. case {ksample[k][0]})")
    if vout:
        for v in vout:
            print(f"  {v['key']}: {v['message']}")
            print(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    if harness:
        print("HARNESS ERROR\n" + harness[0]["trace"])
        return 3
    if judged < max(1, 0.25 * ncase) and not capped or judged == 0:
        print(f"NO VERDICT: only {judged} of {ncase} cases could be judged; "
              f"{Counter(r['status'] for r in results).most_common(4)} {ev['setup_errors'][:1]}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
