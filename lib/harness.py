"""
Runs a check: generates cases with Hypothesis in several processes, shrinks a failure,
writes the replay file and the evidence.

A check is a module with
  ID, RULE: the property and what makes a case non-trivial
  QUICK, THOROUGH: number of cases
  case(): strategy giving JSON cases
  run(case): runs a case and returns its labels (non-trivial unless "trivial" is one);
    raises Violation when the property does not hold, Discard when the case does not count
  show(case) (optional): readable form of a case, for the samples
  start() (optional): called once in a process before it runs cases
"""

import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")
SHARDS = 8


def dump(case):
    return json.dumps(case, sort_keys=True)


def clean(case):
    """As read back from a replay file: no sharing between parts, no tuples."""
    return json.loads(dump(case))


def digest(case):
    return hashlib.sha256(dump(case).encode()).hexdigest()[:16]


def run_case(mod, case):
    """Returns (labels, None), (None, message) or (None, None) when it does not count."""
    from .common import Discard, Violation
    from .guard import Fuel, guarded

    try:
        with guarded(getattr(mod, "FUEL", 400_000)):
            return list(mod.run(case)), None
    except Discard as ex:
        return ["discard:" + str(ex)], None
    except Violation as ex:
        return None, str(ex)
    except Fuel as ex:
        return None, f"does not terminate ({ex})"
    except Exception:
        # The interpreter failed where the check expects no error, or gave something
        # which the check can make nothing of
        return None, "unexpected exception\n" + traceback.format_exc()[-2000:]


# The frames are allocated in chunks: with small ones, the deep recursion of the parser
# crosses their boundaries, with a system call each time. A function with a large frame
# makes a large chunk, the rest of which is for the functions it calls.
run_case.__code__ = run_case.__code__.replace(co_stacksize=70_000)


def shard(args):
    name, index, n, seed, deadline = args
    import gc
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    # The parse trees make many cycles
    gc.set_threshold(20_000, 20, 50)
    try:
        return shard_(name, index, n, seed, deadline)
    except BaseException:
        return {"crash": traceback.format_exc()}


def shard_(name, index, n, seed, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    mod = importlib.import_module("checks." + name.lower())
    if hasattr(mod, "start"):
        mod.start()
    res = {
        "evaluations": 0,
        "nontrivial": set(),
        "labels": collections.Counter(),
        "discarded": 0,
        "samples": [],
        "fail": None,
        "timeout": False,
    }
    state = {"best": None, "tries": 0, "cache": {}, "t0": None, "crash": None}
    start = time.monotonic()

    @hypothesis.seed(int(hashlib.sha256(f"{seed}/{name}/{index}".encode()).hexdigest(), 16))
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @hypothesis.given(mod.case())
    def test(case):
        if state["crash"]:
            return
        case = clean(case)
        d = dump(case)
        if state["best"] is None:
            if time.monotonic() - start > deadline:
                res["timeout"] = True
                return
        else:
            if d in state["cache"]:
                if state["cache"][d]:
                    raise AssertionError("violation")
                return
            state["tries"] += 1
            if state["tries"] > 1500 or time.monotonic() - state["t0"] > 40:
                return
        try:
            labels, message = run_case(mod, case)
        except Exception:
            state["crash"] = traceback.format_exc() + "\ncase: " + d[:3000]
            return
        if state["best"] is None and message is None:
            res["evaluations"] += 1
            res["labels"].update(labels)
            if any(x.startswith("discard") for x in labels):
                res["discarded"] += 1
            elif "trivial" not in labels:
                res["nontrivial"].add(digest(case))
                if len(res["samples"]) < 2 and len(res["nontrivial"]) % 40 == 10:
                    res["samples"].append(case)
        state["cache"][d] = message is not None
        if message is not None:
            if state["t0"] is None:
                state["t0"] = time.monotonic()
            key = (len(d), d)
            if state["best"] is None or key < state["best"][0]:
                state["best"] = (key, case, message)
            raise AssertionError("violation")

    try:
        test()
    except AssertionError:
        pass
    except BaseException as ex:
        # Hypothesis complains of flakiness when shrinking was cut short
        if state["best"] is None:
            raise
        if isinstance(ex, KeyboardInterrupt):
            raise
    if state["crash"]:
        return {"crash": state["crash"]}
    if state["best"] is not None:
        res["fail"] = (state["best"][1], state["best"][2])
    from .guard import max_count

    res["max_steps"] = max_count()
    return res


def show(mod, case):
    if hasattr(mod, "show"):
        return mod.show(case)
    return case


def known_findings(prop):
    """Digests of the known failing cases, with what fails."""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as fp:
            for line in fp:
                parts = line.split(None, 3)
                if len(parts) == 4 and parts[0] == "finding:":
                    if parts[1] == "property=" + prop:
                        res[parts[2].removeprefix("case=")] = parts[3].strip()
    return res


def reduce_case(mod, case, message):
    """Remove the statements of the programs of a failing case that are not needed."""
    from . import lang

    tries = 0
    start = time.monotonic()
    progress = True
    while progress:
        progress = False
        for key in [k for k in ("prog", "prog2") if isinstance(case, dict) and k in case]:
            for smaller in lang.reductions(case[key]):
                tries += 1
                if tries > 400 or time.monotonic() - start > 30:
                    return case, message
                cand = clean(dict(case, **{key: smaller}))
                try:
                    labels, again = run_case(mod, cand)
                except Exception:
                    continue
                if again is not None:
                    case, message = cand, again
                    progress = True
                    break
            if progress:
                break
    return case, message


def replay(name, path):
    mod = importlib.import_module("checks." + name.lower())
    if hasattr(mod, "start"):
        mod.start()
    with open(path) as fp:
        data = json.load(fp)
    labels, message = run_case(mod, data["case"])
    if message is not None:
        print(message)
        print(f"VIOLATION property={name} replay={path}")
        return 1
    print("the property holds on this case:", labels)
    return 0


def main(name, argv):
    if len(argv) >= 2 and argv[0] == "--replay":
        return replay(name, argv[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("checks." + name.lower())
    t0 = time.monotonic()
    total = mod.QUICK if tier == "quick" else mod.THOROUGH
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(total * scale) // SHARDS)
    deadline = 240 if tier == "quick" else 700

    fixed = {"evaluations": 0, "fail": None, "labels": collections.Counter()}
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(SHARDS) as pool:
        results = pool.map(
            shard, [(name, i, n, seed, deadline) for i in range(SHARDS)], chunksize=1
        )
    crashes = [r["crash"] for r in results if "crash" in r]
    if crashes:
        print("ERROR of the check", name)
        print(crashes[0])
        return 2
    labels = collections.Counter()
    nontrivial = set()
    evaluations = discarded = 0
    samples = []
    fails = []
    for r in results:
        labels.update(r["labels"])
        nontrivial |= r["nontrivial"]
        evaluations += r["evaluations"]
        discarded += r["discarded"]
        samples.extend(r["samples"])
        if r["fail"]:
            fails.append(r["fail"])
    fails.sort(key=lambda f: (len(dump(f[0])), dump(f[0])))
    known = known_findings(name)
    for d in sorted({digest(c) for c, _ in fails} & set(known)):
        print(f"KNOWN-FINDING: property={name} {known[d]}")
    fails = [f for f in fails if digest(f[0]) not in known]
    evidence = {
        "property": name,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": [show(mod, c) for c in samples[:5]],
            "discarded": discarded,
            "labels": dict(sorted(labels.items(), key=lambda kv: (-kv[1], kv[0]))[:80]),
            "time_limit_hit": any(r["timeout"] for r in results),
            "max_interpreter_steps": max(r["max_steps"] for r in results),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", name + ".json"), "w") as fp:
        json.dump(evidence, fp, indent=1)
        fp.write("\n")
    if fails:
        if hasattr(mod, "start"):
            mod.start()
        case, message = reduce_case(mod, *fails[0])
        # Outside of Hypothesis and of the process that found it
        labels, again = run_case(mod, clean(case))
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = os.path.join(
            VERIF, "evidence", "replays", f"{name}-{digest(case)}.json"
        )
        with open(path, "w") as fp:
            json.dump(
                {
                    "property": name,
                    "case": case,
                    "message": again or message,
                    "shown": show(mod, case),
                },
                fp,
                indent=1,
            )
            fp.write("\n")
        print(show(mod, case) if isinstance(show(mod, case), str) else dump(case))
        print(again or message)
        if again is None:
            print("(only in the process that found it, after other cases)")
        print(f"VIOLATION property={name} replay={path}")
        return 1
    print(
        f"{name}: held on {evaluations} cases, {len(nontrivial)} distinct non-trivial,"
        f" {discarded} discarded, {evidence['wall_s']} s"
    )
    return 0
