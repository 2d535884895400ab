"""Writes MANIFEST.json, from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFERENCE = "model-based differential testing against a reference interpreter"
T = {
    "C01": "generated expression trees, differential testing against a reference evaluator",
    "C02": "generated operand combinations, differential testing against an operator table",
    "C03": "generated literals, differential testing against an independent decoder",
    "C04": "generated sequences and bounds, differential testing against a reference evaluator",
    "C05": "generated calls, differential testing against a specification of each function",
    "C06": "generated calls with a recording manager, " + REFERENCE,
    "C07": "generated programs, " + REFERENCE,
    "C08": "generated programs, " + REFERENCE,
    "C09": "generated selects and answers, " + REFERENCE,
    "C10": "generated programs, " + REFERENCE,
    "C11": "generated programs, metamorphic relation between Exec and inlined statements",
    "C12": "stateful histories over contexts, replay invariants and reference interpreter",
    "C13": "generated callback behaviours (rewind, abort, ...), " + REFERENCE,
    "C14": "stateful keyword histories against a set model",
    "C15": "stateful keyword histories against a mapping model",
    "C16": "generated programs against a log model",
    "C17": "stateful histories of settings and runs, " + REFERENCE,
    "C18": "generated faults planted in programs, " + REFERENCE,
    "C19": "metamorphic testing: the same program in other layouts and spellings",
    "C20": "broken statements planted in generated programs, " + REFERENCE,
    "C21": "fuzzing: noise, token soups, mutated, spliced and nested scripts, robustness oracle",
    "C22": "differential testing between kinds of sources and encodings",
    "C23": "generated names, algebraic laws against case-folded strings",
    "C24": "stateful histories on trees of mappings against a dictionary model",
    "C25": "histories and interleavings of runs, differential testing against runs alone",
    "C26": "differential testing between the ways to drive an execution",
    "C27": "generated programs with a recording manager, " + REFERENCE,
    "C28": "generated programs executed context by context, " + REFERENCE,
    "C29": "generated programs over generated host extensions, " + REFERENCE,
    "C30": "stateful histories of operations on a pool of values against the operator model",
    "C31": "generated programs with a minimal host, " + REFERENCE,
    "C33": "generated and mutated faulty scripts, oracle from their tokens",
    "C32": "generated programs with a factory of the host, " + REFERENCE,
}
NOTE = (
    "Sampled, not exhaustive: the property held on every generated case, the number and kinds"
    " of which are in the evidence file. Trusts the oracle named in DESIGN.md for this"
    " property and the generators of lib/gen.py; runs the code of /repo/src as it is."
)
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append(
        {
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"python3 check.py {p} --thorough",
            "technique": "property-based testing: " + T[p],
            "level": "exploration",
            "level_note": NOTE,
        }
    )
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "python3 check.py --setup",
            "checks": checks,
            "not_applicable": [],
            "notes": "No hooks: the checks use the public interface of /repo only.",
        },
        fp,
        indent=1,
    )
    fp.write("\n")
