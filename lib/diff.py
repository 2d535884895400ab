"""
Comparison of a run of the interpreter with the run of the reference interpreter.
"""

import json

from . import lang, real, ref
from .common import PROFILES, Violation


def plain(x):
    return json.loads(json.dumps(x, default=lambda o: f"<{type(o).__name__}>"))


def strip_positions(outcome):
    """The outcome without the positions of the errors."""
    o = dict(outcome)
    o.pop("exception", None)
    if o["error"] is not None:
        o["error"] = [o["error"][0]]
    o["events"] = [e[:2] if e[0] == "error" else e for e in o["events"]]
    return plain(o)


def expect(what, expected, got, text=""):
    if expected != got:
        raise Violation(
            f"{what}:\n  expected {expected!r}\n  got      {got!r}"
            + (f"\nscript:\n{text}" if text else "")
        )


def compare(expected, got, text="", positions=False):
    """
    Both are outcomes of run(). The positions of errors are compared when asked to and
    when the reference tells one.
    """
    exp, act = strip_positions(expected), strip_positions(got)
    detail = ""
    if got.get("exception") is not None:
        detail = f"\nexception: {got['exception']!r}"
    for i, (a, b) in enumerate(zip(exp["events"], act["events"])):
        expect(f"callback {i}", a, b, text + detail)
    expect("callbacks", exp["events"], act["events"], text + detail)
    expect("status", exp["status"], act["status"], text + detail)
    expect("error", exp["error"], act["error"], text + detail)
    if exp["state"] is not None and act["state"] is not None:
        for k in exp["state"]:
            expect(k, exp["state"][k], act["state"][k], text + detail)
    if positions and expected["error"] is not None and expected["error"][1]:
        expect(
            "line and column of the error",
            list(expected["error"][1]),
            list(got["error"][1] or []),
            text + detail,
        )


def differential(
    prog,
    profile="std",
    dec=(),
    sev=None,
    default_sev="WARNING",
    positions=False,
    fuel=2000,
):
    """Run on both sides and compare; returns the labels and the outcome."""
    files = PROFILES[profile]
    expected, it = ref.run(
        prog, files, sev, default_sev, fuel=fuel, handler=ref.Handler(dec)
    )
    text = lang.render(prog)
    got = real.run(text, files, sev, default_sev, handler=ref.Handler(dec))
    compare(expected, got, text, positions)
    labels = sorted(it.stats)
    labels.append("status:" + expected["status"])
    if expected["error"]:
        labels.append("error:" + expected["error"][0])
    return labels, expected
