"""
Differential execution of a few statements from a prepared state, one context at a time:
small scripts make many more cases than whole runs.

The variables are given as JSON: ["bool", b], ["int", n], ["float", text], ["str", s],
["void"], ["sp", index], ["sps"].
"""

from . import lang, real, ref
from .common import PROFILES
from .diff import expect, plain


def related(s, v, files):
    """A value that looks like another one."""
    k = v[0]
    if k == "sp":
        name = files[v[1]][0]
        return ["str", s.pick([name, name, name.upper(), name[:-1]])]
    if k == "str":
        names = [i for i, (n, _) in enumerate(files) if n.casefold() == v[1].casefold()]
        if names:
            return ["sp", s.pick(names)]
        return ["str", s.pick([v[1], v[1].swapcase(), v[1] + " ", v[1][1:]])]
    if k == "void":
        return s.pick([["bool", False], ["int", 0], ["str", ""], ["str", "void"], ["str", "None"]])
    if k == "sps":
        return s.pick([["str", "SubPackages"], ["sp", 0], ["int", len(files)], ["str", files[0][0]]])
    n = float(v[1])
    as_bool = ["bool", n != 0]
    as_str = ["str", str(v[1])]
    as_float = ["float", repr(n)]
    if n != n or n in (float("inf"), float("-inf")):
        return s.pick([as_bool, as_str, as_float])
    return s.pick([as_bool, as_str, as_float, ["int", int(n)], ["int", int(n)]])


def ref_value(v, it):
    k = v[0]
    if k == "float":
        return float(v[1])
    if k == "void":
        return ref.VOID
    if k == "sp":
        return it.sps[v[1]]
    if k == "sps":
        return it.sps
    return v[1]


def real_value(v, sps):
    k = v[0]
    if k == "float":
        return real.Value(float(v[1]))
    if k == "void":
        return real.Value(real.Void())
    if k == "sp":
        return real.Value(sps[v[1]])
    if k == "sps":
        return real.Value(sps)
    return real.Value(v[1])


def expected(stmts, variables, files):
    it = ref.Interp(files)
    it.posmaps = [lang.render_positions(stmts)[1]]
    for name, v in variables.items():
        it.state.vars[name] = ref_value(v, it)
    try:
        it.body(stmts)
        error = None
    except ref.Err as ex:
        error = [ex.kind, ex.pos, ex.extra.get("index")]
        it.state = it.snap
    return {"error": error, "events": it.events, "state": it.state.norm()}


def actual(text, variables, files, sps=None):
    if sps is None:
        sps = real.packages(files)
    r = real.Recorder(sps, ref.Handler())
    state = real.WizardRunnerState()
    for name, v in variables.items():
        state.set(name, real_value(v, sps))
    error = None
    ctx = r.make_top_level_context(text, state)
    try:
        while not isinstance(ctx, real.WizardTerminationContext):
            ctx = ctx.exec()
    except Exception as ex:
        error = [real.error_kind(ex), real.error_pos(ex), getattr(ex, "index", None)]
    return {"error": error, "events": r.the_events, "state": real.norm_state(ctx.state)}


def check(stmts, variables, profile="std", positions=True):
    """Compares; returns the error kind or None."""
    files = PROFILES[profile] if isinstance(profile, str) else profile
    text = lang.render(stmts)
    exp = plain(expected(stmts, variables, files))
    got = plain(actual(text, variables, files))
    where = f"{text}\nwith {variables}"
    ee, ge = exp["error"], got["error"]
    expect("error", ee and ee[0], ge and ge[0], where)
    expect("callbacks", exp["events"], got["events"], where)
    for k in exp["state"]:
        expect(k, exp["state"][k], got["state"][k], where)
    if ee is not None and positions:
        if ee[1] is not None and ge[1] is not None:
            expect("line and column of the error", ee[1], ge[1], where)
        if ee[0] == "index" and ee[2] is not None:
            expect("index of the error", ee[2], ge[2], where)
    return ee and ee[0]
