"""Severities of the issues, over histories of settings and runs of several interpreters."""

from lib import diff, gen, lang, real, ref
from lib.common import ISSUES, PROFILES, SEVERITIES, Violation
from lib.diff import expect, plain

ID = "C17"
RULE = (
    "a case is a history of severity settings and of runs on several interpreters; it is"
    " trivial when no issue is met"
)
QUICK = 5000
THOROUGH = 120_000

STMTS = {
    "set": 4, "cset": 2, "inc": 1, "note": 5, "if": 3, "for": 2, "forin": 2, "while": 1,
    "selectone": 5, "selectmany": 2, "break": 1, "continue": 1, "exec": 1, "kw": 7,
    "ini": 1, "req": 1, "call": 4, "cancel": 0, "return": 1,
}  # fmt: skip
ALL_ISSUES = list(ISSUES) + ["USAGE_OF_NON_STRING_CASE_LABELS"]


class Issues(gen.Gen):
    def kw_stmt(self):
        s = self.s
        if s.below(3):
            return super().kw_stmt()
        k = s.below(5)
        if k < 3:
            e = ["str", s.pick(["Missing", "main.esp", "00 core!", ""])]
            return ["kw", "SelectSubPackage", [e]]
        return ["kw", s.pick(["SelectPlugin", "SelectEspm"]), [["str", s.pick(["no.esp", "00 Core"])]]]

    def s_note(self, d):
        if self.s.below(3) == 2:
            return [["kw", "Note", [self.expr(self.s.pick([gen.INT, gen.BOOL, gen.FLOAT]), 1)]]]
        return super().s_note(d)

    def s_selectone(self, d):
        res = super().s_selectone(d)
        if self.s.flag():
            for o in res[0][3]:
                if o[0][0] == "str" and o[0][1][:1] != "|":
                    o[0] = ["str", "|" + o[0][1]]
        return res


def setting(s, n):
    """A change of the settings of one of the n interpreters."""
    who = s.below(n)
    if s.below(4) == 3:
        return ["default", who, s.pick(SEVERITIES)]
    return ["set", who, s.pick(ALL_ISSUES), s.pick(SEVERITIES)]


def build(s):
    kinds = [s.pick(["runner", "runner", "factory"]) for _ in range(s.pick([2, 1, 3]))]
    ops = []
    for _ in range(s.between(1, 6)):
        k = s.below(10)
        if k < 5:
            ops.append(setting(s, len(kinds)))
        elif k == 5:
            ops.append(["direct", s.below(len(kinds)), s.pick(ALL_ISSUES)])
        elif k == 6 and len(kinds) < 4:
            kinds.append(s.pick(["runner", "factory"]))
            ops.append(["new", len(kinds) - 1])
        else:
            ops.append(["run", s.below(len(kinds))])
    ops.append(["run", s.below(len(kinds))])
    during = [
        [s.below(6), setting(s, len(kinds))] for _ in range(s.pick([0, 0, 1, 2, 3]))
    ]
    dec = gen.decisions(s, 2)
    g = Issues(s, stmts=STMTS, depth=1, unset=35, query=5)
    prog = g.program(1, 5, s.pick([1, 2, 2]))
    return {"prog": prog, "kinds": kinds, "ops": ops, "during": during, "dec": dec}


def case():
    return gen.cases(build, 220)


class User(ref.Handler):
    """Changes settings at given callbacks."""

    def __init__(self, dec, during, change):
        super().__init__(dec)
        self.during = during
        self.change = change
        self.calls = 0
        self.changed = 0

    def called(self, interp):
        n = self.calls
        self.calls += 1
        for at, op in self.during:
            if at == n:
                self.changed += 1
                self.change(op, interp)

    def query(self, interp, method, values):
        self.called(interp)

    def warned(self, interp):
        self.called(interp)

    def select(self, interp, kind, desc, options, defaults):
        self.called(interp)
        return super().select(interp, kind, desc, options, defaults)


class Settings:
    """Reference of the settings of an interpreter."""

    def __init__(self):
        self.default = "WARNING"
        self.sev = {}

    def apply(self, op):
        if op[0] == "default":
            self.default = op[2]
        else:
            self.sev[op[2]] = op[3]


def set_real(sc, op):
    if op[0] == "default":
        sc.set_default_severity(real.Severity[op[2]])
    else:
        sc.set_severity(real.Issue[op[2]], real.Severity[op[3]])


def by_factory(sc, script, dec):
    """Run on a context factory, gives an outcome, with a single kind of events."""
    manager = real.Queries()
    subpackages = real.packages(PROFILES["std"])
    factory = real.make_runner_context_factory(subpackages, manager, sc)
    interpreter = real.WizardInterpreter(factory)
    before = sc.the_warnings
    ctx = interpreter.make_top_level_context(script, real.WizardRunnerState())
    status = error = None
    handler = ref.Handler(dec)
    steps = 0
    while status is None:
        if isinstance(ctx, real.WizardTerminationContext):
            status = (
                "CANCEL" if ctx.is_cancel() else "RETURN" if ctx.is_return() else "COMPLETE"
            )
            break
        steps += 1
        if steps > 3000:
            raise Violation("too many steps\n" + script)
        state = ctx.state
        d = 0
        if real.is_ask(ctx):
            d = handler.dec[handler.n % len(handler.dec)]
            handler.n += 1
        try:
            ctx = real.step(ctx, d)
        except Exception as ex:
            status = "ERROR"
            error = [real.error_kind(ex)]
    return {
        "status": status,
        "state": real.norm_state(ctx.state if error is None else state),
        "error": error,
        "queries": manager.the_events,
        "warnings": sc.the_warnings - before,
    }


def run(c):
    files = PROFILES["std"]
    text = lang.render(c["prog"])
    models = [None] * len(c["kinds"])
    reals = [None] * len(c["kinds"])
    new = {op[1] for op in c["ops"] if op[0] == "new"}

    def make(i):
        models[i] = Settings()
        reals[i] = (
            real.make_runner(files, None) if c["kinds"][i] == "runner" else real.Quiet()
        )

    for i in range(len(c["kinds"])):
        if i not in new:
            make(i)
    labels = set()
    issues = 0
    for n, op in enumerate(c["ops"]):
        where = f"operation {n} of {c['ops']}, {c['kinds']}, during: {c['during']}\n{text}"
        if op[0] == "new":
            make(op[1])
            continue
        if models[op[1]] is None:
            continue
        model, sc = models[op[1]], reals[op[1]]
        if op[0] in ("default", "set"):
            model.apply(op)
            set_real(sc, op)
        elif op[0] == "direct":
            issues += direct(c, model, sc, op[2], where)
            labels.add("direct")
        elif op[0] == "run":
            is_runner = c["kinds"][op[1]] == "runner"
            during = c["during"] if is_runner else []

            def change_ref(op, interp):
                if models[op[1]] is None:
                    return
                models[op[1]].apply(op)
                if models[op[1]] is model:
                    interp.sev, interp.default_sev = dict(model.sev), model.default

            def change_real(op, interp):
                if models[op[1]] is not None:
                    set_real(reals[op[1]], op)

            if is_runner and during:
                # Unaltered by the rest of the history, as the order of the changes
                # is the same on both sides
                labels.add("changes during the run")
            user = User(c["dec"], during, change_ref)
            expected, it = ref.run(
                c["prog"], files, model.sev, model.default, fuel=1500, handler=user
            )
            issues += it.stats.get("issue", 0)
            labels.add("status:" + expected["status"])
            if expected["error"]:
                labels.add("error:" + expected["error"][0])
                issues += expected["error"][0] != "other"
            if is_runner:
                sc.the_handler = User(c["dec"], during, change_real)
                diff.compare(expected, real.run_on(sc, text), where)
                if user.changed:
                    labels.add("changed during the run")
                continue
            got = by_factory(sc, text, c["dec"])
            events = plain(expected["events"])
            warned = sum(e == ["warn"] for e in events)
            expect("warnings", warned, got["warnings"], where)
            queries = [e for e in events if e[0] == "mgr"]
            expect("queries", queries, plain(got["queries"]), where)
            expect("status", expected["status"], got["status"], where)
            if expected["error"]:
                expect("error", [expected["error"][0]], got["error"], where)
            for k in expected["state"]:
                expect(k, plain(expected["state"][k]), plain(got["state"][k]), where)
            labels.add("factory")
    labels.add(f"{min(issues, 8)} issues")
    if not issues:
        labels.add("trivial")
    return sorted(labels)


def direct(c, model, sc, issue, where):
    """raise_or_warn() itself."""
    severity = model.sev.get(issue, model.default)

    class Mine(Exception):
        pass

    exc = Mine("mine")
    seen = []
    sc.warning, before = seen.append, sc.__dict__.get("warning")
    raised = None
    try:
        sc.raise_or_warn(real.Issue[issue], exc, "the text")
    except Mine as ex:
        raised = ex
    finally:
        del sc.warning
        if before is not None:
            sc.warning = before
    expect("raised", exc if severity == "ERROR" else None, raised, where)
    expect("warned", ["the text"] if severity == "WARNING" else [], seen, where)
    return severity != "ALLOW"


def show(c):
    return f"{c['kinds']} {c['ops']} during {c['during']}\n" + lang.render(c["prog"])
