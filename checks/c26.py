"""The ways to drive an execution, and exec_until() with generated targets."""

from lib import gen, lang, real, ref
from lib.common import PROFILES, Discard, Violation
from lib.diff import expect, plain

import wizard.contexts as contexts

ID = "C26"
RULE = (
    "a case is a program, sets of target types for exec_until() and choices; it is trivial"
    " when the targets are never met"
)
QUICK = 2600
THOROUGH = 80_000
STEPS = 400
FUEL = 2_000_000

STMTS = {
    "set": 4, "cset": 3, "inc": 2, "note": 4, "if": 4, "for": 4, "forin": 3, "while": 3,
    "selectone": 4, "selectmany": 4, "decide": 1, "break": 2, "continue": 2, "exec": 3, "kw": 6,
    "ini": 2, "req": 2, "call": 2, "cancel": 1, "return": 1,
}  # fmt: skip

TYPES = [n for n in contexts.__all__ if n.endswith("Context")]
COMMON = [
    "WizardSelectOneContext", "WizardSelectManyContext", "WizardKeywordContext",
    "WizardNoteContext", "WizardForLoopContext", "WizardBodyContext", "WizardIfContext",
    "WizardAssignmentContext", "WizardRequireVersionsContext", "WizardSelectContext",
    "WizardWhileLoopContext", "WizardTopLevelContext", "WizardInterpreterContext",
    "WizardSelectCasesContext", "WizardCaseContext", "WizardTerminationContext",
]  # fmt: skip


def build(s):
    targets = []
    for _ in range(s.pick([1, 1, 2, 3])):
        pool = COMMON if s.below(4) else TYPES
        targets.append([s.pick(pool) for _ in range(s.pick([2, 1, 3, 4, 6, 0]))])
    dec = gen.decisions(s, 4)
    g = gen.Gen(s, stmts=STMTS, depth=1, effects=10, fault=s.pick([0, 0, 0, 1]))
    return {
        "prog": g.program(2, 6, s.pick([1, 2, 2, 3])),
        "dec": dec,
        "targets": targets,
        "as_tuple": s.flag(),
    }


def case():
    return gen.cases(build, 240)


def names(c, i):
    return c["targets"][i % len(c["targets"])]


def classes(c, i):
    res = [getattr(contexts, n) for n in names(c, i)]
    return tuple(res) if c["as_tuple"] else res


def is_end(ctx):
    return isinstance(ctx, real.WizardTerminationContext)


def look(ctx):
    start = ctx.context.start
    place = [start.line, start.column] if start is not None else None
    return plain([type(ctx).__name__, place, real.norm_state(ctx.state)])


class Driver:
    """
    Drives an execution up to its end: the selects that are targets are answered with the
    choices, the others are left to their defaults.
    """

    def __init__(self, c, interp, text, recorder, state=None):
        self.c = c
        self.interp = interp
        self.recorder = recorder  # has the_events
        self.dec = list(c["dec"]) or [0]
        self.answers = 0
        self.asked = []  # of each select: was it answered
        self.stops = []
        self.stop = 0
        self.error = None
        if state is None:
            self.ctx = interp.make_top_level_context(text)
        else:
            self.ctx = interp.make_top_level_context(text, state)

    def answer(self):
        d = self.dec[self.answers % len(self.dec)]
        self.answers += 1
        return d

    def finish(self):
        """Status, state and error."""
        state = plain(real.norm_state(self.ctx.state))
        if self.error is not None:
            return ["ERROR", real.error_kind(self.error), str(self.error), state]
        ctx = self.ctx
        end = "CANCEL" if ctx.is_cancel() else "RETURN" if ctx.is_return() else "COMPLETE"
        return [end, ctx.message() if end == "CANCEL" else None, None, state]

    def single(self):
        """One at a time; gives all of the contexts, and the stops exec_until() has."""
        trace = [self.ctx]
        where = []
        n = 0
        fresh = True  # may stop there
        while not is_end(self.ctx):
            n += 1
            if n > STEPS:
                raise Discard("steps")
            hit = isinstance(self.ctx, tuple(classes(self.c, self.stop)))
            if hit and fresh:
                where.append(len(trace) - 1)
                self.stop += 1
            ask = real.is_ask(self.ctx)
            if ask:
                self.asked.append(hit and fresh)
            try:
                if ask and hit and fresh:
                    if not list(self.ctx.options):
                        raise Discard("no options")
                    self.ctx = real.step(self.ctx, self.answer())
                else:
                    self.ctx = real.execute(self.ctx)
            except Discard:
                raise
            except Exception as ex:
                self.error = ex
                break
            trace.append(self.ctx)
        return trace, where

    def until(self, check):
        """With exec_until()."""
        n = 0
        while True:
            targets = classes(self.c, self.stop)
            try:
                ctx = self.interp.exec_until(self.ctx, targets)
            except Exception as ex:
                self.error = ex
                return
            self.ctx = ctx
            again = self.interp.exec_until(ctx, targets)
            if again is not ctx:
                raise Violation("exec_until() from where it stopped does not return at once")
            if is_end(ctx):
                return
            check(n, ctx)
            n += 1
            self.stop += 1
            try:
                if real.is_ask(ctx):
                    self.ctx = real.step(ctx, self.answer())
                else:
                    self.ctx = real.execute(ctx)
            except Exception as ex:
                self.error = ex
                return


class Answers(ref.Handler):
    """Answers some of the selects, and takes the defaults of the others."""

    def __init__(self, dec, asked):
        super().__init__(dec)
        self.asked = asked
        self.i = 0

    def select(self, interp, kind, desc, options, defaults):
        mine = self.i < len(self.asked) and self.asked[self.i]
        self.i += 1
        if mine:
            return super().select(interp, kind, desc, options, defaults)
        return [defaults[0]] if kind == "One" else list(defaults)


def run(c):
    files = PROFILES["std"]
    text = lang.render(c["prog"])
    labels = set()

    # One at a time
    r = real.make_runner(files, ref.Handler())
    one = Driver(c, r, text, r)
    r.the_events = []
    trace, where = one.single()
    outcome, _ = ref.run(
        c["prog"], files, fuel=2500, handler=Answers(c["dec"], one.asked)
    )
    events = plain(r.the_events)
    end = one.finish()
    labels.add("status:" + end[0])

    # exec_until(), with the same targets
    r2 = real.make_runner(files, ref.Handler())
    two = Driver(c, r2, text, r2)
    stops = []

    def check(n, ctx):
        at = f"{text}\ntargets: {c['targets']}"
        if n >= len(where):
            raise Violation(f"exec_until() stops {n + 1} times, at {look(ctx)}\n{at}")
        expect(f"stop {n} of exec_until()", look(trace[where[n]]), look(ctx), at)
        stops.append(type(ctx).__name__)

    two.until(check)
    expect("stops of exec_until()", len(where), len(stops), text)
    if two.error is None:
        expect("end with exec_until()", end, two.finish(), text)
    else:
        # The context is the one the last exec_until() started from
        expect("error with exec_until()", end[:3], two.finish()[:3], text)
    expect("callbacks with exec_until()", events, plain(r2.the_events), text)
    labels.update("stop " + n for n in stops)

    # run(), with the same answers
    r3 = real.make_runner(files, Answers(c["dec"], one.asked))
    got = real.run_on(r3, text)
    expect("status of run()", end[0], got["status"], text)
    expect("state of run()", end[3], plain(got["state"]), text)
    if got["status"] == "ERROR":
        expect("error of run()", end[2], str(got["exception"]), text)
    shown = [e for e in plain(got["events"]) if e[0] in ("warn", "mgr", "req")]
    expect("callbacks of run()", events, shown, text)
    asks = [e for e in got["events"] if e[0] in ("One", "Many")]
    expect("number of selects", len(one.asked), len(asks), text)

    # As the reference interpreter does
    expect("status", outcome["status"], end[0], text)
    expect("state", plain(outcome["state"]), end[3], text)

    # The interpreter made from the runner factory
    queries, quiet = real.Queries(), real.Quiet()
    interp = real.WizardInterpreter(
        real.make_runner_context_factory(real.packages(files), queries, quiet)
    )
    four = Driver(c, interp, text, None, real.WizardRunnerState())
    trace4, _ = four.single()
    expect("end with the runner factory", end, four.finish(), text)
    expect(
        "contexts with the runner factory",
        [look(x)[:2] for x in trace],
        [look(x)[:2] for x in trace4],
        text,
    )
    expect(
        "queries with the runner factory",
        [e for e in events if e[0] == "mgr"],
        plain(queries.the_events),
        text,
    )
    expect("warnings", sum(e[0] == "warn" for e in events), quiet.the_warnings, text)

    # The basic one, if there is nothing for a manager
    if not any(e[0] == "mgr" for e in events) and "missing" not in str(end[1]):
        basic = real.WizardInterpreter(
            real.make_basic_context_factory(real.packages(files), real.Quiet())
        )
        five = Driver(c, basic, text, None)
        trace5, _ = five.single()
        # It does not know the functions of the manager
        e = five.error
        if e is None or real.error_kind(e) != "name" or str(e) == end[2]:
            labels.add("basic")
            got5 = five.finish()
            expect("end with the basic factory", end[:2], got5[:2], text)
            expect("variables with the basic factory", end[3]["vars"], got5[3]["vars"], text)
            expect(
                "contexts with the basic factory",
                [look(x)[:2] for x in trace],
                [look(x)[:2] for x in trace5],
                text,
            )
    if not where:
        labels.add("trivial")
    return sorted(labels)


def show(c):
    return f"{c['targets']} {c['dec']}\n" + lang.render(c["prog"])
