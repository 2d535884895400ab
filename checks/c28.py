"""The contexts of an execution, one by one: what each tells of where the script is."""

from lib import gen, lang, real, ref
from lib.common import PROFILES, Discard
from lib.diff import expect, plain

ID = "C28"
RULE = (
    "a case is a program and the choices made; it is trivial when fewer than four"
    " statements are executed"
)
QUICK = 6000
THOROUGH = 150_000
STEPS = 600

STMTS = {
    "set": 5, "cset": 3, "inc": 1, "note": 3, "if": 4, "for": 5, "forin": 3, "while": 3,
    "selectone": 5, "selectmany": 5, "decide": 1, "break": 4, "continue": 3, "exec": 4, "kw": 7,
    "ini": 1, "req": 4, "call": 1, "cancel": 2, "return": 1,
}  # fmt: skip

KINDS = {
    "WizardAssignmentContext": "set",
    "WizardCompoundAssignmentContext": "cset",
    "WizardIfContext": "if",
    "WizardForLoopContext": "for",
    "WizardWhileLoopContext": "while",
    "WizardBreakContext": "break",
    "WizardContinueContext": "continue",
    "WizardReturnContext": "return",
    "WizardCancelContext": "cancel",
    "WizardSelectOneContext": "select",
    "WizardSelectManyContext": "select",
    "WizardCaseContext": "case",
}
for _name in set(v[0] for v in ref.KEYWORDS.values()):
    KINDS[f"Wizard{_name}Context"] = _name
AROUND = {
    "WizardForLoopContext": "for",
    "WizardWhileLoopContext": "while",
    "WizardSelectCasesContext": "select",
}


class Interp(ref.Interp):
    """Records the contexts, as the interpreter should go through them."""

    def at(self, kind, node, *more):
        if kind == "if" and node == lang.NOTHING:
            return
        if kind == "case":
            pos = None
        elif node is None:  # alone in the text of an Exec()
            pos = (1, 0)
        else:
            pos = self.pos(node)
        around = [["for" if k == "forin" else k, p] for k, p in self.enclosing[::-1]]
        if kind == "forin":
            kind = "for"
        if kind == "select":
            kind = "select" + node[1]
            desc, options, defaults = more
            more = [desc, options, [options[i] for i in defaults]]
        if kind == "RequireVersions":
            more = [[norm(v) for v in more[0]]]
        trace = self.__dict__.setdefault("trace", [])
        trace.append([kind, pos, self.state.norm(), around, list(more)])


def norm(v):
    return ref.norm_value(v)


def place(ctx):
    start = ctx.context.start
    return start.line, start.column


def look(ctx, kind):
    """What the context tells."""
    around = []
    c = ctx
    while not c.is_top_level():
        c = c.parent
        name = type(c).__name__
        if name in AROUND:
            around.append([AROUND[name], place(c)])
        if len(around) > 100:
            raise Discard("deep")
    more = []
    if kind == "select":
        one = isinstance(ctx, real.WizardSelectOneContext)
        kind += "One" if one else "Many"
        defaults = [ctx.default] if one else ctx.defaults
        more = [
            ctx.description,
            [real.norm_option(o) for o in ctx.options],
            [real.norm_option(o) for o in defaults],
        ]
    elif kind == "cancel":
        more = [ctx.message()]
    elif kind == "RequireVersions":
        more = [
            [
                real.norm_value(v)
                for v in (
                    ctx.game_version,
                    ctx.script_extender_version,
                    ctx.graphics_extender_version,
                    ctx.wrye_bash_version,
                )
            ]
        ]
    pos = None if kind == "case" else place(ctx)
    return plain([kind, pos, real.norm_state(ctx.state), around, more])


class Where(ref.Handler):
    """Asks the runner where it is, in each of its callbacks."""

    def __init__(self, dec):
        super().__init__(dec)
        self.told = []

    def tell(self, runner, kind):
        self.told.append(look(runner.context(), kind))

    def query(self, runner, method, values):
        if method == "requiresVersions":
            self.tell(runner, "RequireVersions")

    def select(self, runner, kind, desc, options, defaults):
        self.tell(runner, "select")
        return super().select(runner, kind, desc, options, defaults)

    def end(self, runner):
        ctx = runner.context()
        self.told.append(
            [type(ctx).__name__, ctx.is_cancel(), ctx.is_return(), ctx.is_complete()]
        )
        return True

    def cancel(self, runner, aborting=False):
        return self.end(runner)

    def complete(self, runner, end):
        return self.end(runner)

    def error(self, runner):
        c = runner.context()
        name = type(c).__name__
        self.told.append(look(c, KINDS[name]) if name in KINDS else None)


def build(s):
    dec = gen.decisions(s, 5)
    g = gen.Gen(s, stmts=STMTS, depth=1, effects=12, fault=s.pick([0, 0, 0, 1]))
    return {"prog": g.program(2, 7, s.pick([1, 2, 2, 3])), "dec": dec}


def case():
    return gen.cases(build, 260)


def run(c):
    files = PROFILES["std"]
    text = lang.render(c["prog"])
    labels = set()
    outcome, it = ref.run(
        c["prog"], files, fuel=1500, handler=ref.Handler(c["dec"]), cls=Interp
    )
    expected = plain(it.__dict__.get("trace", []))

    r = real.make_runner(files, ref.Handler())
    ctx = r.make_top_level_context(text)
    top = ctx
    expect("the first context is the top", True, ctx.is_top_level(), text)
    dec = list(c["dec"]) or [0]
    n = 0
    got = []
    steps = 0
    error = None
    while not isinstance(ctx, real.WizardTerminationContext):
        steps += 1
        if steps > STEPS:
            raise Discard("steps")
        kind = KINDS.get(type(ctx).__name__)
        if ctx is not top:
            expect("top level", False, ctx.is_top_level(), text)
        expect("the factory is kept", True, ctx.factory is top.factory, text)
        if kind is not None and not (kind == "if" and nothing(ctx)):
            seen = look(ctx, kind)
            at = len(got)
            expect(
                f"context {at}", expected[at] if at < len(expected) else None, seen, text
            )
            got.append(seen)
            labels.add(kind)
            if len(seen[3]) > 1:
                labels.add("nested")
        try:
            if real.is_ask(ctx):
                d = dec[n % len(dec)]
                n += 1

                def chose(new):
                    # Only the choice is different
                    expect("context after select()", seen, look(new, kind), text)
                    expect("context before select()", seen, look(ctx, kind), text)

                ctx = real.step(ctx, d, chose)
            else:
                ctx = real.execute(ctx)
        except Discard:
            raise
        except Exception as ex:
            error = ex
            break
    expect("contexts", expected[len(got) :], [], text)
    # Only these: at most one of them
    if error is None:
        ends = [ctx.is_cancel(), ctx.is_return(), ctx.is_complete()]
        status = ["CANCEL", "RETURN", "COMPLETE"][ends.index(True)]
        expect("ends", 1, sum(ends), text)
    else:
        status = "ERROR"
    expect("status", outcome["status"], status, text)
    labels.add("status:" + status)

    # What the runner tells during its callbacks
    where = Where(c["dec"])
    real.run(text, files, handler=where)
    told = [
        x
        for x in expected
        if x[0] in ("selectOne", "selectMany", "RequireVersions")
    ]
    if status == "ERROR":
        last = where.told.pop()
        # The statement that failed, unless it failed before it began
        if last is not None:
            expect("context in error()", expected[-1], last, text)
            labels.add("in error()")
    else:
        told.append(["WizardTerminationContext"] + ends)
    expect("contexts in the callbacks", told, plain(where.told), text)
    if len(got) < 4:
        labels.add("trivial")
    return sorted(labels)


def nothing(ctx):
    return ctx.context.getText() == "IfFalseEndIf"


def show(c):
    return f"{c['dec']}\n" + lang.render(c["prog"])
