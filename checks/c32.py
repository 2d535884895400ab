"""Context factories and contexts of the host."""

from lib import gen, lang, real, ref
from lib.common import PROFILES, Discard
from lib.diff import expect, plain

from wizard.contexts import WizardInterpreterContextFactory, WizardTopLevelContext
from wizard.functions import make_basic_functions, make_manager_functions
from wizard.runner import WizardRunnerExpressionVisitor, WizardRunnerKeywordVisitor

ID = "C32"
RULE = (
    "a case is a program, the choices made, and the kinds of statements that the factory of"
    " the host leaves out; it is trivial when fewer than four contexts are executed"
)
QUICK = 5000
THOROUGH = 120_000
STEPS = 600

STMTS = {
    "set": 5, "cset": 3, "inc": 2, "note": 3, "if": 4, "for": 4, "forin": 3, "while": 3,
    "selectone": 4, "selectmany": 4, "break": 4, "continue": 3, "exec": 5, "kw": 5,
    "ini": 1, "req": 2, "call": 2, "cancel": 2, "return": 1,
}  # fmt: skip

# Statements by method of the factory
GROUPS = {
    "set": "assignment", "cset": "compound_assignment", "if": "if", "for": "for_loop",
    "forin": "for_loop", "while": "while_loop", "select": "select", "break": "break",
    "continue": "continue", "cancel": "cancel", "return": "return", "kw": "keyword",
    "exec": "exec", "execset": "exec", "execexpr": "exec",
}  # fmt: skip
COUNTED = ("assignment", "compound_assignment", "keyword", "break")
NAMES = sorted(
    n
    for n in dir(WizardInterpreterContextFactory)
    if n.startswith("make_") and n.endswith("_context")
)
HITS = "the_hits"


# The reference


class Interp(ref.Interp):
    skip = ()

    def hit(self):
        self.state.vars[HITS] = self.state.vars.get(HITS, 0) + 1

    def stmt(self, s):
        group = GROUPS.get(s[0])
        if s[0] == "exec" and isinstance(s[2], list) and s[2][0] == "var":
            raise Discard("two statements")
        if group in self.skip:
            self.count("left out: " + group)
            return
        if group == "break" and self.breakable:
            self.hit()
        super().stmt(s)
        if group in COUNTED and group != "break":
            self.hit()

    def s_execset(self, s):
        if "assignment" not in self.skip:
            super().s_execset(s)
            self.hit()
            return
        if not isinstance(self.ev(s[2]), int):
            raise Discard("execset")


# The host


class Factory(WizardInterpreterContextFactory):
    """Makes contexts of its own, that log what they do."""

    skip = ()

    def start(self):
        self.made = 0
        self.copies = 0
        self.log = []
        self.classes = {}
        return self

    def mine(self, cls):
        """The class of the host for a class of contexts."""
        if cls not in self.classes:
            factory = self

            class Mine(cls):
                the_tag = None

                def exec_(self):
                    group = self.the_tag[1]
                    factory.log.append(self.the_tag)
                    res = super().exec_()
                    if group in COUNTED:
                        # Something more of the statement
                        n = res.state.variables.get(HITS, real.Value(0)).value
                        res.state.set(HITS, real.Value(n + 1))
                    return res

            self.classes[cls] = Mine
        return self.classes[cls]

    def copy_context(self, context, *args, **kwargs):
        self.copies += 1
        res = super().copy_context(context, *args, **kwargs)
        expect("class of a copy", True, type(res) is type(context))
        expect("what a copy holds", True, tag(res) is tag(context))
        # Copies made otherwise do not have it
        res.the_self = res
        return res


def tag(ctx):
    return getattr(ctx, "the_tag", None)


def _make(name):
    group = name[len("make_") : -len("_context")]

    def make(self, *args, **kwargs):
        # The parent is the last one
        if group in self.skip:
            return args[-1] if args else kwargs["parent"]
        res = getattr(super(Factory, self), name)(*args, **kwargs)
        self.made += 1
        res.the_self = res
        if tag(res) is None:
            res.__class__ = self.mine(type(res))
            res.the_tag = [self.made, group, place(res)]
        return res

    return make


for _name in NAMES:
    setattr(Factory, _name, _make(_name))


def place(ctx):
    start = ctx.context.start
    return [start.line, start.column] if start is not None else None


def build(s):
    dec = gen.decisions(s, 4)
    groups = sorted(set(GROUPS.values()))
    few = [g for g in groups if g != "assignment"]
    skip = [s.pick(few if s.below(6) else groups) for _ in range(s.pick([0, 0, 1, 1, 2, 4]))]
    g = gen.Gen(s, stmts=STMTS, depth=1, effects=12, fault=s.pick([0, 0, 0, 1]))
    return {
        "prog": g.program(2, 7, s.pick([1, 2, 2, 3])),
        "dec": dec,
        "skip": sorted(set(skip)),
    }


def case():
    return gen.cases(build, 260)


def run(c):
    files = PROFILES["std"]
    text = lang.render(c["prog"])
    where = f"{text}\nleft out: {c['skip']}"
    model = type("Model", (Interp,), {"skip": c["skip"]})
    outcome, it = ref.run(
        c["prog"], files, fuel=1500, handler=ref.Handler(c["dec"]), cls=model
    )

    sps, queries, quiet = real.packages(files), real.Queries(), real.Quiet()
    functions = make_basic_functions()
    functions.update(make_manager_functions(queries, quiet))
    factory = Factory(
        WizardRunnerExpressionVisitor(sps, functions, quiet),
        WizardRunnerKeywordVisitor(sps, quiet),
        quiet,
    ).start()
    factory.skip = c["skip"]
    interp = real.WizardInterpreter(factory)
    ctx = interp.make_top_level_context(text, real.WizardRunnerState())

    labels = set(x for x in it.stats if x.startswith("left out"))
    dec = list(c["dec"]) or [0]
    n = steps = 0
    error = None
    trace = []
    while not isinstance(ctx, real.WizardTerminationContext):
        steps += 1
        if steps > STEPS:
            raise Discard("steps")
        check(factory, ctx, where)
        if tag(ctx) is not None:
            trace.append(tag(ctx))
            labels.add(tag(ctx)[1])
        try:
            if real.is_ask(ctx):
                ctx = real.step(ctx, dec[n % len(dec)])
                n += 1
            else:
                ctx = real.execute(ctx)
        except Discard:
            raise
        except Exception as ex:
            error = ex
            break
    if error is None:
        expect("the termination is of the host", "termination", (tag(ctx) or [0, None])[1], where)
        status = "CANCEL" if ctx.is_cancel() else "RETURN" if ctx.is_return() else "COMPLETE"
    else:
        status = "ERROR"
    # Each of them was executed, once each time
    expect("executed contexts", trace, factory.log, where)
    expect("status", outcome["status"], status, where)
    if error is not None:
        expect("error", outcome["error"][0], real.error_kind(error), f"{where}\n{error!r}")
    expect("state", plain(outcome["state"]), plain(real.norm_state(ctx.state)), where)
    events = plain(outcome["events"])
    expect("queries", [e for e in events if e[0] == "mgr"], plain(queries.the_events), where)
    expect("warnings", sum(e[0] == "warn" for e in events), quiet.the_warnings, where)
    labels.add("status:" + status)
    if len(trace) < 4:
        labels.add("trivial")
    return sorted(labels)


def check(factory, ctx, where):
    """A context and those around it are of the host."""
    depth = 0
    while True:
        if not isinstance(ctx, WizardTopLevelContext):
            expect("made by the factory", True, tag(ctx) is not None, f"{where}\n{type(ctx)}")
            expect("its place", tag(ctx)[2], place(ctx), where)
            same = ctx.the_self is ctx
            expect("made or copied by the factory", True, same, f"{where}\n{type(ctx)}")
        expect("its factory", True, ctx.factory is factory, where)
        if ctx.is_top_level():
            return
        depth += 1
        if depth > 200:
            raise Discard("deep")
        ctx = ctx.parent


def show(c):
    return f"{c['dec']} {c['skip']}\n" + lang.render(c["prog"])
