"""Functions, methods, keyword visitors and states given by the host."""

from lib import gen, lang, real, ref
from lib.common import PROFILES, Discard, h
from lib.diff import expect, plain

from wizard.contexts import WizardInterpreterContextFactory
from wizard.errors import (
    WizardError,
    WizardIndexError,
    WizardNameError,
    WizardParseError,
    WizardUnsupportedOperation,
)
from wizard.expr import WizardExpressionVisitor
from wizard.functions import make_basic_functions
from wizard.keywords import WizardKeywordVisitor

ID = "C29"
RULE = (
    "a case is a program that uses the functions and methods of a host, what the host"
    " replaces, and the choices made; it is trivial when nothing of the host is called"
)
QUICK = 6000
THOROUGH = 150_000
STEPS = 600

STMTS = {
    "set": 4, "cset": 2, "inc": 1, "note": 3, "if": 3, "for": 3, "forin": 3, "while": 2,
    "selectone": 3, "selectmany": 2, "break": 1, "continue": 1, "exec": 3, "kw": 6,
    "ini": 0, "req": 3, "call": 6, "cancel": 1, "return": 1,
}  # fmt: skip

FUNCTIONS = ["HInt", "HStr", "HFloat", "HBool", "HVoid", "HEcho", "HSet", "hint", "Hé"[:1] + "_x"]
FAILING = ["HType", "HIndex", "HName", "HValue"]
METHODS = {
    "string": ["hint", "HStr", "HEcho", "HSet", "HType"],
    "integer": ["hint", "HEcho", "HIndex", "HStr"],
    "float": ["hint", "HVoid"],
    "bool": ["HEcho", "hint", "len"],
    "SubPackage": ["HStr", "hint", "HEcho", "lower"],
    "SubPackage[]": ["hint", "HEcho"],
    "void": ["hint", "HStr"],
}
REPLACED = ["VAny", "VOne", "len", "lower", "find", "float", "startswith", "string.len", "string.lower"]
# Methods of the visitor: name, and the numbers of arguments they take
VISITS = {"VAny": (0, 99), "VOne": (1, 1), "VTwo": (1, 2), "VNone": (0, 0)}


class Boom(Exception):
    """Raised by the host."""


class MyTypeError(TypeError):
    pass


class MyIndexError(IndexError):
    pass


# What the scripts do not know of passes through them
RAISED = [
    Boom, KeyError, lambda: KeyError(7), lambda: ValueError("host"), LookupError,
    AttributeError, RuntimeError, StopIteration, AssertionError, NameError, OSError,
    ArithmeticError, NotImplementedError, EOFError, lambda: Exception("host"),
    lambda: UnicodeError("host"), lambda: RecursionError("host"),
    lambda: WizardUnsupportedOperation(None, "host"), lambda: WizardError(None),
    lambda: WizardParseError(None, "host"),
]  # fmt: skip


def answer(name, args):
    """The outcome of a function of the host: what happens, and its value."""
    x = h(name, args)
    short = name.split(".")[-1]
    if short in ("HInt", "hint", "len", "find", "VAny", "H_x"):
        return "return", x % 23 - 3
    if short in ("HStr", "lower", "VTwo"):
        return "return", ["", "a", "abc", "main.esp", "é", "00 Core"][x % 6]
    if short in ("HFloat", "float"):
        return "return", x % 40 / 4
    if short in ("HBool", "startswith"):
        return "return", bool(x & 8)
    if short in ("HVoid", "VNone"):
        return "return", None
    if short == "HEcho":
        return "echo", None
    if short in ("HSet", "VOne"):
        return "set", x % 10
    return {"HType": "type", "HIndex": "index", "HName": "name", "HValue": "other"}[short], None


# The reference


class State(ref.State):
    def __init__(self):
        super().__init__()
        self.journal = []

    def copy(self):
        s = super().copy()
        s.journal = list(self.journal)
        return s

    def norm(self):
        n = super().norm()
        return {"vars": n["vars"], "journal": list(self.journal)}


class Interp(ref.Interp):
    replaced = ()
    boom = 0

    def __init__(self, *args):
        super().__init__(*args)
        self.state = State()
        self.snap = self.state

    def host(self, node, name, values):
        norms = [ref.norm_value(v) for v in values]
        self.emit(["call", name, norms, self.state.norm()])
        what, value = answer(name, plain(norms))
        if what == "return":
            return ref.VOID if value is None else value
        if what == "echo":
            return values[-1] if values else ref.VOID
        if what == "set":
            self.state.vars["hs"] = values[0] if values else value
            self.state.journal.append([name, value])
            return value
        if what == "index":
            raise self.err("index", node, index=7)
        raise self.err(what, node if what == "type" else None)

    def call(self, node, name, args):
        if name in FUNCTIONS + FAILING or name in self.replaced:
            # One given for the name of a method of the visitor comes before it
            given = "given." + name if name in VISITS else name
            return self.host(node, given, [self.ev(a) for a in args])
        if name in VISITS:
            values = [self.ev(a) for a in args]
            lo, hi = VISITS[name]
            if not lo <= len(values) <= hi:
                raise self.err("type", node)
            return self.host(node, name, values)
        if name in ref.MANAGER or name in ("EditINI", "DisableINILine"):
            raise self.err("name", node)
        return super().call(node, name, args)

    def has_method(self, t, name):
        return name in METHODS[t] or super().has_method(t, name)

    def call_method(self, node, t, name, values):
        if name in METHODS[t] or f"{t}.{name}" in self.replaced:
            return self.host(node, f"{t}.{name}", values)
        return self.call_basic(node, name, values)

    def s_kw(self, s):
        name, lo, hi = ref.KEYWORDS[s[1]]
        args = [self.ev(a) for a in s[2]]
        if not lo <= len(args) <= hi:
            raise self.err("type", s)
        if name == "Note":
            if not isinstance(args[0], str):
                self.issue("USAGE_OF_ANYTHING_IN_NOTE", "type", s)
            args = [ref.f_str(args[0])]
        elif not all(isinstance(a, (str, ref.Sp)) for a in args):
            raise self.err("type", s)
        where = list(self.pos(s))
        if name == "RequireVersions":
            args = [args[0]] + [a or None for a in args[1:]] + [None] * (4 - len(args))
            where = None
            self.new_step()
        norms = [ref.norm_value(a) for a in args]
        self.emit(["visit", name, norms, where, self.state.norm()])
        self.state.vars["kw"] = name
        self.state.journal.append([name, norms])
        if self.boom and h(name, plain(norms)) % self.boom == 0:
            kind = ["type", "index", "other", "name"][h(name, 1) % 4]
            placed = kind != "other" and (kind != "name" or where is not None)
            raise self.err(kind, s if placed else None)


# The host


class HostState(real.WizardInterpreterState):
    def __init__(self, variables={}):
        super().__init__(variables)
        self.journal = []

    def copy(self):
        s = super().copy()
        s.journal = list(self.journal)
        return s


def norm_state(st):
    return {
        "vars": {k: real.norm_value(v) for k, v in sorted(st.variables.items())},
        "journal": plain(st.journal),
    }


class Host(real.SeverityContext):
    def __init__(self):
        super().__init__()
        self.the_events = []
        self.the_raised = None

    def warning(self, text):
        self.the_events.append(["warn"])

    def called(self, name, state, values):
        """A function is called with Values; gives a Value."""
        for v in values:
            expect(f"type of an argument of {name}", "Value", type(v).__name__)
        norms = [real.norm_value(v) for v in values]
        self.the_events.append(["call", name, norms, norm_state(state)])
        what, value = answer(name, plain(norms))
        if what == "return":
            return real.Value(value)
        if what == "echo":
            return values[-1] if values else real.Value(None)
        if what == "set":
            state.set("hs", values[0] if values else real.Value(value))
            state.journal.append([name, value])
            return real.Value(value)
        k = h(name, plain(norms))
        if what == "type":
            raise [TypeError("host"), TypeError(), MyTypeError("host", 1)][k % 3]
        if what == "index":
            raise [IndexError(7), IndexError(), IndexError("a", "b"), MyIndexError(7)][k % 4]
        if what == "name":
            self.the_raised = WizardNameError(None, "host")
        else:
            self.the_raised = RAISED[k % len(RAISED)]()
        raise self.the_raised

    def function(self, name):
        def fn(state, values):
            return self.called(name, state, values)

        return fn


class Expressions(WizardExpressionVisitor):
    the_host: Host

    def visitVAny(self, state, *values):
        return self.host("VAny", state, values)

    def visitVOne(self, state, value):
        return self.host("VOne", state, [value])

    def visitVTwo(self, state, value, other=None):
        return self.host("VTwo", state, [value] + ([other] if other is not None else []))

    def visitVNone(self, state):
        return self.host("VNone", state, [])

    def host(self, name, state, values):
        for v in values:
            expect("a plain argument", False, isinstance(v, real.Value))
        res = self.the_host.called(name, state, [real.Value(v) for v in values])
        return None if res.is_void() else res.value


class Keywords(WizardKeywordVisitor):
    the_host: Host
    boom = 0

    def visitRequireVersions(self, state, *args, **kwargs):
        names = (
            "game_version", "script_extender_version", "graphics_extender_version",
            "wrye_bash_version",
        )  # fmt: skip
        args = list(args) + [kwargs[k] for k in names if k in kwargs]
        self.visited("RequireVersions", None, state, args)

    def visited(self, name, context, state, args):
        where = None
        if context is not None:
            where = [context.context.start.line, context.context.start.column]
        norms = [real.norm_value(a) for a in args]
        self.the_host.the_events.append(["visit", name, norms, where, norm_state(state)])
        state.set("kw", real.Value(name))
        state.journal.append([name, norms])
        if self.boom and h(name, plain(norms)) % self.boom == 0:
            k = h(name, 1) % 4
            if k == 0:
                raise TypeError("host")
            if k == 1:
                raise IndexError(3)
            if k == 2:
                raised = RAISED[h(name, plain(norms)) // 7 % len(RAISED)]()
            else:
                raised = WizardNameError(context.context if context else None, "host")
            self.the_host.the_raised = raised
            raise raised


def _visit(name):
    def method(self, context, state, *args):
        self.visited(name, context, state, args)

    return method


for _name in sorted(set(v[0] for v in ref.KEYWORDS.values())):
    if _name != "RequireVersions":
        setattr(Keywords, "visit" + _name, _visit(_name))


class Programs(gen.Gen):
    def host_call(self, d):
        s = self.s
        k = s.below(12)
        if k < 5:
            name = s.pick(FUNCTIONS)
        elif k < 8:
            name = s.pick(sorted(VISITS))
        elif k == 8 and s.below(3) == 2:
            name = s.pick(FAILING)
        elif k < 11:
            return self.method(d)
        else:
            name = s.pick(FUNCTIONS)
        lo, hi = VISITS.get(name, (0, 3))
        if not s.chance(6):
            hi = min(hi, 3)
        else:
            hi = 3
            lo = 0
        return ["call", name, [self.thing(d) for _ in range(s.between(lo, hi))]]

    def thing(self, d):
        s = self.s
        k = s.below(10)
        if k == 9:
            return ["sps"]
        if k == 8 and self.sp_vars:
            return ["var", s.pick(self.sp_vars)]
        if k == 7 and d > 0:
            return self.host_call(d - 1)
        return self.any(min(d, 1))

    def method(self, d):
        s = self.s
        t = s.pick(sorted(METHODS))
        if t == "SubPackage":
            e = ["idx", ["sps"], ["int", s.below(4)]]
        elif t == "SubPackage[]":
            e = ["sps"]
        elif t == "void":
            e = ["call", "HVoid", []]
        else:
            e = self.expr({"string": gen.STR, "integer": gen.INT, "float": gen.FLOAT, "bool": gen.BOOL}[t], min(d, 1))
        name = s.pick(METHODS[t]) if s.below(12) else s.pick(["nope", "hint", "len", "str"])
        return ["meth", e, name, [self.thing(d - 1) for _ in range(s.pick([0, 0, 1, 2]))]]

    def s_call(self, d):
        return [["expr", self.host_call(2)]]

    def s_set(self, d):
        if self.s.below(3) == 2:
            return [["set", self.s.pick(["m", "n"]), self.host_call(2)]]
        return super().s_set(d)

    def e_int(self, d):
        if not self.pure and self.s.chance(12):
            return ["call", self.s.pick(["HInt", "hint"]), [self.any(0)]]
        return super().e_int(d)

    def e_str(self, d):
        s = self.s
        if not self.pure and s.chance(12):
            if s.flag():
                return ["meth", self.expr(gen.STR, 0), "HStr", []]
            return ["call", "HStr", [self.any(0)]]
        return super().e_str(d)


def build(s):
    dec = gen.decisions(s, 4)
    replaced = [s.pick(REPLACED) for _ in range(s.pick([0, 0, 1, 2, 3]))]
    boom = s.pick([0, 0, 0, 7])
    again = s.below(4)
    sev = {i: s.pick(["ALLOW", "ERROR"]) for i in ["USAGE_OF_ANYTHING_IN_NOTE", "USAGE_OF_NOTSET_VARIABLES"] if s.below(5) == 4}
    g = Programs(s, stmts=STMTS, depth=1, effects=12, query=0, fault=s.pick([0, 0, 0, 1]))
    return {
        "prog": g.program(2, 7, s.pick([1, 2, 2, 3])),
        "dec": dec,
        "replaced": sorted(set(replaced)),
        "boom": boom,
        "again": again,
        "sev": sev,
    }


def case():
    return gen.cases(build, 260)


def run(c):
    files = PROFILES["std"]
    text = lang.render(c["prog"])
    where = f"{text}\nreplaced: {c['replaced']} boom: {c['boom']}"
    model = type("Model", (Interp,), {"replaced": c["replaced"], "boom": c["boom"]})
    outcome, it = ref.run(
        c["prog"], files, c["sev"], fuel=1500, handler=ref.Handler(c["dec"]), cls=model
    )
    expected = [e for e in plain(outcome["events"]) if e[0] in ("call", "visit", "warn")]

    host = Host()
    real.set_severities(host, c["sev"])
    functions = make_basic_functions()
    for name in FUNCTIONS + FAILING + c["replaced"]:
        functions[name] = host.function("given." + name if name in VISITS else name)
    for t, names in METHODS.items():
        for name in names:
            functions[f"{t}.{name}"] = host.function(f"{t}.{name}")
    sps = real.packages(files)
    evisitor = Expressions(sps, functions, host)
    evisitor.the_host = host
    kvisitor = Keywords(host)
    kvisitor.the_host = host
    kvisitor.boom = c["boom"]
    interp = real.WizardInterpreter(
        WizardInterpreterContextFactory(evisitor, kvisitor, host)
    )
    ctx = interp.make_top_level_context(text, HostState())
    dec = list(c["dec"]) or [0]
    n = steps = 0
    error = None
    while not isinstance(ctx, real.WizardTerminationContext):
        steps += 1
        if steps > STEPS:
            raise Discard("steps")
        before = norm_state(ctx.state)
        if c["again"] and steps % c["again"] == 0 and not real.is_ask(ctx):
            # For nothing: the functions are called, the contexts stay as they are
            k = len(host.the_events)
            try:
                ctx.exec()
            except Exception:
                pass
            del host.the_events[k:]
            host.the_raised = None
            expect("state after an execution", before, norm_state(ctx.state), where)
        try:
            if real.is_ask(ctx):
                ctx = real.step(ctx, dec[n % len(dec)])
                n += 1
            else:
                ctx = real.execute(ctx)
        except Discard:
            raise
        except Exception as ex:
            if type(ex).__name__ == "Violation":
                raise
            error = ex
            break
    got = plain(host.the_events)
    for i, (a, b) in enumerate(zip(expected, got)):
        expect(f"event {i}", a, b, where)
    expect("events", expected[len(got) :], got[len(expected) :], where)
    state = norm_state(ctx.state)
    expect("state", plain(outcome["state"]), plain(state), where)
    expect("class of the state", "HostState", type(ctx.state).__name__, where)
    labels = set()
    if error is None:
        status = "CANCEL" if ctx.is_cancel() else "RETURN" if ctx.is_return() else "COMPLETE"
        expect("status", outcome["status"], status, where)
        labels.add("status:" + status)
    else:
        kind = real.error_kind(error)
        exp = outcome["error"]
        if host.the_raised is not None and kind not in ("name", "other"):
            kind = "other"  # a wizard error of the host
        expect("error", exp and exp[0], kind, f"{where}\n{error!r}")
        pos = real.error_pos(error)
        if exp[1] is not None and pos is not None and pos[0] is not None:
            expect("place of the error", list(exp[1]), list(pos), where)
        if host.the_raised is not None:
            expect("the exception of the host", True, error is host.the_raised, where)
            labels.add(f"error of the host: {type(error).__name__}")
        elif isinstance(error, WizardIndexError) and expected and error.index == 7:
            labels.add("index error of the host")
        labels.add("error:" + kind)
    names = {e[1] for e in expected if e[0] != "warn"}
    labels.update(names)
    if not names:
        labels.add("trivial")
    return sorted(labels)


def show(c):
    return f"{c['dec']} {c['replaced']} {c['boom']}\n" + lang.render(c["prog"])
