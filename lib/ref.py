"""
Reference interpreter: an independent, direct implementation of the language on the
abstract syntax, used as the oracle.
"""

from pathlib import PurePosixPath

from . import lang
from .common import (
    MAX_BITS,
    Abort,
    Discard,
    Rewind,
    manager_answer,
    pick_many,
    pick_one,
    sized,
)


class Void:
    def __repr__(self):
        return "void"


VOID = Void()


class Sp:
    def __init__(self, name, files):
        self.name = name
        self.files = files
        self.plugins = [
            PurePosixPath(f).name for f in files if f.endswith((".esp", ".esm", ".esl"))
        ]

    def __repr__(self):
        return f"Sp({self.name!r})"


class Sps(list):
    pass


class Err(Exception):
    def __init__(self, kind, pos=None, **extra):
        super().__init__(kind)
        self.kind = kind
        self.pos = pos
        self.extra = extra


class BreakFlow(Exception):
    pass


class ContinueFlow(Exception):
    pass


class EndFlow(Exception):
    def __init__(self, status):
        self.status = status


def is_num(v):
    return isinstance(v, (int, float))


def is_int(v):
    return isinstance(v, int)


def cf(v):
    return (v.name if isinstance(v, Sp) else v).casefold()


def type_name(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "integer"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "string"
    if isinstance(v, Sp):
        return "SubPackage"
    if isinstance(v, Sps):
        return "SubPackage[]"
    return "void"


class OpType(Exception):
    pass


class OpOther(Exception):
    pass


class OpIndex(Exception):
    def __init__(self, i):
        self.i = i


def arith(op, a, b):
    if op == "+" and isinstance(a, str) and isinstance(b, str):
        return sized(a + b)
    if not is_num(a) or not is_num(b):
        raise OpType
    try:
        if op == "+":
            return sized(a + b)
        if op == "-":
            return sized(a - b)
        if op == "*":
            return sized(a * b)
        if op == "/":
            return a / b
        if op == "%":
            return sized(a % b)
        if op == "^":
            if is_int(a) and is_int(b) and b > 0:
                if int(a).bit_length() * b > 3 * MAX_BITS:
                    raise Discard("big number")
            r = a**b
            if isinstance(r, complex):
                raise OpOther
            return sized(r)
    except (ZeroDivisionError, OverflowError) as ex:
        raise OpOther from ex
    raise AssertionError(op)


def op_eq(a, b):
    if isinstance(a, Sp) or isinstance(b, Sp):
        for v in (a, b):
            if not isinstance(v, (Sp, str)):
                raise OpType
        return cf(a) == cf(b)
    if isinstance(a, Void) or isinstance(b, Void):
        return False
    if isinstance(a, Sps) or isinstance(b, Sps):
        return isinstance(a, Sps) and isinstance(b, Sps)
    return a == b


def compare(op, a, b, ci):
    if ci:
        if not isinstance(a, str) or not isinstance(b, str):
            raise OpType
        a, b = a.lower(), b.lower()
    if op == "==":
        return op_eq(a, b)
    if op == "!=":
        return not op_eq(a, b)
    if not (is_num(a) and is_num(b)) and not (isinstance(a, str) and isinstance(b, str)):
        raise OpType
    return {
        "<": lambda: a < b,
        "<=": lambda: a <= b,
        ">": lambda: a > b,
        ">=": lambda: a >= b,
    }[op]()


def truth(v):
    if isinstance(v, (Void, Sp)):
        return True
    return bool(v)


def contains(item, seq, ci):
    if not isinstance(seq, (Sp, Sps)):
        raise OpType
    if not isinstance(item, (str, Sp)):
        raise OpType
    if isinstance(item, Sp):
        item = item.name
    names = [s.name for s in seq] if isinstance(seq, Sps) else seq.files
    if ci:
        return item.lower() in [n.lower() for n in names]
    return item in list(names)


def index(v, i):
    if not isinstance(v, (str, Sp, Sps)) or not is_int(i):
        raise OpType
    if isinstance(v, Sp):
        v = v.name
    n = len(v)
    k = int(i)
    if k < -n or k >= n:
        raise OpIndex(i)
    return v[k if k >= 0 else n + k]


def slice_(v, a, b, c):
    if not isinstance(v, str):
        raise OpType
    for x in (a, b, c):
        if x is not None and not is_int(x):
            raise OpType
    if c is not None and c == 0:
        raise OpOther
    # As in Python, written out to be independent of slice()
    n = len(v)
    step = 1 if c is None else int(c)
    lo, hi = (0, n) if step > 0 else (-1, n - 1)

    def bound(x, default):
        if x is None:
            return default
        x = int(x)
        if x < 0:
            x += n
        return min(max(x, lo), hi)

    if step > 0:
        i, end = bound(a, 0), bound(b, n)
    else:
        i, end = bound(a, n - 1), bound(b, -1)
    out = []
    while (i < end) if step > 0 else (i > end):
        out.append(v[i])
        i += step
    return "".join(out)


def f_str(v):
    if isinstance(v, Sp):
        return v.name
    if isinstance(v, Void):
        return "void"
    if isinstance(v, Sps):
        raise Discard("str of the sub-packages")
    return sized(str(v))


def f_conv(conv, zero, v):
    if isinstance(v, (Sp, Sps, Void)):
        return zero
    try:
        return sized(conv(v))
    except (ValueError, OverflowError) as ex:
        raise OpOther from ex


def f_with(method, v, *fixes):
    if not isinstance(v, str):
        return False
    for f in fixes:
        if isinstance(f, str):
            part = v[: len(f)] if method == "startswith" else v[len(v) - len(f) :]
            if len(f) <= len(v) and part == f:
                return True
    return False


def f_find(last, s, sub, start=0, end=-1):
    if not isinstance(s, str) or not isinstance(sub, str):
        return -1
    if not is_int(start) or not is_int(end):
        return -1
    n = len(s)
    lo = max(int(start) + n, 0) if start < 0 else int(start)
    if end == -1:
        hi = n
    else:
        hi = max(int(end) + n, 0) if end < 0 else min(int(end), n)
    found = [
        i for i in range(lo, hi - len(sub) + 1) if s[i : i + len(sub)] == sub and i <= n
    ]
    if not found:
        return -1
    return found[-1] if last else found[0]


BASIC = {
    # name: (function, min args, max args)
    "str": (f_str, 1, 1),
    "int": (lambda v: f_conv(int, 0, v), 1, 1),
    "float": (lambda v: f_conv(float, 0.0, v), 1, 1),
    "len": (lambda v: len(v) if isinstance(v, str) else 0, 1, 1),
    "startswith": (lambda *a: f_with("startswith", *a), 1, None),
    "endswith": (lambda *a: f_with("endswith", *a), 1, None),
    "lower": (lambda v: v.lower() if isinstance(v, str) else v, 1, 1),
    "find": (lambda *a: f_find(False, *a), 2, 4),
    "rfind": (lambda *a: f_find(True, *a), 2, 4),
}

MANAGER = {
    # name: (method, min args, max args, types)
    "CompareGameVersion": ("compareGameVersion", 1, 1, [str]),
    "CompareSEVersion": ("compareSEVersion", 1, 1, [str]),
    "CompareGEVersion": ("compareGEVersion", 1, 1, [str]),
    "CompareWBVersion": ("compareWBVersion", 1, 1, [str]),
    "GetPluginLoadOrder": ("getPluginLoadOrder", 1, 2, [str, int]),
    "GetPluginStatus": ("getPluginStatus", 1, 1, [str]),
    "GetEspmStatus": ("getPluginStatus", 1, 1, [str]),
    "GetFilename": ("getFilename", 1, 1, [str]),
    "GetFolder": ("getFolder", 1, 1, [str]),
    "DataFileExists": ("dataFileExists", 1, None, [str]),
}

KEYWORDS = {
    # name: (canonical name, min args, max args)
    "SelectAll": ("SelectAll", 0, 0),
    "DeSelectAll": ("DeSelectAll", 0, 0),
    "SelectAllPlugins": ("SelectAllPlugins", 0, 0),
    "SelectAllEspms": ("SelectAllPlugins", 0, 0),
    "DeSelectAllPlugins": ("DeSelectAllPlugins", 0, 0),
    "DeSelectAllEspms": ("DeSelectAllPlugins", 0, 0),
    "ResetAllPluginNames": ("ResetAllPluginNames", 0, 0),
    "ResetAllEspmNames": ("ResetAllPluginNames", 0, 0),
    "SelectPlugin": ("SelectPlugin", 1, 1),
    "SelectEspm": ("SelectPlugin", 1, 1),
    "DeSelectPlugin": ("DeSelectPlugin", 1, 1),
    "DeSelectEspm": ("DeSelectPlugin", 1, 1),
    "SelectSubPackage": ("SelectSubPackage", 1, 1),
    "DeSelectSubPackage": ("DeSelectSubPackage", 1, 1),
    "RenamePlugin": ("RenamePlugin", 2, 2),
    "RenameEspm": ("RenamePlugin", 2, 2),
    "ResetPluginName": ("ResetPluginName", 1, 1),
    "ResetEspmName": ("ResetPluginName", 1, 1),
    "Note": ("Note", 1, 1),
    "RequireVersions": ("RequireVersions", 1, 4),
}

class State:
    def __init__(self):
        self.vars = {}
        self.sps = []
        self.plugins = []
        self.renames = {}
        self.notes = []
        self.modified = []
        self.disabled = []

    def copy(self):
        s = type(self)()
        s.vars = dict(self.vars)
        s.sps = list(self.sps)
        s.plugins = list(self.plugins)
        s.renames = dict(self.renames)
        s.notes = list(self.notes)
        s.modified = list(self.modified)
        s.disabled = list(self.disabled)
        return s

    def norm(self):
        return {
            "vars": {k: norm_value(v) for k, v in sorted(self.vars.items())},
            "subpackages": sorted(self.sps, key=str.casefold),
            "plugins": sorted(self.plugins, key=str.casefold),
            "renames": sorted([k, v] for k, v in self.renames.items()),
            "notes": list(self.notes),
            "modified": [
                [f, s, t, norm_value(v), c] for f, s, t, v, c in self.modified
            ],
            "disabled": [list(x) for x in self.disabled],
        }


def norm_value(v):
    """Comparable form of a value: its type and its contents."""
    if isinstance(v, Sps):
        return ["SubPackage[]", [s.name for s in v]]
    if isinstance(v, Sp):
        return ["SubPackage", v.name]
    if isinstance(v, Void) or v is None:
        return ["void", None]
    if isinstance(v, float):
        return ["float", repr(v)]
    return [type_name(v), v]


class Handler:
    """The user: answers the selects from a list of decisions."""

    live = True

    def __init__(self, dec=()):
        self.dec = list(dec) or [0]
        self.n = 0

    def start(self):
        """A run starts, from the beginning."""

    def at_step(self, n):
        """The n-th step of the script starts."""

    def rewound(self, interp, target):
        raise AssertionError("rewind")

    def query(self, interp, method, values):
        pass

    def warned(self, interp):
        pass

    def select(self, interp, kind, desc, options, defaults):
        d = self.dec[self.n % len(self.dec)]
        self.n += 1
        return chosen(kind, d, options, defaults)

    def cancel(self, interp, aborting=False):
        return True

    def complete(self, interp, end):
        return True

    def error(self, interp):
        pass


def chosen(kind, d, options, defaults):
    if kind == "One":
        i = pick_one(d, len(options))
        return [defaults[0] if i is None else i]
    sel = pick_many(d, len(options))
    sel = list(defaults) if sel is None else sel
    # In any order
    return sel[::-1] if d % 3 == 2 else sel


class Interp:
    def __init__(
        self, subpackages, sev=None, default_sev="WARNING", fuel=2000, handler=None
    ):
        self.sps = Sps(Sp(n, f) for n, f in subpackages)
        self.by_cf = {}
        for s in self.sps:
            self.by_cf.setdefault(cf(s), s)
        self.all_plugins = {}
        for s in self.sps:
            for p in s.plugins:
                self.all_plugins.setdefault(p.casefold(), p)
        self.sev = dict(sev or {})
        self.default_sev = default_sev
        self.fuel = fuel
        self.events = []
        self.state = State()
        self.snap = self.state
        self.posmaps = []
        self.handler = handler or Handler()
        self.breakable = 0
        self.message = None
        self.continuable = 0
        self.steps = 0
        self.step_no = 0
        self.in_exec_error = False
        self.stats = {}
        self.enclosing = []  # the loops and selects around the current statement

    def emit(self, event):
        if self.handler.live:
            self.events.append(event)

    def at(self, kind, node, *more):
        """A context of this kind is reached (for subclasses)."""

    def count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    # Errors

    def pos(self, node):
        return self.posmaps[-1].get(id(node))

    def err(self, kind, node, **extra):
        return Err(kind, self.pos(node) if node is not None else None, **extra)

    def issue(self, issue, kind, node, **extra):
        s = self.sev.get(issue, self.default_sev)
        if s == "ERROR":
            raise self.err(kind, node, **extra)
        self.count("issue")
        if s == "WARNING":
            self.emit(["warn"])
            self.handler.warned(self)

    # Expressions

    def op(self, node, fn, *args):
        try:
            return fn(*args)
        except OpType:
            raise self.err("type", node) from None
        except OpIndex as ex:
            raise self.err("index", node, index=int(ex.i)) from None
        except OpOther:
            raise self.err("other", None) from None

    def ev(self, e, typ=None):
        v = self.ev_(e)
        if typ is str and not isinstance(v, str) or typ is int and not is_int(v):
            raise self.err("type", e)
        return v

    def ev_(self, e):
        self.steps += 1
        if self.steps > self.fuel:
            raise Discard("fuel")
        k = e[0]
        if k == "int":
            return int(e[1])
        if k == "bool":
            return e[1]
        if k == "str":
            return e[1]
        if k == "dec":
            return float(e[1])
        if k == "sps":
            return self.sps
        if k == "var":
            if e[1] not in self.state.vars:
                self.issue("USAGE_OF_NOTSET_VARIABLES", "name", e, name=e[1])
                return 0
            return self.state.vars[e[1]]
        if k == "paren":
            return self.ev(e[1])
        if k == "un":
            v = self.ev(e[2])
            if e[1] == "-":
                if not is_num(v) or isinstance(v, bool):
                    raise self.err("type", e)
                return -v
            return not truth(v)
        if k == "bin":
            a = self.ev(e[2])
            b = self.ev(e[3])
            if e[1] in ("and", "&"):
                return truth(a) and truth(b)
            if e[1] in ("or", "|"):
                return truth(a) or truth(b)
            return self.op(e, arith, e[1], a, b)
        if k == "cmp":
            a = self.ev(e[2])
            b = self.ev(e[3])
            return self.op(e, compare, e[1], a, b, e[4])
        if k == "in":
            b = self.ev(e[2])
            a = self.ev(e[1])
            return self.op(e, contains, a, b, e[3])
        if k == "idx":
            a = self.ev(e[1])
            b = self.ev(e[2])
            return self.op(e, index, a, b)
        if k == "slice":
            v = self.ev(e[1])
            bounds = [None if x is None else self.ev(x) for x in e[2:5]]
            return self.op(e, slice_, v, *bounds)
        if k == "inc":
            name = e[3]
            if name not in self.state.vars:
                raise self.err("name", e, name=name)
            v = self.op(
                e, arith, "+", self.state.vars[name], 1 if e[1] == "++" else -1
            )
            self.state.vars[name] = v
            return v
        if k == "meth":
            v = self.ev(e[1])
            t = type_name(v)
            if not self.has_method(t, e[2]):
                raise self.err("name", e, name=f"{t}.{e[2]}")
            return self.call_method(e, t, e[2], [v] + [self.ev(a) for a in e[3]])
        if k == "call":
            return self.call(e, e[1], e[2])
        raise AssertionError(k)

    def has_method(self, t, name):
        if t == "string":
            return name in BASIC
        return t in ("integer", "float", "bool") and name == "str"

    def call_method(self, node, t, name, values):
        return self.call_basic(node, name, values)

    def call_basic(self, node, name, values):
        fn, lo, hi = BASIC[name]
        if len(values) < lo or hi is not None and len(values) > hi:
            raise self.err("type", node)
        return self.op(node, fn, *values)

    def call(self, node, name, args):
        known = (
            name in BASIC or name in MANAGER or name in ("EditINI", "DisableINILine")
        )
        if not known:
            # Exec is known, but not there
            extra = {} if name in ("Exec", "EndExec") else {"name": name}
            raise self.err("name", node, **extra)
        values = [self.ev(a) for a in args]
        if name in BASIC:
            return self.call_basic(node, name, values)
        if name == "EditINI":
            if len(values) not in (4, 5):
                raise self.err("type", node)
            if not all(isinstance(v, str) for v in values[:3] + values[4:]):
                raise self.err("type", node)
            self.state.modified.append((values + [""])[:5])
            return VOID
        if name == "DisableINILine":
            if len(values) != 3:
                raise self.err("type", node)
            if not all(isinstance(v, str) for v in values):
                raise self.err("type", node)
            self.state.disabled.append(values)
            return VOID
        method, lo, hi, types = MANAGER[name]
        if len(values) < lo or hi is not None and len(values) > hi:
            raise self.err("type", node)
        for i, v in enumerate(values):
            if not isinstance(v, types[min(i, len(types) - 1)]):
                raise self.err("type", node)
        self.emit(["mgr", method, [norm_value(v) for v in values]])
        self.handler.query(self, method, values)
        return manager_answer(method, values)

    def toplevel(self, stmts):
        try:
            try:
                self.body(stmts)
                self.complete("COMPLETE")
                raise AssertionError
            except Abort:
                # In a query
                self.state = self.snap
                self.abort()
                raise Rewind("step") from None
        except Err as ex:
            error = ex
        while True:
            self.emit(["error", error.kind, error.pos])
            self.state = self.snap
            try:
                self.attempt(lambda: self.handler.error(self))
            except Err as ex:
                # The user aborted, and cancel() failed
                error = ex
                continue
            if not self.aborted:
                raise error
            raise Rewind("step")

    # Statements

    def step(self):
        self.steps += 5
        if self.steps > self.fuel:
            raise Discard("fuel")
        self.new_step()

    def new_step(self):
        self.step_no += 1
        self.handler.at_step(self.step_no)
        self.snap = self.state.copy()
        self.message = None  # of the Cancel being executed

    def body(self, stmts):
        for s in stmts:
            self.step()
            self.stmt(s)

    def stmt(self, s):
        k = s[0]
        self.count(k if k != "select" else "select" + s[1])
        if k in ("set", "cset", "if", "break", "continue", "return"):
            self.at(k, s)
        getattr(self, "s_" + k)(s)

    def s_expr(self, s):
        if s[1][:2] == ["call", "Exec"]:
            raise Discard("it is an Exec statement")
        self.ev(s[1])

    def s_set(self, s):
        v = self.ev(s[2])
        self.state.vars[s[1]] = v

    def s_cset(self, s):
        v = self.ev(s[3])
        if s[2] not in self.state.vars:
            raise self.err("name", s, name=s[2])
        self.state.vars[s[2]] = self.op(s, arith, s[1], self.state.vars[s[2]], v)

    def s_if(self, s):
        for cond, body in s[1]:
            if truth(self.ev(cond)):
                return self.body(body)
        if s[2] is not None:
            self.body(s[2])

    def loop(self, s, body):
        """Run the body once, returns False on Break."""
        self.breakable += 1
        self.continuable += 1
        self.enclosing.append([s[0], self.pos(s)])
        try:
            self.body(body)
        except BreakFlow:
            self.count("break-loop")
            return False
        except ContinueFlow:
            self.count("continue-loop")
        finally:
            self.enclosing.pop()
            self.breakable -= 1
            self.continuable -= 1
        self.at(s[0], s)
        return True

    def case(self, s, body):
        """Run the body once, returns False on Break."""
        self.breakable += 1
        self.enclosing.append([s[0], self.pos(s)])
        self.at("case", s)
        try:
            self.body(body)
        except BreakFlow:
            self.count("break-case")
            return False
        finally:
            self.enclosing.pop()
            self.breakable -= 1
        return True

    def s_for(self, s):
        start = self.ev(s[2], int)
        end = self.ev(s[3], int)
        by = self.ev(s[4], int) if s[4] is not None else 1
        if by == 0:
            raise self.err("other", None)
        self.at("for", s)
        i = int(start)
        n = 0
        while i <= end if by > 0 else i >= end:
            n += 1
            self.step()
            self.state.vars[s[1]] = i
            if not self.loop(s, s[5]):
                break
            i += int(by)
        if n > 1:
            self.count("iterated")

    def s_forin(self, s):
        v = self.ev(s[2])
        if isinstance(v, Sp):
            items = list(v.files)
        elif isinstance(v, (Sps, str)):
            items = list(v)
        else:
            raise Err("type", None)
        self.at("forin", s)
        for n, x in enumerate(items):
            self.state.vars[s[1]] = x
            if n:
                self.count("iterated")
            if not self.loop(s, s[3]):
                break

    def s_while(self, s):
        self.at("while", s)
        while True:
            self.step()
            if not truth(self.ev(s[1])):
                break
            self.count("iterated")
            if not self.loop(s, s[2]):
                break

    def s_break(self, s):
        if not self.breakable:
            raise self.err("parse", s)
        raise BreakFlow

    def s_continue(self, s):
        if not self.continuable:
            raise self.err("parse", s)
        raise ContinueFlow

    def s_return(self, s):
        self.complete("RETURN")

    def complete(self, status):
        self.new_step()
        while True:
            self.emit(["complete"])
            if self.attempt(lambda: self.handler.complete(self, status == "COMPLETE")):
                raise EndFlow(status)
            if status == "RETURN" and not self.aborted:
                return
            if status == "COMPLETE" and not self.aborted:
                raise EndFlow(status)

    def s_cancel(self, s):
        message = self.ev(s[1], str) if s[1] is not None else None
        self.at("cancel", s, message)
        self.new_step()
        self.message = message
        while True:
            self.emit(["cancel", message])
            if self.attempt(lambda: self.handler.cancel(self)):
                raise EndFlow("CANCEL")
            if not self.aborted:
                return

    def attempt(self, fn):
        """
        Call the user, who may abort; returns what fn() returns, or None with
        self.aborted when the user aborted and then decided to continue.
        """
        self.aborted = False
        try:
            return fn()
        except Abort:
            self.abort()
            self.aborted = True
            return None

    def abort(self):
        """The user aborted: cancel() is called, returns if it gives False."""
        while True:
            self.emit(["cancel", self.message])
            try:
                if self.handler.cancel(self, True):
                    raise EndFlow("ABORT")
                return
            except Abort:
                continue

    def s_select(self, s):
        many = s[1] == "Many"
        desc = self.ev(s[2], str)
        options = []
        defaults = []
        for n, d, im in s[3]:
            name = self.ev(n, str)
            d = self.ev(d, str)
            im = self.ev(im, str)
            if name[:1] == "|":
                name = name[1:]
                defaults.append(len(options))
            options.append([name, d, im if im.strip() else None])
        if not many:
            if not defaults:
                defaults = [0]
            if len(defaults) > 1:
                self.issue("MULTIPLE_DEFAULTS_IN_SELECT_ON", "type", s)
                defaults = defaults[:1]
        self.at("select", s, desc, options, defaults)
        self.new_step()
        while True:
            self.emit(
                [
                    s[1],
                    desc,
                    [list(o) for o in options],
                    [list(options[i]) for i in defaults],
                ]
            )
            sel = self.attempt(
                lambda: self.handler.select(self, s[1], desc, options, defaults)
            )
            if not self.aborted:
                break
        if len(sel) > 1:
            self.count("several-selected")
        selected = [options[i][0] for i in sel]
        found = False
        fall = False
        for label, body in s[4]:
            if found and not many and not fall:
                return
            self.step()
            value = self.ev(label, str)
            if fall or value in selected:
                if fall:
                    self.count("fallthrough")
                found = True
                fall = self.case(s, body)
        if s[5] is not None and (fall or not found):
            self.count("default")
            self.case(s, s[5])

    def s_exec(self, s):
        mode = s[2]
        text, posmap = lang.exec_text(s)
        if isinstance(mode, list) and mode[0] == "var":
            self.at("set", s)
            self.state.vars[mode[1]] = text
            self.step()
        elif isinstance(mode, list):
            self.op(s, f_str, self.ev(mode[1]))
        self.exec_body(s[1], posmap)

    def exec_body(self, body, posmap):
        self.posmaps.append(posmap)
        try:
            self.body(body)
        except Err:
            # The place is in the text of the Exec()
            self.in_exec_error = True
            raise
        finally:
            self.posmaps.pop()

    def s_execset(self, s):
        v = self.ev(s[2])
        text = self.op(s, f_str, v)
        if not isinstance(v, int):
            raise Discard("execset")
        if len(s) > 3:
            self.exec_body(s[3], lang.execset_text(s)[1])
        self.at("set", None)
        self.state.vars[s[1]] = v

    def s_execexpr(self, s):
        if len(s[1]) != 1:
            raise self.err("type", s)
        self.ev(s[1][0], str)
        raise Discard("execexpr of a string")

    def s_bad(self, s):
        raise Err("parse", None)

    def s_kw(self, s):
        name, lo, hi = KEYWORDS[s[1]]
        if name != "RequireVersions":
            self.at(name, s)
        args = [self.ev(a) for a in s[2]]
        if len(args) < lo or len(args) > hi:
            raise self.err("type", s)
        if name != "Note" and not all(isinstance(a, (str, Sp)) for a in args):
            raise self.err("type", s)
        st = self.state
        if name == "SelectAll":
            st.sps = [x.name for x in self.by_cf.values()]
            self.select_all_plugins()
        elif name == "DeSelectAll":
            st.sps = []
            st.plugins = []
        elif name == "SelectAllPlugins":
            self.select_all_plugins()
        elif name == "DeSelectAllPlugins":
            st.plugins = []
        elif name == "ResetAllPluginNames":
            st.renames = {}
        elif name == "Note":
            if not isinstance(args[0], str):
                self.issue("USAGE_OF_ANYTHING_IN_NOTE", "type", s)
            st.notes.append(f_str(args[0]))
        elif name == "RequireVersions":
            values = [a or None for a in args] + [None] * 4
            values[0] = args[0]
            self.at(name, s, values[:4])
            self.new_step()
            self.emit(["req", [norm_value(v) for v in values[:4]]])
            self.handler.query(self, "requiresVersions", values[:4])
        else:
            # The remaining ones take names
            n = args[0].name if isinstance(args[0], Sp) else args[0]
            c = n.casefold()
            if name == "SelectPlugin":
                if c not in self.all_plugins:
                    self.issue("SELECT_MISSING_PLUGIN", "missing_plugin", s, name=n)
                else:
                    self.add_plugin(self.all_plugins[c])
            elif name == "DeSelectPlugin":
                st.plugins = [p for p in st.plugins if p.casefold() != c]
            elif name == "SelectSubPackage":
                if c not in self.by_cf:
                    self.issue("SELECT_MISSING_SUBPACKAGE", "missing_package", s, name=n)
                else:
                    sp = self.by_cf[c]
                    if sp.name not in st.sps:
                        st.sps.append(sp.name)
                    for p in sp.plugins:
                        self.add_plugin(p)
            elif name == "DeSelectSubPackage":
                st.sps = [x for x in st.sps if x.casefold() != c]
            elif name == "RenamePlugin":
                st.renames[c] = args[1]
            elif name == "ResetPluginName":
                st.renames.pop(c, None)
            else:
                raise AssertionError(name)

    def add_plugin(self, p):
        if p.casefold() not in [x.casefold() for x in self.state.plugins]:
            self.state.plugins.append(p)

    def select_all_plugins(self):
        self.state.plugins = []
        for sp in self.state.sps:
            for p in self.by_cf[sp.casefold()].plugins:
                self.add_plugin(p)


def run(
    case_body,
    subpackages,
    sev=None,
    default_sev="WARNING",
    fuel=2000,
    handler=None,
    lay=None,
    cls=Interp,
):
    """
    Run a script, as WizardScriptRunner.run() should. lay: its layout.

    Returns the outcome and the interpreter.
    """
    handler = handler or Handler()
    text, posmap = lang.render_positions(case_body, lay)
    while True:
        handler.start()
        it = cls(subpackages, sev, default_sev, fuel, handler)
        it.events = handler.__dict__.setdefault("events", [])
        it.posmaps = [posmap]
        error = None
        try:
            status = it.toplevel(case_body)
        except Rewind as ex:
            handler.rewound(it, ex.target)
            continue
        except Err as ex:
            status = "ERROR"
            error = ex
        except EndFlow as ex:
            status = "CANCEL" if ex.status == "ABORT" else ex.status
            if ex.status == "ABORT":
                it.state = it.snap
        break
    if error is not None:
        it.state = it.snap
    return (
        {
            "status": status,
            "state": it.state.norm(),
            "error": None if error is None else [error.kind, error.pos],
            "events": it.events,
            "tells": {} if error is None else error.extra,
        },
        it,
    )
