"""Values used directly from Python: a history of operations on a pool of them."""

import operator

from lib import directed, gen, micro, real, ref
from lib.common import PROFILES, Violation
from lib.diff import expect, plain

from wizard.value import VariableType

ID = "C30"
RULE = (
    "a case is a pool of values and a history of operations whose results join the pool;"
    " it is trivial when fewer than three of them give a value"
)
QUICK = 16000
THOROUGH = 600_000

STRS = ["", "a", "A", "ab", "AB", "abc", "00 Core", "00 CORE", "main.esp", "MAIN.esp", "1", "0",
        "é", "É", "ß", "İ", " ", "True", "void"]  # fmt: skip
STRS = directed.strings(STRS)
TYPES = ["bool", "int", "float", "str", "void", "sp", "sps"]
NAMES = {
    "bool": VariableType.BOOL,
    "integer": VariableType.INTEGER,
    "float": VariableType.FLOAT,
    "string": VariableType.STRING,
    "void": VariableType.VOID,
    "SubPackage": VariableType.SUBPACKAGE,
    "SubPackage[]": VariableType.LIST_SUBPACKAGES,
}

BINARY = {
    # name: (on Values, on the values of the reference)
    "+": (operator.add, lambda a, b: ref.arith("+", a, b)),
    "-": (operator.sub, lambda a, b: ref.arith("-", a, b)),
    "*": (operator.mul, lambda a, b: ref.arith("*", a, b)),
    "**": (operator.pow, lambda a, b: ref.arith("^", a, b)),
    "%": (operator.mod, lambda a, b: ref.arith("%", a, b)),
    "div": (lambda a, b: a.__div__(b), lambda a, b: ref.arith("/", a, b)),
    "|": (operator.or_, lambda a, b: ref.truth(a) or ref.truth(b)),
    "&": (operator.and_, lambda a, b: ref.truth(a) and ref.truth(b)),
    "<": (operator.lt, lambda a, b: ref.compare("<", a, b, False)),
    "<=": (operator.le, lambda a, b: ref.compare("<=", a, b, False)),
    ">": (operator.gt, lambda a, b: ref.compare(">", a, b, False)),
    ">=": (operator.ge, lambda a, b: ref.compare(">=", a, b, False)),
    "equals": (lambda a, b: a.equals(b), lambda a, b: ref.compare("==", a, b, False)),
    "not_equals": (lambda a, b: a.not_equals(b), lambda a, b: ref.compare("!=", a, b, False)),
    "contains": (lambda a, b: a.contains(b), lambda a, b: ref.contains(b, a, False)),
    "contains exactly": (lambda a, b: a.contains(b, False), lambda a, b: ref.contains(b, a, False)),
    "contains any case": (lambda a, b: a.contains(b, True), lambda a, b: ref.contains(b, a, True)),
    "[]": (operator.getitem, ref.index),
}


def negative(v):
    if not ref.is_num(v) or isinstance(v, bool):
        raise ref.OpType
    return -v


def positive(v):
    if not ref.is_num(v):
        raise ref.OpType
    return v


UNARY = {
    "-": (operator.neg, negative),
    "+": (operator.pos, positive),
    "not": (lambda a: a.logical_not(), lambda a: not ref.truth(a)),
}


def value(s):
    t = s.pick(TYPES) if s.below(4) == 3 else s.pick(["int", "str", "float", "bool"])
    if t == "bool":
        return ["bool", s.flag()]
    if t == "int":
        n = s.pick(directed.positive([0, 1, 2, 3, 5, 7, 10**20, s.below(40)]))
        return ["int", -n if s.below(3) == 2 else n]
    if t == "float":
        return ["float", s.pick(["0.0", "0.5", "1.0", "2.0", "-1.5", "-3.0", "1e300", "-0.0", "nan", "inf"])]
    if t == "str":
        return ["str", s.pick(STRS)]
    if t == "sp":
        return ["sp", s.below(len(PROFILES["std"]))]
    return [t]


def build(s):
    profile = s.pick(["std", "std", "within"])
    pool = [value(s) for _ in range(s.between(2, 6))]
    if s.flag():
        pool.append(micro.related(s, pool[0], PROFILES[profile]))
    ops = []
    for _ in range(s.between(2, 12)):
        k = s.below(10)
        args = [s.below(32) for _ in range(4)]
        if k < 7:
            ops.append(["bin", s.pick(sorted(BINARY))] + args)
        elif k == 7:
            ops.append(["un", s.pick(sorted(UNARY))] + args)
        elif k == 8:
            ops.append(["slice", s.below(8)] + args)
        else:
            ops.append(["same", s.below(4)] + args)
    return {"pool": pool, "ops": ops, "files": profile}


def case():
    return gen.cases(build, 100)


def outcome(f, args):
    """What happens on one side, in a form common to both."""
    try:
        return ["value"], f(*args)
    except (ref.OpType, TypeError):
        return ["type"], None
    except ref.OpIndex as ex:
        return ["index", int(ex.i)], None
    except IndexError as ex:
        return ["index", int(ex.args[0])], None
    except Violation:
        raise
    except (ref.OpOther, ArithmeticError, ValueError):
        return ["other"], None


def same(a, b):
    """Whether two values are the same value of the same type."""
    if ref.type_name(a) != ref.type_name(b):
        return False
    if isinstance(a, ref.Void):
        return True
    if isinstance(a, ref.Sp):
        return ref.cf(a) == ref.cf(b)
    if isinstance(a, ref.Sps):
        return True
    return a == b


def run(c):
    files = PROFILES[c["files"]]
    it = ref.Interp(files)
    sps = real.packages(files)
    model = [micro.ref_value(v, it) for v in c["pool"]]
    pool = [micro.real_value(v, sps) for v in c["pool"]]
    objects = list(pool)
    labels = set()
    values = 0
    for kind, op, i, j, k, n in c["ops"]:
        i, j, k, n = (x % len(pool) for x in (i, j, k, n))
        where = f"{kind} {op} of {pool[i]!r}, {pool[j]!r}, {pool[k]!r}, {pool[n]!r}"
        if kind == "same":
            compare(op, pool[i], pool[j], model[i], model[j], where, labels)
            continue
        if kind == "bin":
            f, g = BINARY[op]
            args, margs = [pool[i], pool[j]], [model[i], model[j]]
        elif kind == "un":
            f, g = UNARY[op]
            args, margs = [pool[i]], [model[i]]
        else:
            f, g = (lambda a, *x: a.slice(*x)), ref.slice_
            which = [x if op >> b & 1 else None for b, x in enumerate((j, k, n))]
            args = [pool[i]] + [None if x is None else pool[x] for x in which]
            margs = [model[i]] + [None if x is None else model[x] for x in which]
        if "equals" in str(op) and all(isinstance(m, ref.Void) for m in margs):
            continue  # whether two of them are equal is left open
        expected, mv = outcome(g, margs)
        got, rv = outcome(f, args)
        expect(where, expected, got)
        labels.add(f"{kind} {op if kind != 'slice' else ''} {expected[0]}")
        if expected == ["value"]:
            values += 1
            expect(f"{where}: class", "Value", type(rv).__name__)
            expect(where, plain(ref.norm_value(mv)), plain(real.norm_value(rv)))
            model.append(mv)
            pool.append(rv)
            objects.append(rv)
    for x, m, o in zip(pool, model, objects):
        # Nothing changed them
        expect("value afterwards", plain(ref.norm_value(m)), plain(real.norm_value(x)))
        expect("type", NAMES[ref.type_name(m)], x.type)
        expect("is_void()", isinstance(m, ref.Void), x.is_void())
        expect("truth", ref.truth(m), bool(x))
        for text in (repr(x), str(x)):
            expect("class of the text", "str", type(text).__name__)
        again = real.Value(x.value)
        expect("equal to the value of its value", m == m, again == x)
    if values < 3:
        labels.add("trivial")
    return sorted(labels)


def compare(op, a, b, ma, mb, where, labels):
    """Equality for Python: of values and types."""
    if ref.type_name(ma) == ref.type_name(mb) == "SubPackage[]":
        return
    expected = same(ma, mb)
    labels.add("equal" if expected else "different")
    if op == 0:
        got = [a == b, b == a]
    elif op == 1:
        got = [not (a != b), not (b != a)]
    elif op == 2:
        if ref.type_name(mb) == "SubPackage":
            return
        got = [a == b.value, not (a != b.value)]
    else:
        # For these, an object is equal to itself
        expected = expected or a is b
        got = [a in [b], [b].count(a) == 1]
    expect(f"{where}: same as the second", [expected, expected], got)
    for r in got:
        expect("class of an equality", "bool", type(r).__name__)


def show(c):
    return c
