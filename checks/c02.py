"""Operators on every combination of operand types."""

from lib import directed, gen, lang, micro
from lib.common import PROFILES

ID = "C02"
RULE = (
    "a case applies up to five operators, each to operands of types chosen independently;"
    " every (operator, types) pair counts, none is trivial"
)
QUICK = 16000
THOROUGH = 200_000
ASSUMPTIONS = [
    "the table of what each operator accepts is the one of the independent evaluator",
]

TYPES = ["bool", "int", "float", "str", "void", "sp", "sps"]
BIN = ["+", "-", "*", "/", "%", "^", "and", "or", "&", "|"]
CMPS = ["==", "!=", "<", "<=", ">", ">="]
FORMS = (
    [("bin", op) for op in BIN]
    + [("cmp", op) for op in CMPS]
    + [("cmpi", op) for op in CMPS]
    + [("un", op) for op in ("-", "!", "not")]
    + [("cset", op) for op in "+-*/%^"]
    + [("in", ""), ("in", ":"), ("idx", ""), ("slice", ""), ("inc", "++"), ("inc", "--")]
    + [("for", ""), ("forin", ""), ("if", ""), ("while", "")]
)
STRS = directed.strings(["", "a", "A", "ab", "00 Core", "00 CORE", "main.esp", "1", "0"])


def value(s, typ):
    if typ == "bool":
        return ["bool", s.flag()]
    if typ == "int":
        n = s.pick(directed.positive([0, 1, 2, 3, 4, 5, 7, 20]))
        return ["int", -n if s.below(3) == 2 else n]
    if typ == "float":
        return ["float", s.pick(["0.0", "0.5", "1.0", "2.0", "-1.5", "-3.0", "nan", "inf", "5e-324", "1e-12"])]
    if typ == "str":
        return ["str", s.pick(STRS)]
    if typ == "sp":
        return ["sp", s.below(len(PROFILES["std"]))]
    return [typ]


def build(s):
    ops = []
    for _ in range(s.between(1, 5)):
        form, op = s.pick(FORMS)
        types = [s.pick(TYPES) for _ in range(4)]
        vs = [value(s, t) for t in types]
        if s.below(3) == 2:
            i = s.pick([0, 0, 1])
            vs[1 - i] = micro.related(s, vs[i], PROFILES["std"])
        omit = s.below(8)
        ops.append([form, op, vs, omit])
    return {"ops": ops}


def case():
    return gen.cases(build, 70)


def statements(form, op, omit):
    a, b, c, d = (["var", x] for x in "abcd")
    if form == "bin":
        return [["set", "r", ["bin", op, a, b]]]
    if form in ("cmp", "cmpi"):
        return [["set", "r", ["cmp", op, a, b, form == "cmpi"]]]
    if form == "un":
        return [["set", "r", ["un", op, a]]]
    if form == "cset":
        return [["cset", op, "a", b]]
    if form == "in":
        return [["set", "r", ["in", a, b, op == ":"]]]
    if form == "idx":
        return [["set", "r", ["idx", a, b]]]
    if form == "slice":
        bounds = [x if omit >> i & 1 else None for i, x in enumerate((b, c, d))]
        return [["set", "r", ["slice", a, *bounds, bool(omit & 1)]]]
    if form == "inc":
        return [["set", "r", ["inc", op, "pre" if omit & 1 else "post", "a"]]]
    if form == "for":
        by = c if omit & 1 else None
        return [["for", "x", a, b, by, [["cset", "+", "n", ["int", 1]]]]]
    if form == "forin":
        return [["forin", "x", a, [["cset", "+", "n", ["int", 1]]]]]
    if form == "while":
        return [["while", a, [["set", "r", ["int", 1]], ["break"]]]]
    if form == "if":
        return [["if", [[a, [["set", "r", ["int", 1]]]]], [["set", "r", ["int", 2]]]]]
    raise AssertionError(form)


USED = {"bin": 2, "cmp": 2, "cmpi": 2, "un": 1, "cset": 2, "in": 2, "idx": 2, "inc": 1}


def run(c):
    labels = []
    for form, op, vs, omit in c["ops"]:
        variables = dict(zip("abcd", vs), n=["int", 0])
        kind = micro.check(statements(form, op, omit), variables)
        labels.append(f"{form}{op} {'error:' + kind if kind else 'value'}")
        labels.append("types " + "/".join(v[0] for v in vs[: USED.get(form, 1)]))
    return labels


def show(c):
    return [
        f"{lang.render(statements(form, op, omit))}   with {dict(zip('abcd', vs))}"
        for form, op, vs, omit in c["ops"]
    ]
