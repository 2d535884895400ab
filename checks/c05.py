"""String and conversion functions, against independent implementations."""

from lib import directed, gen, lang, micro, ref
from lib.common import PROFILES
from lib.diff import expect, plain

ID = "C05"
RULE = (
    "a case is a call of a function with generated arguments, made as a function and,"
    " with the same arguments, as a method; it is trivial when the first argument is an"
    " empty string and the value is empty too"
)
QUICK = 16000
THOROUGH = 300_000
ASSUMPTIONS = [
    "str() of a void value or of the list of sub-packages is not explored: nothing says"
    " what text it gives",
]

NAMES = ["str", "int", "float", "len", "startswith", "endswith", "lower", "find", "rfind"]
UNKNOWN = [
    "upper", "Str", "LEN", "Find", "format", "visitExpr", "Expr", "Value", "Not", "Index",
    "EndExec", "encode", "isEndBase", "split", "__init__", "str_", "int_", "replace", "In",
]  # fmt: skip
CHARS = "aabABé. 01日\U0001f600\nßKİΣ"
NUMBERS = [
    "12", "-3", "+7", " 42 ", "1_000", "0x10", "1e3", "0.5", "-0.25", ".5", "5.", "inf",
    "nan", "", " ", "abc", "१२", "1 2", "--1", "1.0", "00012", "12\n", "1e400", "٣",
]  # fmt: skip


NUMBERS = directed.more(NUMBERS, directed.STRS)


def text(s):
    if directed.STRS and s.chance(12):
        return s.pick(directed.STRS + directed.LONG)
    return "".join(s.pick(CHARS) for _ in range(s.pick([0, 1, 2, 3, 3, 5, 8, 16])))


def arg(s, base, name, position):
    """The kind of argument usually given to the function, or any other."""
    k = s.below(12)
    if k == 11:
        return [["bool", s.flag()], ["float", "2.5"], ["void"], ["sps"]][s.below(4)]
    if k == 10:
        return ["sp", s.below(len(PROFILES["std"]))]
    if k == 9:
        return ["int", s.below(5)] if s.flag() else ["str", text(s)]
    if position == 0:
        if name in ("int", "float"):
            j = s.below(4)
            if j == 0:
                return ["str", s.pick(NUMBERS)]
            if j == 1:
                return ["str", f"{s.pick(['', '-', '+'])}{s.below(100000)}"]
            if j == 2:
                return ["float", s.pick(["0.5", "-2.75", "1e20", "-0.0", "inf", "nan", "1e-9", "1e23", "1e300"])]
            return ["int", s.pick(directed.numbers([0, 1, -1, 12345, -(10**30), 2**63]))]
        if name == "str":
            j = s.below(4)
            if j == 0:
                return ["int", s.pick(directed.numbers([0, 5, -12, 10**30]))]
            if j == 1:
                floats = ["0.5", "-2.75", "1e20", "-0.0", "inf", "nan", "1e-9", "100.0", "1e16", "1e23", "5e-324", "1.1e300", "0.1", "1e15", "0.0001", "1e22", "123456789.12345679", "1.2345678901234567e+17"]
                return ["float", s.pick(floats)]
            if j == 2:
                return ["bool", s.flag()]
            return ["str", base]
        return ["str", base]
    if name in ("find", "rfind") and position >= 2:
        n = len(base)
        i = s.between(-n - 2, n + 2) if s.below(5) else s.pick(directed.numbers([-1, 0, n, 10**9, -(10**9), 2**70]))
        return ["int", i]
    # Part of the text, usually
    j = s.below(6)
    a, b = sorted([s.below(len(base) + 1), s.below(len(base) + 1)])
    if j == 0:
        return ["str", base[:b]]
    if j == 1:
        return ["str", base[a:]]
    if j == 2:
        return ["str", text(s)]
    if j == 3:
        return ["str", ""]
    return ["str", base[a:b]]


def build(s):
    name = s.pick(NAMES) if not s.chance(6) else s.pick(UNKNOWN)
    base = text(s)
    if s.below(3) == 2:
        base = base + base
    want = {"startswith": 4, "endswith": 4, "find": 3, "rfind": 3}.get(name, 1)
    if name in ("find", "rfind"):
        n = s.pick([2, 2, 3, 4, 4, 1, 5])
    elif want > 1:
        n = directed.size(s, s.pick([2, 3, 1, 2, 3, 4, 6, 12]), 40)
    else:
        n = s.pick([1, 1, 1, 1, 1, 2, 3])
    if s.chance(4):
        n = 0
    args = [arg(s, base, name, i) for i in range(n)]
    return {"name": name, "args": args, "literal": s.flag()}


def case():
    return gen.cases(build, 90)


def literal(v, i):
    """Expression giving the value, a literal when there is one."""
    k = v[0]
    if k == "str":
        return ["str", v[1]]
    if k == "bool":
        return ["bool", v[1]]
    if k == "int" and v[1] >= 0:
        return ["int", v[1]]
    return ["var", f"a{i}"]


def run(c):
    name, args = c["name"], c["args"]
    variables = {f"a{i}": v for i, v in enumerate(args)}
    if c["literal"]:
        es = [literal(v, i) for i, v in enumerate(args)]
    else:
        es = [["var", f"a{i}"] for i in range(len(args))]
    call = [["set", "r", ["call", name, es]]]
    kind = micro.check(call, variables)
    labels = [f"{name}/{len(args)} {kind or 'value'}"]
    result = micro.expected(call, variables, PROFILES["std"])
    if args:
        # The same as a method; only strings have most of the methods
        target = es[0] if es[0][0] != "int" else ["var", "a0"]
        method = [["set", "r", ["meth", target, name, es[1:]]]]
        kind2 = micro.check(method, variables)
        labels.append(f".{name} on {args[0][0]} {kind2 or 'value'}")
        if args[0][0] == "str" and name in NAMES:
            got = [
                micro.actual(lang.render(x), variables, PROFILES["std"]) for x in (call, method)
            ]
            a, b = plain([[g["error"] and g["error"][0], g["state"]["vars"].get("r")] for g in got])
            expect("function and method", a, b, lang.render(method))
    r = result["state"]["vars"].get("r")
    if args and args[0] == ["str", ""] and r is not None and not r[1]:
        labels.append("trivial")
    return labels


def show(c):
    return f"{c['name']}({', '.join(map(str, c['args']))})"


assert set(NAMES) == set(ref.BASIC)
