"""Operators, against the reference evaluator, over minimally parenthesised trees."""

from lib import directed, gen, lang, micro

ID = "C01"
RULE = (
    "a case is a few assignments of generated expression trees, printed with as few"
    " parentheses as the precedences allow; it is trivial when no tree has two operators"
)
QUICK = 16000
THOROUGH = 300_000
ASSUMPTIONS = [
    "the expected values come from an independent evaluator written from the language's"
    " definition; numbers over 2000 bits are not explored",
]

ARITH = ["+", "-", "*", "/", "%", "^"]
CMPS = ["==", "!=", "<", "<=", ">", ">="]
LOGIC = ["and", "or", "&", "|"]

INTS = [0, 1, 2, 3, 5, 7, 10, 64, 100, 255, 1000, 2**31, 2**53 + 1, 2**63, 10**20, 10**70 + 7]
INTS = directed.positive(INTS)
DECS = ["0.0", "0.5", "1.0", "1.5", "2.25", "3.0", "10.125", "0.1", "100.75", "007.50",
        "0.12345678901234567", "1.0000000000000002", "12345678901234567890.5", "0.00000000000000000012"]
STRS = ["", "a", "b", "ab", "A", "AB", "aB", "é", "É", "z", "Z", "10", "9", " ", "\n", "if",
        "0", "1", "-1", "0.0", "False", "True", "None", "no"]
STRS = directed.strings(STRS)

# What no literal gives, but float("…") does
SPECIAL = ["nan", "nan", "inf", "-inf"]

VARIABLES = ["i", "j", "f", "s", "t", "b", "c"]


def variables(s):
    return {
        "i": ["int", num(s)],
        "j": ["int", num(s)],
        "f": ["float", s.pick(["0.5", "-1.5", "2.0", "1e300", "-0.0", "3.25", "7.0", *SPECIAL])],
        "s": ["str", string(s)],
        "t": ["str", string(s)],
        "b": ["bool", s.flag()],
        "c": ["bool", s.flag()],
    }


def num(s):
    n = s.below(12) if s.below(4) else s.pick(INTS)
    return -n if s.below(3) == 2 else n


# Strings whose order depends on how their case is ignored
FOLDS = ["_", "[", "^", "`", "a_", "a[", "B", "ß", "ẞ", "ss", "SS", "ſ", "s", "İ", "i̇", "ı", "K",
         "k", "K", "ς", "σ", "Σ", "aΣ", "ﬁ", "fi", "µ", "μ", "Ω", "Ω", "\xff", "Ā", "Ǆ", "ǅ", "ǆ"]  # fmt: skip


def string(s):
    k = s.below(8)
    if k < 5:
        return s.pick(STRS)
    if k == 5:
        return s.pick(FOLDS)
    chars = "abABé z09" if k == 6 else "abABsSßẞſKkKiIİ_[^zZé\xff"
    return "".join(s.pick(chars) for _ in range(s.below(12)))


def close(s):
    """Two numbers that are nearly equal, or equal."""
    n = s.pick([2**53, 2**53 + 2, 2**63, 2**64, 10**16, 10**20, 10**30, 1, 0])
    return ["int", n + s.below(3)], ["int", n + s.below(3)]


def cased(s):
    """A string, and another one that may differ by case."""
    a = string(s)
    b = s.pick([a.lower(), a.upper(), a.swapcase(), a.casefold(), a.title(), a[:-1], a + "a"])
    return [["str", x, s.pick("\"'")] for x in s.pick([[a, b], [b, a]])]


class Trees:
    def __init__(self, s):
        self.s = s
        self.ops = 0
        self.effects = s.below(3) == 2

    def tree(self, typ, d):
        s = self.s
        if s.chance(8):
            return ["paren", self.tree(typ, d)]
        if d <= 0 or s.below(8) == 7:
            return self.leaf(typ)
        self.ops += 1
        if typ == "num":
            k = s.below(12)
            if k == 11:
                # Booleans count as integers
                other = self.tree("bool" if s.below(3) == 2 else "num", d - 1)
                return ["bin", s.pick("+-*"), self.tree("bool", d - 1), other]
            if k >= 9:
                return ["un", "-", self.tree("num", d - 1)]
            op = s.pick(ARITH)
            left = self.tree("num", d - 1)
            if op == "^":
                # Chains, with exponents small enough
                right = ["int", s.below(4)]
                if s.below(4) == 3:
                    right = ["bin", "^", right, ["int", s.below(3)]]
                if s.chance(6):
                    # Large powers of small numbers
                    right = ["int", s.pick([31, 32, 53, 62, 63, 64, 65, 100, 127, 128, 300])]
                    left = self.sign(s.pick([["int", s.below(11)], ["dec", "1.5"], ["dec", "0.5"]]))
                elif s.chance(10):
                    right = ["dec", "0.5"]
                elif s.chance(10):
                    right = ["paren", ["un", "-", right]]
                return ["bin", op, left, right]
            if op in "/%" and s.below(8):
                right = ["int", s.between(1, 9)]
                if s.flag():
                    right = ["un", "-", right]
                return ["bin", op, left, right]
            return ["bin", op, left, self.tree("num", d - 1)]
        if typ == "str":
            return ["bin", "+", self.tree("str", d - 1), self.tree("str", d - 1)]
        k = s.below(12)
        if k < 3:
            if s.chance(8):
                # Something and itself
                a = ["var", "f"]
                if s.flag():
                    a = self.leaf(s.pick(["num", "str", "bool"]))
                return ["cmp", s.pick(CMPS), a, a, s.flag() and a[0] == "str"]
            if s.below(6) == 5:
                a, b = close(s)
                if s.below(3) == 2:
                    a = ["bin", "*", a, ["dec", "1.0"]]
                if s.below(3) == 2:
                    a, b = ["un", "-", a], ["un", "-", b]
                return ["cmp", s.pick(CMPS), a, b, False]
            return ["cmp", s.pick(CMPS), self.tree("num", d - 1), self.tree("num", d - 1), False]
        if k < 5:
            if s.below(3) == 2:
                a, b = cased(s)
                return ["cmp", s.pick(CMPS), a, b, s.below(4) > 0]
            return ["cmp", s.pick(CMPS), self.tree("str", d - 1), self.tree("str", d - 1), s.flag()]
        if k == 5:
            if s.flag():
                # Chains of comparisons
                typ = s.pick(["bool", "num"])
                return ["cmp", s.pick(CMPS), self.tree("bool", d - 1), self.tree(typ, d - 1), False]
            return ["cmp", s.pick("== !=".split()), self.any(d - 1), self.any(d - 1), False]
        if k < 8:
            return ["un", s.pick(["!", "not"]), self.any(d - 1)]
        return ["bin", s.pick(LOGIC), self.any(d - 1), self.any(d - 1)]

    def sign(self, e):
        return ["paren", ["un", "-", e]] if self.s.below(4) == 3 else e

    def any(self, d):
        return self.tree(self.s.pick(["bool", "num", "str", "bool"]), d)

    def leaf(self, typ):
        s = self.s
        if typ == "num":
            if s.chance(6):
                return ["meth", self.leaf("str"), "len", []]
            if self.effects and s.below(4) == 3:
                return [
                    "inc",
                    s.pick(["++", "--"]),
                    s.pick(["pre", "post"]),
                    s.pick(["i", "j", "f"]),
                ]
            k = s.below(10)
            if k < 4:
                return ["var", s.pick(["i", "j", "f"])]
            if k < 7:
                return ["int", s.below(10)]
            if k == 7:
                if s.below(3) == 2:
                    return ["int", "0" * s.between(1, 3) + str(s.pick([0, 7, 8, 10, 77, 755]))]
                return ["int", s.pick(INTS)]
            if s.below(3) == 2:
                return ["dec", f"{s.below(1000)}.{s.below(10**6)}".replace(".", "." + "0" * s.below(4))]
            return ["dec", s.pick(DECS)]
        if typ == "str":
            if s.chance(8):
                k = s.between(1, 5)
                i = s.below(k)
                return ["idx", ["str", "aBcde"[:k]], ["un", "-", ["int", i]] if i else ["int", i]]
            if s.below(3) == 2:
                return ["var", s.pick(["s", "t"])]
            return ["str", string(s), s.pick("\"'")]
        if self.effects and s.below(4) == 3:
            # Shows whether and when an operand is evaluated
            return ["call", "DataFileExists", [["str", s.pick("abc")]]]
        if s.flag():
            return ["var", s.pick(["b", "c"])]
        return ["bool", s.flag()]


def build(s):
    v = variables(s)
    prog = []
    ops = 0
    for i in range(s.between(1, 2)):
        t = Trees(s)
        prog.append(["set", f"r{i}", t.any(s.pick([1, 2, 3, 3, 4, 5]))])
        ops = max(ops, t.ops)
    if s.chance(8):
        # The same expressions again, with other values
        changes = [
            ["expr", ["inc", "++", "pre", "i"]],
            ["cset", s.pick("+-"), "j", ["int", s.between(1, 3)]],
            ["cset", "+", "f", ["dec", "0.5"]],
            ["cset", "+", "s", ["str", "a"]],
            ["set", "t", ["var", "s"]],
            ["set", "b", ["un", "!", ["var", "b"]]],
            ["set", "c", ["cmp", "==", ["var", "b"], ["var", "c"], False]],
        ]
        prog = [["for", "n", ["int", 1], ["int", s.between(1, 3)], None, changes + prog]]
    return {"vars": v, "prog": prog, "ops": ops}


def case():
    return gen.cases(build, 160)


def walk(node, found):
    if isinstance(node, list):
        if node and node[0] in ("bin", "cmp"):
            found.add(node[1] + (":" if node[-1] is True else ""))
        elif node and node[0] == "un":
            found.add("unary " + node[1])
        for x in node:
            walk(x, found)


def run(c):
    kind = micro.check(c["prog"], c["vars"])
    found = set()
    walk(c["prog"], found)
    labels = sorted(found)
    labels.append(f"error:{kind}" if kind else "value")
    if c["ops"] < 2:
        labels.append("trivial")
    return labels


def show(c):
    return f"{lang.render(c['prog'])}   with {c['vars']}"
