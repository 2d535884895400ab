"""
Generators. Hypothesis gives a string of bytes, which a Source turns into choices; zero
bytes (and the end of the string) give the simplest choices, so that shrinking the bytes
simplifies the case.
"""

import unicodedata

from hypothesis import strategies as st

from . import directed
from .common import PROFILES

STRINGS = [
    "",
    "a",
    "b",
    "abc",
    "ABC",
    "Abc",
    "main.esp",
    "MAIN.ESP",
    "00 Core",
    "00 core",
    "x y",
    "a\tb",
    "a\n b",
    "a\rb",
    "é",
    "Straße",
    "12",
    "-3",
    "0.5",
    "line\nbreak",
    'quo"te',
    "it's",
    "back\\slash",
    "tab\t;not a comment",
    "|bar",
    " ",
    "日本",
    "\U0001f600",
    "If",
]
STRINGS = directed.strings(STRINGS)
INTS = directed.positive([2**31, 2**63, 10**20, 255, 100])


NEAR = [
    lambda n: n + " ",
    lambda n: " " + n,
    lambda n: n[:-1],
    lambda n: n[1:],
    lambda n: n + "x",
    lambda n: n + "/",
    lambda n: n + "\\",
    lambda n: n + ".",
    lambda n: n + "\n",
    lambda n: n + "\0",
    lambda n: "sub/" + n,
    lambda n: "sub\\" + n,
    lambda n: "./" + n,
    lambda n: "/" + n,
    lambda n: n.partition(".")[0],
    lambda n: n.rpartition(".")[0],
    lambda n: n.rpartition("/")[2],
    lambda n: n.rpartition("\\")[2],
    lambda n: n.partition("/")[2],
    lambda n: n.partition(" ")[2],
    lambda n: n.partition(" ")[0],
    lambda n: n.replace("/", "\\"),
    lambda n: n.replace("\\", "/"),
    lambda n: n.replace("/", "//"),
    lambda n: n.replace(" ", ""),
    lambda n: n.replace(" ", "_"),
    lambda n: n.replace(" ", "  "),
    lambda n: n.replace("_", " "),
    lambda n: n.replace(".es", ".ES"),
    lambda n: n[:-3] + "esm",
    lambda n: n[:-3] + "esp",
    lambda n: n.lstrip("0123456789. "),
    lambda n: "*",
    lambda n: n[:1] + "*",
    lambda n: n[::-1],
    lambda n: n + n,
    lambda n: f"'{n}'",
    lambda n: unicodedata.normalize("NFD", n),
    lambda n: unicodedata.normalize("NFC", n),
    lambda n: unicodedata.normalize("NFKC", n),
    lambda n: "".join(c for c in unicodedata.normalize("NFD", n) if not unicodedata.combining(c)),
]


def near(s, name):
    """A name that a careless comparison takes for this one, or this one."""
    return s.pick(NEAR)(name)


class Source:
    def __init__(self, data):
        self.data = data
        self.i = 0

    def byte(self):
        if self.i >= len(self.data):
            return 0
        self.i += 1
        return self.data[self.i - 1]

    def split(self, n):
        """Another source, made of the last n bytes of this one."""
        tail = self.data[-n:]
        self.data = self.data[:-n]
        return Source(tail)

    def done(self):
        return self.i >= len(self.data)

    def below(self, n):
        if n <= 1:
            return 0
        if n <= 256:
            return self.byte() * n >> 8
        if n <= 65536:
            return ((self.byte() << 8) | self.byte()) * n >> 16
        return ((self.byte() << 16) | (self.byte() << 8) | self.byte()) * n >> 24

    def between(self, a, b):
        return a + self.below(b - a + 1)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, *pairs):
        total = sum(w for w, _ in pairs)
        x = self.below(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def chance(self, percent):
        """Whether something rare happens; not for zero bytes."""
        return self.byte() >= 256 - max(1, percent * 256 // 100)

    def flag(self):
        return self.byte() >= 128

    def many(self, lo, hi):
        """A number of things, from lo to hi."""
        return self.between(lo, hi)


def cases(build, size=300):
    """Strategy of the cases that build() makes from a Source."""
    return st.binary(min_size=size, max_size=size).map(lambda b: build(Source(b)))


INT, FLOAT, STR, BOOL, SP = "int", "float", "str", "bool", "sp"

VARS = {
    INT: ["i", "j", "k"],
    FLOAT: ["f", "g"],
    STR: ["s", "t"],
    BOOL: ["b", "c"],
    SP: ["p"],
}
UNSET = ["u", "v"]


class Gen:
    """
    Generator of typed programs. The flags say which features are used and their weights.
    """

    def __init__(self, src, **flags):
        self.s = src
        self.profile = flags.pop("profile", "std")
        self.nfiles = PROFILES[self.profile]
        self.flags = {
            "fault": 0,  # percentage of faulty expressions
            "unset": 3,
            "effects": 10,  # increments nested in expressions
            "query": 6,  # manager queries
            "depth": 3,
            "stmts": {},
        }
        self.flags.update(flags)
        self.vars = self.flags.get("vars") or VARS
        self.loops = 0  # enclosing loops
        self.cases = 0  # enclosing cases or loops (breakable)
        self.ids = 0
        self.sp_vars = []
        self.protected = set()
        self.in_exec = 0
        self.pure = 0

    # Leaves

    def string(self):
        s = self.s
        k = s.below(10)
        if k < 8:
            return s.pick(STRINGS)
        return "".join(
            s.pick("ab AB01.;\\'\"\n\té日|[](){}=+-") for _ in range(s.below(8))
        )

    def str_lit(self):
        text = self.string()
        lit = ["str", text, self.s.pick("\"'")]
        if any(x in text for x in "\t\n\r") and self.flags.get("spaces", True):
            # Tabs and newlines as they are
            if self.s.flag():
                lit.append(1)
        return lit

    def int_lit(self):
        s = self.s
        k = s.below(10)
        if k < 8:
            return ["int", s.below(10)]
        if k == 8:
            return ["int", s.below(1000)]
        return ["int", s.pick(INTS)]

    def dec_lit(self):
        s = self.s
        return ["dec", f"{s.below(20)}.{s.pick(['0', '5', '25', '125', '1', '00', '3'])}"]

    def name(self):
        """Name of a sub-package, in any case, or another one."""
        s = self.s
        pool = [n for n, _ in self.nfiles] + ["Missing"]
        return self.recase(s.pick(pool))

    def plugin(self):
        s = self.s
        pool = []
        for _, files in self.nfiles:
            for f in files:
                if f[-4:] in (".esp", ".esm", ".esl"):
                    f = f.split("/")[-1]
                    if f not in pool:
                        pool.append(f)
        pool.append("missing.esp")
        return self.recase(s.pick(pool))

    def recase(self, n):
        k = self.s.below(6)
        return [n, n, n, n.lower(), n.upper(), n.swapcase()][k]

    # Expressions

    def effect(self):
        return (
            not self.pure
            and self.flags["effects"]
            and self.s.chance(self.flags["effects"])
        )

    def var(self, typ):
        return ["var", self.s.pick(self.vars[typ])]

    def fault(self):
        """An expression that fails."""
        s = self.s
        return s.pick(
            [
                ["bin", "-", ["str", "a"], ["int", 1]],
                ["idx", ["str", "abc"], ["int", 7]],
                ["call", "Undefined", []],
                ["un", "-", ["str", "x"]],
                ["bin", "+", ["int", 1], ["str", "x"]],
                ["inc", "++", "pre", "neverset"],
                ["meth", ["int", 3], "lower", []],
                ["cmp", "<", ["int", 1], ["str", "x"], False],
                ["cmp", "==", ["int", 1], ["int", 1], True],
                ["call", "GetFilename", [["int", 3]]],
                ["call", "find", [["str", "x"]]],
                ["in", ["str", "a"], ["str", "abc"], False],
                ["bin", "/", ["int", 1], ["int", 0]],
                ["call", "int", [["str", "zz"]]],
                ["idx", ["int", 3], ["int", 0]],
                ["call", "Exec", [["str", "x = 1"]]],
            ]
        )

    def expr(self, typ, d=None):
        if d is None:
            d = self.s.below(self.flags["depth"] + 1)
        if self.flags["fault"] and self.s.chance(self.flags["fault"]):
            # The faulty expressions of other types make more faults
            return self.fault()
        return getattr(self, "e_" + typ)(d)

    def any(self, d=None):
        return self.expr(self.s.pick([INT, STR, BOOL, FLOAT]), d)

    def e_int(self, d):
        s = self.s
        if self.effect():
            return ["inc", s.pick(["++", "--"]), s.pick(["pre", "post"]), self.loopless(INT)]
        if d <= 0:
            k = s.below(10)
            if k < 5:
                return self.int_lit()
            if self.flags["unset"] and s.chance(self.flags["unset"]):
                return ["var", s.pick(UNSET)]
            return self.var(INT)
        k = s.below(15)
        if k < 3:
            return ["bin", "+", self.expr(INT, d - 1), self.expr(INT, d - 1)]
        if k < 5:
            return ["bin", "-", self.expr(INT, d - 1), self.expr(INT, d - 1)]
        if k < 7:
            return ["bin", "*", self.expr(INT, d - 1), self.expr(INT, d - 1)]
        if k == 7:
            return ["bin", "%", self.expr(INT, d - 1), ["int", s.between(1, 9)]]
        if k == 8:
            return ["bin", "^", self.expr(INT, d - 1), ["int", s.below(4)]]
        if k == 9:
            return ["un", "-", self.expr(INT, d - 1)]
        if k == 10:
            return self.fn("len", self.expr(STR, d - 1), [])
        if k == 11:
            args = [self.expr(STR, d - 1)]
            if s.flag():
                args.append(self.expr(INT, 0))
                if s.flag():
                    args.append(self.expr(INT, 0))
            return self.fn(s.pick(["find", "rfind"]), self.expr(STR, d - 1), args)
        if k == 12:
            if not self.pure and self.flags["query"]:
                return self.int_query(d - 1)
            return ["call", "int", [self.expr(FLOAT, d - 1)]]
        if k == 13:
            return ["call", "int", [["str", str(s.below(100))]]]
        return ["paren", self.expr(INT, d - 1)]

    def int_query(self, d):
        s = self.s
        k = s.below(4)
        if k == 0:
            return [
                "call",
                "Compare" + s.pick(["Game", "SE", "GE", "WB"]) + "Version",
                [self.expr(STR, d)],
            ]
        if k == 1:
            args = [["str", self.plugin()]]
            if s.flag():
                args.append(self.expr(INT, d))
            return ["call", "GetPluginLoadOrder", args]
        return [
            "call",
            s.pick(["GetPluginStatus", "GetEspmStatus"]),
            [self.expr(STR, d)],
        ]

    def fn(self, name, target, args):
        """Call as a function or as a method."""
        if self.s.flag():
            return ["meth", target, name, args]
        return ["call", name, [target] + args]

    def e_float(self, d):
        s = self.s
        if d <= 0:
            return self.var(FLOAT) if s.below(3) == 2 else self.dec_lit()
        k = s.below(6)
        if k == 0:
            return ["bin", "/", self.expr(INT, d - 1), ["int", s.between(1, 9)]]
        if k < 4:
            return [
                "bin",
                s.pick("+-*"),
                self.expr(FLOAT, d - 1),
                self.expr(s.pick([FLOAT, INT]), d - 1),
            ]
        if k == 4:
            return ["call", "float", [self.expr(INT, d - 1)]]
        return ["un", "-", self.expr(FLOAT, d - 1)]

    def e_str(self, d):
        s = self.s
        if d <= 0:
            if self.sp_vars and s.below(5) == 4:
                return ["call", "str", [["var", s.pick(self.sp_vars)]]]
            return self.var(STR) if s.below(3) == 2 else self.str_lit()
        k = s.below(11)
        if k < 4:
            return ["bin", "+", self.expr(STR, d - 1), self.expr(STR, d - 1)]
        if k == 4:
            return self.fn("str", self.expr(s.pick([INT, FLOAT, BOOL]), d - 1), [])
        if k == 5:
            return self.fn("lower", self.expr(STR, d - 1), [])
        if k == 6:
            t = self.str_lit()
            if t[1]:
                n = len(t[1])
                return ["idx", t, self.around(s.between(-n, n - 1), d)]
            return t
        if k in (7, 8):
            bounds = []
            for i in range(3):
                if s.flag():
                    bounds.append(None)
                elif i < 2:
                    bounds.append(self.around(s.between(-6, 6), d))
                else:
                    bounds.append(self.around(s.pick([1, 2, 3, -1, -2]), d))
            return ["slice", self.expr(STR, d - 1)] + bounds + [s.flag()]
        if k == 9 and not self.pure and self.flags["query"]:
            return [
                "call",
                s.pick(["GetFilename", "GetFolder"]),
                [self.expr(STR, d - 1)],
            ]
        return ["paren", self.expr(STR, d - 1)]

    def around(self, n, d):
        """A number, sometimes found by asking or changing something."""
        s = self.s
        if d < 1 or s.below(4) < 3:
            return self.signed(n)
        e = self.expr(INT, d - 1)
        if s.below(4) == 3:
            return e
        return ["bin", "+", self.signed(n), ["bin", "*", e, ["int", 0]]]

    def signed(self, n):
        return ["int", n] if n >= 0 else ["un", "-", ["int", -n]]

    def e_bool(self, d):
        s = self.s
        if d <= 0:
            return self.var(BOOL) if s.below(3) == 2 else ["bool", s.flag()]
        k = s.below(13)
        if k < 2:
            op = s.pick(["==", "!=", "<", "<=", ">", ">="])
            return ["cmp", op, self.expr(INT, d - 1), self.expr(INT, d - 1), False]
        if k < 4:
            op = s.pick(["==", "!=", "<", "<=", ">", ">="])
            return ["cmp", op, self.expr(STR, d - 1), self.expr(STR, d - 1), s.flag()]
        if k == 4:
            op = s.pick(["==", "!="])
            return ["cmp", op, self.any(d - 1), self.any(d - 1), False]
        if k < 7:
            op = s.pick(["and", "or", "&", "|"])
            return ["bin", op, self.expr(BOOL, d - 1), self.any_bool(d - 1)]
        if k < 9:
            return ["un", s.pick(["!", "not"]), self.any_bool(d - 1)]
        if k == 9:
            self.pure += 1
            lhs = ["str", self.name()]
            self.pure -= 1
            return ["in", lhs, ["sps"], s.flag()]
        if k == 10:
            args = [self.expr(STR, d - 1) for _ in range(s.below(3))]
            return self.fn(s.pick(["startswith", "endswith"]), self.expr(STR, d - 1), args)
        if k == 11 and not self.pure and self.flags["query"]:
            return [
                "call",
                "DataFileExists",
                [["str", self.plugin()] for _ in range(s.between(1, 3))],
            ]
        if self.sp_vars:
            sp = ["var", s.pick(self.sp_vars)]
            if s.flag():
                return ["in", ["str", self.plugin()], sp, s.flag()]
            return ["cmp", s.pick(["==", "!="]), sp, ["str", self.name()], False]
        return ["paren", self.expr(BOOL, d - 1)]

    def any_bool(self, d):
        return self.expr(BOOL, d) if self.s.below(4) else self.any(d)

    # Statements

    def fresh(self, prefix):
        self.ids += 1
        return f"{prefix}{self.ids}"

    def loopless(self, typ):
        return self.s.pick(self.vars[typ])

    WEIGHTS = {
        "set": 6,
        "cset": 4,
        "inc": 2,
        "note": 5,
        "if": 4,
        "for": 3,
        "forin": 2,
        "while": 2,
        "selectone": 2,
        "selectmany": 2,
        "break": 2,
        "continue": 2,
        "exec": 2,
        "decide": 0,
        "kw": 4,
        "ini": 2,
        "req": 1,
        "call": 1,
        "cancel": 0,
        "return": 0,
    }

    def body(self, d, lo=0, hi=4):
        out = []
        for i in range(self.s.between(lo, hi)):
            if i >= lo and self.s.done():
                break
            out.extend(self.stmt(d))
        if directed.SIZES and self.s.chance(4):
            out.extend(self.bulk(self.s.pick(directed.SIZES)))
        return out

    def bulk(self, n):
        """As many things as the sources tell about."""
        s = self.s
        var = self.fresh("z")
        text = ["call", "str", [["var", var]]]
        one = s.pick(
            [
                [["kw", "Note", [text]]],
                [["cset", "+", self.loopless(INT), ["int", 1]]],
                [["cset", "+", self.loopless(STR), ["str", "a"]]],
                [["expr", ["call", "DisableINILine", [["str", "a.ini"], ["str", "S"], text]]]],
                [["kw", "RenamePlugin", [text, ["str", "x"]]]],
                [["expr", ["call", "DataFileExists", [text]]]],
                [],
            ]
        )
        k = s.below(6)
        if k < 2:
            return [["for", var, ["int", 1], ["int", n], None, one]]
        if k == 2:
            cond = ["cmp", "<", ["inc", "++", "pre", var], ["int", n], False]
            return [["set", var, ["int", 0]], ["while", cond, one]]
        n = min(n, 40)
        if k == 3:
            return [["set", var, ["int", 0]]] + one * n
        if k == 4:
            res = [["set", var, ["int", 0]]] + one
            for _ in range(min(n, 20)):
                res = [["if", [[["bool", True], res]], None]]
            return res
        opts = [[["str", f"o{i}"], ["str", ""], ["str", ""]] for i in range(n)]
        self.cases += 1
        cases = [[["str", f"o{i}"], [["kw", "Note", [["str", f"c{i}"]]]]] for i in range(n)]
        self.cases -= 1
        return [["select", s.pick(["One", "Many"]), ["str", "q"], opts, cases, None]]

    def stmt(self, d):
        s = self.s
        w = dict(self.WEIGHTS)
        w.update(self.flags["stmts"])
        if d <= 0:
            for k in ("if", "for", "forin", "while", "selectone", "selectmany", "exec"):
                w[k] = 0
        if not self.cases:
            w["break"] = min(w["break"], self.flags.get("stray", 0))
        if not self.loops:
            w["continue"] = min(w["continue"], self.flags.get("stray", 0))
        k = s.weighted(*[(n, k) for k, n in w.items() if n])
        return getattr(self, "s_" + k)(d)

    def s_set(self, d):
        typ = self.s.pick([INT, STR, BOOL, FLOAT])
        return [["set", self.loopless(typ), self.expr(typ)]]

    def s_cset(self, d):
        s = self.s
        typ = s.pick([INT, INT, STR, FLOAT])
        if self.flags["fault"] and s.chance(self.flags["fault"]):
            return [["cset", "+", "neverset", ["int", 1]]]
        # The order between reading the variable and the effects of the expression on it
        # is left open
        self.pure += 1
        e = self.expr(typ)
        self.pure -= 1
        if typ == STR:
            return [["cset", "+", self.loopless(typ), e]]
        if typ == FLOAT:
            op = s.pick("+-*/")
            if op == "/":
                e = s.pick([["int", s.between(1, 9)], ["dec", "0.5"], ["dec", "4.0"]])
            return [["cset", op, self.loopless(typ), e]]
        op = s.pick("+-*%^")
        if op == "%":
            e = ["int", s.between(1, 9)]
        elif op == "^":
            e = ["int", s.below(3)]
        return [["cset", op, self.loopless(INT), e]]

    def s_inc(self, d):
        s = self.s
        return [
            [
                "expr",
                ["inc", s.pick(["++", "--"]), s.pick(["pre", "post"]), self.loopless(INT)],
            ]
        ]

    def s_note(self, d):
        if self.s.chance(10):
            return [["kw", "Note", [self.expr(self.s.pick([INT, BOOL, FLOAT]))]]]
        return [["kw", "Note", [self.expr(STR)]]]

    def s_call(self, d):
        s = self.s
        k = s.below(3)
        if k == 0 and self.flags["query"]:
            return [["expr", self.int_query(1)]]
        if k == 1 and s.chance(40):
            # Whatever an expression may start with
            first = s.pick([["bool", True], ["bool", False], ["sps"], self.int_lit(),
                            ["paren", self.any(1)], ["un", "!", self.any(1)],
                            ["un", "-", self.int_lit()], ["str", "x"]])  # fmt: skip
            if s.flag():
                return [["expr", first]]
            return [["expr", ["bin", s.pick(["&", "|"]), first, self.any_bool(1)]]]
        return [["expr", self.any(2)]]

    def s_if(self, d):
        s = self.s
        arms = [[self.any_bool(s.below(3)), self.body(d - 1)]]
        for _ in range(s.pick([0, 0, 1, 2])):
            arms.append([self.any_bool(s.below(3)), self.body(d - 1)])
        return [["if", arms, self.body(d - 1) if s.flag() else None]]

    def in_loop(self, d, lo=0):
        self.loops += 1
        self.cases += 1
        b = self.body(d - 1, lo, 4)
        self.loops -= 1
        self.cases -= 1
        return b

    def s_for(self, d):
        s = self.s
        start = self.signed(s.between(-3, 5))
        end = self.signed(s.between(-3, 6))
        by = None
        if s.flag():
            by = self.signed(s.pick([1, 2, 3, -1, -2]))
        if s.chance(15):
            self.pure += 1
            end = ["bin", "%", self.expr(INT, 1), ["int", 7]]
            self.pure -= 1
        var = self.fresh("x") if not s.chance(20) else self.loopless(INT)
        return [["for", var, start, end, by, self.in_loop(d)]]

    def s_forin(self, d):
        s = self.s
        var = self.fresh("y")
        k = s.below(4)
        if k == 0:
            return [["forin", var, self.expr(STR, 1), self.in_loop(d)]]
        if k == 1 and self.sp_vars:
            return [["forin", var, ["var", s.pick(self.sp_vars)], self.in_loop(d)]]
        if k == 1 and self.nfiles:
            e = ["idx", ["sps"], ["int", s.below(len(self.nfiles))]]
            return [["forin", var, e, self.in_loop(d)]]
        self.sp_vars.append(var)
        b = self.in_loop(d)
        self.sp_vars.pop()
        return [["forin", var, ["sps"], b]]

    def s_while(self, d):
        s = self.s
        var = self.fresh("w")
        n = s.below(5)
        b = self.in_loop(d)
        up = ["expr", ["inc", "++", s.pick(["pre", "post"]), var]]
        cond = ["cmp", "<", ["var", var], ["int", n], False]
        k = s.below(3)
        if k == 0:
            return [["set", var, ["int", 0]], ["while", cond, [up] + b]]
        if k == 1:
            # The effect is in the condition
            cond = ["cmp", "<=", up[1], ["int", n], False]
            return [["set", var, ["int", 0]], ["while", cond, b]]
        cond = ["bin", s.pick(["and", "&"]), cond, self.any_bool(1)]
        return [["set", var, ["int", 0]], ["while", cond, [up] + b]]

    OPTIONS = ["a", "b", "c", "Long name", "A", "é"]

    def select(self, kind, d):
        s = self.s
        options = []
        names = []
        many = s.chance(6)
        marks = s.below(4) if many else 2
        for _ in range(s.between(5, 9) if many else s.between(1, 4)):
            n = s.pick(self.OPTIONS)
            if len(options) > 4 and s.flag():
                n = f"o{len(options)}"
            names.append(n)
            mark = "|" if s.below(3) >= marks else ""
            name = ["str", mark + n]
            if s.chance(15):
                name = ["bin", "+", ["str", mark], ["str", n]]
            options.append(
                [
                    name,
                    ["str", s.pick(["", "d", "desc é"])]
                    if not s.chance(10)
                    else self.expr(STR, 1),
                    ["str", s.pick(["", "i.png", " ", "\t "])],
                ]
            )
        cases = []
        self.cases += 1
        for _ in range(s.between(0, len(names) if many else 4)):
            label = s.pick(names) if s.below(5) else s.pick(self.OPTIONS)
            label = ["str", label]
            if s.chance(10):
                label = self.expr(STR, 1)
            b = self.body(d - 1, 0, 3)
            if s.below(3):
                b.append(["break"])
            cases.append([label, b])
        default = None
        if s.flag():
            default = self.body(d - 1, 0, 3)
            if s.flag():
                default.append(["break"])
        self.cases -= 1
        desc = self.expr(STR, 1)
        if s.chance(self.flags["effects"]):
            desc = ["call", "str", [["inc", "++", "post", self.loopless(INT)]]]
        comma = [True] if options and s.chance(15) else []
        return [["select", kind, desc, options, cases, default, *comma]]

    def s_selectone(self, d):
        return self.select("One", d)

    def s_selectmany(self, d):
        return self.select("Many", d)

    def s_decide(self, d):
        """What is chosen decides what comes next, maybe in a case of another select."""
        s = self.s
        if d > 0 and s.flag():
            labels = ["x", "y", "z"][: s.between(1, 3)]
            opts = [[["str", n], ["str", ""], ["str", ""]] for n in labels]
            self.cases += 1
            cases = [[["str", n], self.body(0, 0, 1)] for n in labels]
            for _, b in cases:
                if s.flag():
                    b.extend(self.s_decide(0))
            default = self.body(0, 1, 2) if s.below(4) else None
            self.cases -= 1
            return [["select", s.pick(["One", "Many"]), ["str", "outer"], opts, cases, default]]
        names = ["a", "b", "c"][: s.between(2, 3)]
        opts = [[["str", ("|" if s.chance(25) else "") + n], ["str", ""], ["str", ""]] for n in names]
        var = s.pick(["pick", "pick2"])
        cases = [[["str", n], [["set", var, ["int", i]], ["break"]]] for i, n in enumerate(names)]
        jumps = [["return"], ["cancel", self.str_lit()], ["kw", "Note", [["str", "kept"]]]]
        if self.cases:
            jumps += [["break"]] * 4
        if self.loops:
            jumps += [["continue"]] * 3
        if s.chance(20):
            cases = cases[1:]
        arms = [
            [["cmp", "==", ["var", var], ["int", s.below(len(names))], False], [s.pick(jumps)]]
            for _ in range(s.between(1, 2))
        ]
        return [
            ["set", var, ["int", s.below(3)]],
            ["select", s.pick(["One", "Many"]), ["str", "decide"], opts, cases, None],
            ["if", arms, None],
        ]

    def s_break(self, d):
        return [["break"]]

    def s_continue(self, d):
        return [["continue"]]

    def s_return(self, d):
        return [["return"]]

    def s_cancel(self, d):
        message = self.expr(STR) if self.s.flag() else None
        if message is not None and self.s.chance(2 * self.flags["effects"]):
            message = ["call", "str", [["inc", "++", "pre", self.loopless(INT)]]]
        return [["cancel", message]]

    def s_exec(self, d):
        s = self.s
        if s.chance(20):
            return [["execset", self.loopless(INT), self.expr(INT, 1)]]
        self.in_exec += 1
        b = self.body(d - 1, 0, 4)
        self.in_exec -= 1
        mode = s.pick(["lit", "concat", "single", None])
        if mode is None:
            mode = ["side", self.expr(INT, 1)]
        return [["exec", b, mode]]

    def kw_stmt(self):
        s = self.s
        k = s.below(14)
        if k < 3:
            return ["kw", "SelectSubPackage", [["str", self.name()]]]
        if k == 3:
            return ["kw", "DeSelectSubPackage", [["str", self.name()]]]
        if k < 6:
            return ["kw", s.pick(["SelectPlugin", "SelectEspm"]), [["str", self.plugin()]]]
        if k < 8:
            return [
                "kw",
                s.pick(["DeSelectPlugin", "DeSelectEspm"]),
                [["str", self.plugin()]],
            ]
        if k < 10:
            return [
                "kw",
                s.pick(
                    [
                        "SelectAll",
                        "DeSelectAll",
                        "SelectAllPlugins",
                        "SelectAllEspms",
                        "DeSelectAllPlugins",
                        "DeSelectAllEspms",
                    ]
                ),
                [],
            ]
        if k < 12:
            return [
                "kw",
                s.pick(["RenamePlugin", "RenameEspm"]),
                [["str", self.plugin()], self.expr(STR, 1)],
            ]
        if k == 12:
            return [
                "kw",
                s.pick(["ResetPluginName", "ResetEspmName"]),
                [["str", self.plugin()]],
            ]
        return ["kw", s.pick(["ResetAllPluginNames", "ResetAllEspmNames"]), []]

    def s_kw(self, d):
        s = self.s
        if self.sp_vars and s.chance(25):
            return [
                [
                    "kw",
                    s.pick(["SelectSubPackage", "DeSelectSubPackage"]),
                    [["var", s.pick(self.sp_vars)]],
                ]
            ]
        return [self.kw_stmt()]

    def s_ini(self, d):
        s = self.s
        f = ["str", s.pick(["a.ini", "A.INI", "b.ini"])]
        if s.below(3) == 2:
            args = [f, ["str", s.pick(["S", "s"])], self.expr(STR, 1)]
            return [["expr", ["call", "DisableINILine", args]]]
        args = [f, ["str", s.pick(["S", "s"])], self.expr(STR, 1), self.any(1)]
        if s.flag():
            args.append(self.expr(STR, 0))
        return [["expr", ["call", "EditINI", args]]]

    def s_req(self, d):
        s = self.s
        args = [self.expr(STR, 1) for _ in range(s.between(1, 4))]
        return [["kw", "RequireVersions", args]]

    def program(self, lo=1, hi=6, depth=3):
        """Statements, after assignments of the variables they use."""
        stmts = self.body(depth, lo, hi)
        return self.prelude(stmts) + stmts

    def prelude(self, stmts):
        used = names_read(stmts)
        pre = []
        for typ in (INT, FLOAT, STR, BOOL):
            for v in self.vars[typ]:
                if v in used:
                    lit = {
                        INT: self.int_lit,
                        FLOAT: self.dec_lit,
                        STR: self.str_lit,
                        BOOL: lambda: ["bool", self.s.flag()],
                    }[typ]
                    pre.append(["set", v, lit()])
        return pre


def names_read(node):
    """Names of the variables that are read."""
    res = set()
    stack = [node]
    while stack:
        n = stack.pop()
        if not isinstance(n, list):
            continue
        if n and n[0] == "var":
            res.add(n[1])
        elif n and n[0] == "inc" and len(n) == 4:
            res.add(n[3])
        elif n and n[0] == "cset":
            res.add(n[2])
        stack.extend(n)
    return res


def decisions(s, n=6):
    return [s.below(34) for _ in range(s.between(0, n))]
