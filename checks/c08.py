"""Branches and loops."""

from lib import common, diff, directed, gen, lang

ID = "C08"
RULE = (
    "a case is a program of nested branches, loops, Break and Continue with notes that"
    " show what runs; it is trivial when no loop iterates and no branch is taken"
)
QUICK = 2800
THOROUGH = 100_000
FUEL = 3_000_000


class Flow(gen.Gen):
    """Every body starts with a note telling where the execution is."""

    def trace(self):
        self.ids += 1
        v = self.s.pick(self.live) if self.live and self.s.flag() else None
        text = ["str", f"n{self.ids} "]
        if v is not None:
            text = ["bin", "+", text, ["call", "str", [["var", v]]]]
        return ["kw", "Note", [text]]

    live = ()

    def body(self, d, lo=0, hi=4):
        return [self.trace()] + super().body(d, lo, hi)

    def cond(self):
        s = self.s
        k = s.below(8)
        if k < 3 and self.live:
            v = s.pick(self.live)
            op = s.pick(["==", "!=", "<", ">", "<=", ">="])
            return ["cmp", op, ["call", "int", [["var", v]]], self.signed(s.between(-2, 4)), False]
        if k < 5:
            return ["call", "DataFileExists", [["str", s.pick("abcdef")]]]
        if k == 5:
            return self.any_bool(1)
        if k == 6:
            op = s.pick(["<", ">=", "=="])
            return ["cmp", op, ["inc", "++", "pre", "i"], ["int", s.below(6)], False]
        return ["bool", s.flag()]

    def s_if(self, d):
        s = self.s
        arms = [[self.cond(), self.body(d - 1)]]
        for _ in range(directed.size(s, s.pick([0, 0, 1, 2, 3, 5]), 20)):
            arms.append([self.cond(), self.body(d - 1)])
        return [["if", arms, self.body(d - 1) if s.flag() else None]]

    def jump(self):
        """Break or Continue under a condition, from a nested statement."""
        s = self.s
        j = [s.pick(["break", "continue"])] if self.loops else ["break"]
        return ["if", [[self.cond(), [j]]], None]

    def looped(self, d, var):
        self.live = self.live + ((var,) if var else ())
        b = self.in_loop(d)
        if self.s.below(3):
            b.insert(self.s.below(len(b) + 1), self.wrap_jump())
        self.live = self.live[: -1 if var else None]
        return b

    def wrap_jump(self):
        self.loops += 1
        j = self.jump()
        s = self.s
        k = s.below(5)
        if k == 0:
            j = ["exec", [j], s.pick(["lit", "concat"])]
        elif k == 1:
            j = ["if", [[["bool", True], [j, self.trace()]]], None]
        elif k == 2:
            # Break leaves the select, Continue leaves it too
            opt = [["str", "o"], ["str", ""], ["str", ""]]
            j = ["select", s.pick(["One", "Many"]), ["str", "q"], [opt],
                 [[["str", "o"], [j, self.trace()]]], [self.trace()]]  # fmt: skip
        self.loops -= 1
        return j

    def tower(self, d):
        """Nested statements of any kinds, with a jump at the bottom."""
        s = self.s
        if d <= 0:
            jumps = ["continue", "break"] if self.loops else ["break"] if self.cases else []
            if not jumps:
                return [self.trace()]
            jump = [s.pick(jumps)]
            return [["if", [[self.cond(), [jump]]], None]] if s.below(3) else [jump]
        k = s.pick([0, 1, 2, 3, 4, 4, 5, 5, 6, 7, 8])
        if not self.loops and s.below(4):
            k = s.below(4)
        live = self.live
        if k < 4:
            self.loops += 1
        if k < 6:
            self.cases += 1
        var = self.fresh("t")
        if k < 3:
            self.live = live + (var,)
        stmts = [self.trace()] + self.tower(d - 1) + [self.trace()]
        if s.chance(20):
            stmts += self.tower(0)
        if k < 4:
            self.loops -= 1
        if k < 6:
            self.cases -= 1
        self.live = live
        if k == 0:
            return [["for", var, ["int", 1], ["int", 2], None, stmts]]
        if k == 1:
            cond = ["cmp", "<", ["var", var], ["int", 2], False]
            up = ["expr", ["inc", "++", "post", var]]
            return [["set", var, ["int", 0]], ["while", cond, [up] + stmts]]
        if k == 2:
            return [["forin", var, ["str", "12"], stmts]]
        if k == 3:
            return [["forin", var, ["sps"], stmts]]
        if k < 6:
            options = [[["str", n], ["str", ""], ["str", ""]] for n in ["|a", "b"]]
            cases = [[["str", "a"], stmts]]
            if s.flag():
                options.pop()
            if s.flag():
                cases.insert(s.below(2), [["str", "b"], [self.trace()]])
            for c in cases:
                if s.below(3) == 2:
                    c[1] = c[1] + [["break"]]
            default = s.pick([None, None, [self.trace()], stmts])
            return [["select", ["One", "Many"][k - 4], ["str", "q"], options, cases, default]]
        if k == 6:
            arms = [[["bool", False], [self.trace()]] for _ in range(s.below(3))]
            if arms and s.flag():
                return [["if", arms, stmts]]
            return [["if", arms + [[self.cond(), stmts]], None]]
        if k == 7:
            return [["exec", stmts, s.pick(["lit", "concat"])]]
        return [["if", [[self.cond(), stmts]], [self.trace()]]]

    def bound(self):
        s = self.s
        k = s.below(8)
        if k == 7:
            return ["bool", s.flag()]
        if k == 6:
            return ["bin", "%", ["inc", "++", "post", "i"], ["int", s.between(1, 6)]]
        if k == 5 and self.live:
            return ["bin", "%", ["call", "int", [["var", s.pick(self.live)]]], ["int", 5]]
        return self.signed(s.between(-4, 7))

    def s_for(self, d):
        s = self.s
        by = None
        if s.below(3):
            by = self.signed(s.pick([1, 2, 3, 5, -1, -2, -3, -5, 1, -1, 100, -100]))
            if s.chance(15):
                by = ["paren", by]
            if s.chance(2):
                by = s.pick([["bool", True], ["bool", False], ["int", 0]])
        var = self.fresh("x") if s.below(5) else s.pick(["i", "j"])
        start, end = self.bound(), self.bound()
        if s.chance(6):
            # Left long before its end
            by, end = s.pick(
                [
                    [None, ["int", 10**12]], [["int", 1], ["int", 2**63]],
                    [["int", 7], ["int", 10**30]], [self.signed(-1), self.signed(-(10**15))],
                ]
            )  # fmt: skip
            body = self.looped(d, var)
            n = ["int", s.below(4)]
            out = ["if", [[["cmp", ">=", ["inc", "++", "pre", "long"], n, False], [["break"]]]], None]
            return [["set", "long", ["int", 0]], ["for", var, start, end, by, [out] + body]]
        body = self.looped(d, var)
        out = [["for", var, start, end, by, body]]
        if s.flag():
            out.append(["kw", "Note", [["call", "str", [["var", var]]]]])
        return out

    def s_forin(self, d):
        s = self.s
        var = self.fresh("y")
        k = s.below(4)
        if k == 0:
            e = ["str", s.pick(["", "1", "123", "10", "21"])]
            return [["forin", var, e, self.looped(d, var)]]
        if k == 1:
            return [["forin", var, self.e_str(0), self.looped(d, None)]]
        if k == 2 and self.nfiles:
            e = ["idx", ["sps"], ["int", s.below(len(self.nfiles))]]
            if self.sp_vars and s.flag():
                e = ["var", s.pick(self.sp_vars)]
            return [["forin", var, e, self.looped(d, None)]]
        self.sp_vars.append(var)
        b = self.looped(d, None)
        self.sp_vars.pop()
        return [["forin", var, ["sps"], b]]

    def s_while(self, d):
        s = self.s
        var = self.fresh("w")
        n = s.between(1, 5)
        body = self.looped(d, var)
        # Before the body: a Continue must not skip it
        up = ["expr", ["inc", s.pick(["++"]), s.pick(["pre", "post"]), var]]
        k = s.below(3)
        if k == 0:
            cond = ["cmp", "<", ["var", var], ["int", n], False]
            return [["set", var, ["int", 0]], ["while", cond, [up] + body]]
        if k == 1:
            cond = ["cmp", "<=", up[1], ["int", n], False]
            return [["set", var, ["int", 0]], ["while", cond, body]]
        cond = ["inc", "--", s.pick(["pre", "post"]), var]
        return [["set", var, ["int", n]], ["while", cond, body]]


STMTS = {
    "set": 3, "cset": 2, "inc": 2, "note": 0, "if": 6, "for": 6, "forin": 4, "while": 4,
    "selectone": 1, "selectmany": 1, "decide": 1, "break": 2, "continue": 2, "exec": 1, "kw": 0,
    "ini": 0, "req": 0, "call": 0, "return": 0, "cancel": 0,
}  # fmt: skip


def long(s):
    """A loop that goes on for long."""
    n = s.pick([260, 600, 1100, 2100, 3000])
    x = ["var", "x"]
    often = ["cmp", "==", ["bin", "%", x, ["int", s.pick([97, 250, 500])]], ["int", 0], False]
    note = ["if", [[often, [["kw", "Note", [["call", "str", [x]]]]]]], None]
    body = [["cset", "+", "sum", x]] + s.pick([[], [note], [["if", [[often, [["continue"]]]], None]]])
    if s.below(4) == 3:
        body.append(["if", [[["cmp", "==", x, ["int", n - 50], False], [["break"]]]], None])
    k = s.below(4)
    profile = "none"
    if k == 3:
        # All that there is
        profile = "big"
        e = s.pick([["sps"], ["idx", ["sps"], ["int", 0]], ["var", "text"]])
        note = ["if", [[["cmp", "==", ["bin", "%", ["var", "sum"], ["int", 50]], ["int", 0], False],
                        [["kw", "Note", [["call", "str", [x]]]]]]], None]  # fmt: skip
        body = [["cset", "+", "sum", ["int", 1]], note]
        loop = [["set", "text", ["str", "abcdefghi " * 30]], ["forin", "x", e, body]]
    elif k == 0:
        loop = [["for", "x", ["int", 1], ["int", n], None, body]]
    elif k == 1:
        by = ["un", "-", ["int", 1]]
        loop = [["for", "x", ["int", n], ["int", 1], by, body]]
    else:
        cond = ["cmp", "<", ["inc", "++", "pre", "x"], ["int", n], False]
        loop = [["set", "x", ["int", 0]], ["while", cond, body]]
    return {"prog": [["set", "sum", ["int", 0]]] + loop + [["kw", "Note", [["str", "end"]]]],
            "dec": [], "salt": 0, "profile": profile}  # fmt: skip


def deep(s):
    """A jump inside of many statements that are all entered."""
    g = Flow(s, profile="none", stmts=STMTS)
    g.live = ("x",)
    g.loops = g.cases = 1
    stmts = [g.trace(), s.pick([["break"], ["continue"], g.jump()]), g.trace()]
    execs = 0
    most = s.pick([5, 8, 5])
    for _ in range(directed.size(s, s.between(4, 20), 20)):
        k = s.below(most)
        if k == 7 and not execs:
            execs = 1
            stmts = [["exec", stmts, "lit"]]
        elif k > 4:
            opt = [[["str", n], ["str", ""], ["str", ""]] for n in ("b", "|o")]
            # Break would leave it
            stmts = [["select", s.pick(["One", "Many"]), ["str", "q"], opt,
                      [[["str", "o"], stmts + [g.trace()]]], None]]  # fmt: skip
        else:
            arms = [[["bool", False], [g.trace()]] for _ in range(s.pick([0, 0, 0, 1, 3, 8, 14]))]
            if k == 4 and arms:
                stmts = [["if", arms, stmts]]
            else:
                stmts = [["if", arms + [[["bool", True], stmts]], s.pick([None, [g.trace()]])]]
        if s.flag():
            stmts.append(g.trace())
    loop = s.pick(
        [
            [["for", "x", ["int", 1], ["int", 3], None, stmts]],
            [["forin", "x", ["str", "12"], stmts]],
            [["set", "x", ["int", 0]],
             ["while", ["cmp", "<", ["inc", "++", "pre", "x"], ["int", 3], False], stmts]],
        ]
    )  # fmt: skip
    return {"prog": loop + [["kw", "Note", [["str", "end"]]]], "dec": [], "salt": s.below(8), "profile": "std"}


def build(s):
    kind = s.byte()
    if kind >= 253:
        return long(s)
    if kind >= 246:
        return deep(s)
    dec = gen.decisions(s, 4)
    salt = s.below(8)
    profile = s.pick(["std", "std", "std", "twice", "twice", "many"])
    g = Flow(s, profile=profile, stmts=STMTS, stray=s.pick([0, 0, 0, 0, 1]), depth=1, query=0, effects=4)
    if s.below(4) == 3:
        stmts = [g.trace()] + g.tower(s.between(2, 7)) + [g.trace()]
    else:
        stmts = g.body(s.pick([2, 2, 3, 3, 4]), 1, 3)
    return {"prog": g.prelude(stmts) + stmts, "dec": dec, "salt": salt, "profile": profile}


def case():
    return gen.cases(build, 260)


def run(c):
    common.SALT[0] = c["salt"]
    labels, outcome = diff.differential(c["prog"], c["profile"], dec=c["dec"], positions=True, fuel=100_000 if c["profile"] in ("none", "big") else 1500)
    if c["profile"] in ("none", "big"):
        labels.append("long")
    if not {"iterated", "if", "break-loop", "continue-loop"} & set(labels):
        labels.append("trivial")
    return labels


def show(c):
    return lang.render(c["prog"])
