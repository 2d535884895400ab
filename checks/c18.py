"""Class, place and absence of partial effects of the errors."""

from lib import diff, gen, lang, real, ref
from lib.common import ISSUES, PROFILES
from lib.diff import expect, plain

ID = "C18"
RULE = (
    "a case is a program with faulty expressions and statements, in a random layout; it is"
    " trivial when it ends without an error"
)
QUICK = 7000
THOROUGH = 150_000

STMTS = {
    "set": 6, "cset": 4, "inc": 2, "note": 3, "if": 5, "for": 4, "forin": 4, "while": 3,
    "selectone": 3, "selectmany": 3, "break": 3, "continue": 2, "exec": 4, "kw": 5,
    "ini": 3, "req": 2, "call": 4, "cancel": 1, "return": 0, "faulty": 5,
}  # fmt: skip


class Faults(gen.Gen):
    def s_faulty(self, d):
        """A statement that fails by itself (or an expression that fails)."""
        s = self.s
        k = s.below(20)
        if k < 3:
            e = self.nest(self.fault(), s.below(3))
            if e[:2] == ["call", "Exec"]:
                # An error only inside of something
                e = ["paren", e]
            return [["expr", e]]
        if k == 3:
            return [["set", "x", self.nest(self.fault(), s.below(3))]]
        if k == 4:
            return [["cset", s.pick("+-*/%^"), "neverset", self.expr(gen.INT, 1)]]
        if k == 5:
            # The faults of the operation itself
            v, e = s.pick(
                [
                    ["i", ["str", "a"]], ["s", ["int", 1]], ["b", ["str", ""]],
                    ["i", ["sps"]],
                ]
            )  # fmt: skip
            return [["cset", s.pick("+-*/%^") if v != "s" else s.pick("+-"), v, e]]
        if k == 6:
            name = s.pick(["SelectSubPackage", "SelectPlugin", "SelectEspm"])
            return [["kw", name, [["str", s.pick(["Missing", "no.esp", ""])]]]]
        if k == 7:
            name = s.pick(
                ["SelectAll", "DeSelectAll", "SelectAllEspms", "ResetAllPluginNames",
                 "RenamePlugin", "RenameEspm", "DeSelectAllPlugins", "SelectPlugin", "RenamePlugin", "RenameEspm", "Note",
                 "RequireVersions", "ResetPluginName", "DeSelectSubPackage"]
            )  # fmt: skip
            return [["kw", name, [self.expr(gen.STR, 1) for _ in range(s.pick([0, 1, 2, 3, 5]))]]]
        if k == 8:
            name = s.pick(["SelectPlugin", "DeSelectPlugin", "SelectSubPackage", "ResetEspmName"])
            return [["kw", name, [self.nest(s.pick([["int", 3], ["bool", True], ["sps"]]), s.below(2))]]]
        if k == 9:
            return [s.pick([["break"], ["continue"]])]
        if k == 10:
            b = s.pick([["dec", "1.5"], ["str", "1"], ["sps"]])
            bounds = [["int", 1], ["int", 2], None]
            bounds[s.below(3)] = self.nest(b, s.below(2))
            return [["for", "x", *bounds, self.in_loop(d)]]
        if k == 11:
            return [["cancel", self.nest(["int", 3], s.below(2))]]
        if k == 12:
            opt = [["str", "a"], ["str", "b"], ["str", "c"]]
            opt[s.below(3)] = self.nest(s.pick([["int", 3], ["bool", True]]), s.below(2))
            opts = [["str", "o"], ["str", ""], ["str", ""]]
            opts = s.pick([[opts, opt], [opt], [opt, opts]])
            cases = [[["str", "a"], self.body(d - 1, 0, 1)]] if d > 0 else []
            return [["select", s.pick(["One", "Many"]), ["str", "d"], opts, cases, None]]
        if k == 13:
            kind = s.pick(["One", "Many"])
            opts = [[["str", n], ["str", ""], ["str", ""]] for n in "ab"]
            desc = self.nest(["int", 3], s.below(2)) if s.flag() else ["str", "d"]
            label = self.nest(["bool", True], s.below(2))
            return [["select", kind, desc, opts, [[label, []]], None]]
        if k == 14:
            return [["execexpr", [["str", "x = 1"] for _ in range(s.pick([2, 0, 3]))]]]
        if k == 15:
            return [["execexpr", [self.nest(["int", 5], s.below(2))]]]
        if k == 16:
            return [["while", self.nest(self.fault(), s.below(3)), self.in_loop(d)]]
        if k == 17:
            return [["if", [[self.any_bool(1), []], [self.nest(self.fault(), s.below(3)), []]], None]]
        if k == 18:
            return [["forin", "y", self.nest(self.fault(), s.below(3)), self.in_loop(d)]]
        name = s.pick(["EditINI", "DisableINILine"])
        return [["expr", ["call", name, [self.expr(gen.STR, 0) for _ in range(s.pick([2, 6, 1, 0]))]]]]

    def fault(self):
        s = self.s
        if s.below(3) < 2:
            return super().fault()
        i = self.signed(s.pick([0, 1, 4, -1, -4, 99, -99]))
        sp = ["idx", ["sps"], i]
        return s.pick(
            [
                ["idx", self.str_lit(), i], sp, ["idx", sp, self.signed(s.between(-9, 9))],
                ["idx", ["str", "abc"], ["inc", "++", "pre", "i"]],
                ["idx", ["var", "s"], self.expr(gen.INT, 1)],
            ]
        )  # fmt: skip

    def nest(self, e, d):
        """An expression with that one inside, evaluated."""
        if d <= 0:
            return e
        s = self.s
        e = self.nest(e, d - 1)
        k = s.below(9)
        if k == 0:
            return ["paren", e]
        if k == 1:
            return ["bin", s.pick(["and", "or"]), self.any(0), e]
        if k == 2:
            return ["bin", "*", self.expr(gen.INT, 1), e]
        if k == 3:
            return ["un", s.pick(["-", "!", "not"]), e]
        if k == 4:
            return ["call", s.pick(["str", "len", "lower"]), [e]]
        if k == 5:
            return ["idx", self.str_lit(), e]
        if k == 6:
            return ["slice", self.str_lit(), None, e, None, False]
        if k == 7:
            return ["cmp", "==", e, self.any(0), False]
        return ["meth", self.str_lit(), s.pick(["find", "startswith"]), [e]]

    def s_exec(self, d):
        res = super().s_exec(d)
        if res[0][0] == "exec" and self.lay():
            res[0] = res[0][:3] + [self.lay()]
        return res

    def lay(self):
        s = self.s
        return [s.below(256), s.pick([0, 3, 1, 2])] if s.below(3) else None


def build(s):
    dec = gen.decisions(s, 2)
    sev = {}
    default = s.pick(["ERROR", "WARNING", "ALLOW"])
    for _ in range(s.pick([0, 1, 2])):
        sev[s.pick(ISSUES)] = s.pick(["ERROR", "WARNING", "ALLOW"])
    lay = [s.below(65536), s.pick([0, 3, 1, 2])] if s.flag() else None
    shift = [s.between(1, 5), s.below(4)]
    g = Faults(
        s, stmts=STMTS, depth=2, effects=12, unset=6, fault=s.pick([0, 1, 3])
    )
    return {
        "prog": program(g),
        "dec": dec,
        "sev": sev,
        "default": default,
        "lay": lay,
        "shift": shift,
    }


def program(g):
    stmts = g.body(g.s.pick([1, 2, 3]), 2, 7)
    # Most of the programs that got there
    stmts += g.s_faulty(1)
    return g.prelude(stmts) + stmts


def case():
    return gen.cases(build, 260)


PREFIXES = ["\n", "; a comment\n", " \t\n", ";\n"]


def run(c):
    files = PROFILES["std"]
    expected, it = ref.run(
        c["prog"], files, c["sev"], c["default"], fuel=1500,
        handler=ref.Handler(c["dec"]), lay=c["lay"],
    )  # fmt: skip
    text = lang.render(c["prog"], c["lay"])
    got = real.run(text, files, c["sev"], c["default"], handler=ref.Handler(c["dec"]))
    labels = ["status:" + expected["status"]]
    if expected["error"]:
        labels.append("error:" + expected["error"][0])
        if expected["error"][1]:
            labels.append("place")
    else:
        labels.append("trivial")
    if expected["status"] == "COMPLETE":
        # The other checks are for those
        diff.compare(expected, got, text)
        return labels
    diff.compare(expected, got, text, positions=True)
    if expected["error"] is None:
        return labels
    ex = got["exception"]
    if isinstance(ex, real.WizardError):
        message(ex, text)
        for what, x in expected["tells"].items():
            if what == "name" and not isinstance(ex, real.WizardNameError):
                what = "subpackage"
            told = getattr(ex, what)
            expect(f"{what} of the error", x, told if what == "index" else str(told), text)
            labels.append(f"tells {what}")
        # What is before moves it
        n, which = c["shift"]
        again = real.run(
            PREFIXES[which] * n + text, files, c["sev"], c["default"],
            handler=ref.Handler(c["dec"]),
        )  # fmt: skip
        diff.compare(expected, again, text)
        line = ex.line + (0 if it.in_exec_error else n)
        place = [again["exception"].line, again["exception"].column]
        expect(f"place after {n} more lines", [line, ex.column], place, text)
    return labels


def message(ex, text):
    where = f"Line {ex.line}, Column {ex.column}: "
    if not str(ex).startswith(where):
        expect("start of the message", where, str(ex), text)


def show(c):
    return f"{c['sev']} {c['default']}\n" + lang.render(c["prog"], c["lay"])
