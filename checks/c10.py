"""Cancel, Return and the end of the script."""

from lib import diff, gen, lang, real, ref
from lib.common import PROFILES
from lib.diff import expect, plain

ID = "C10"
RULE = (
    "a case is a program with Cancel or Return at generated places; it is trivial when it"
    " ends by reaching its end"
)
QUICK = 4000
THOROUGH = 80_000

STMTS = {
    "set": 4, "cset": 2, "inc": 1, "note": 5, "if": 4, "for": 3, "forin": 2, "while": 2,
    "selectone": 3, "selectmany": 2, "break": 1, "continue": 1, "exec": 3, "kw": 3,
    "ini": 2, "req": 0, "call": 0, "cancel": 2, "return": 2,
}  # fmt: skip


class Ends(gen.Gen):
    def s_cancel(self, d):
        s = self.s
        k = s.below(6)
        if k < 2:
            return [["cancel", None]]
        if k == 2:
            return [["cancel", self.str_lit()]]
        if k == 3:
            return [["cancel", ["bin", "+", ["str", "m"], ["call", "str", [self.e_int(1)]]]]]
        if k == 4:
            e = ["call", "str", [["inc", "++", "pre", self.loopless(gen.INT)]]]
            return [["cancel", e]]
        if s.chance(20):
            return [["cancel", self.e_int(0)]]
        return [["cancel", self.expr(gen.STR)]]

    def guarded(self, d):
        """An end that is reached in some iterations or cases only."""
        s = self.s
        end = s.pick([self.s_cancel, self.s_return])(d)
        return [["if", [[self.any_bool(1), end]], None]] if s.flag() else end

    def nested(self, stmts, d):
        s = self.s
        while d > 0:
            k = s.below(6)
            before, after = self.body(0, 0, 2), self.body(0, 0, 2)
            stmts = before + stmts + after
            if k == 0:
                stmts = [["if", [[["bool", True], stmts]], None]]
            elif k == 1:
                stmts = [["for", self.fresh("x"), ["int", 1], ["int", 2], None, stmts]]
            elif k == 2:
                stmts = [["forin", self.fresh("y"), ["sps"], stmts]]
            elif k == 3:
                opts = [[["str", n], ["str", ""], ["str", ""]] for n in "ab"]
                kind = s.pick(["One", "Many"])
                stmts = [["select", kind, ["str", "q"], opts, [[["str", "a"], stmts]], stmts]]
            elif k == 4:
                stmts = [["exec", stmts, s.pick(["lit", "concat", "single"])]]
            else:
                var = self.fresh("w")
                cond = ["cmp", "<", ["inc", "++", "pre", var], ["int", 3], False]
                stmts = [["set", var, ["int", 0]], ["while", cond, stmts]]
            d -= 1
        return stmts


def build(s):
    dec = gen.decisions(s, 4)
    g = Ends(s, stmts=STMTS, depth=1, query=0)
    if s.below(3):
        stmts = g.nested(g.guarded(1), s.between(0, 4))
        stmts = g.body(1, 0, 2) + stmts + g.body(1, 0, 2)
    else:
        stmts = g.body(3, 1, 5)
    return {"prog": g.prelude(stmts) + stmts, "dec": dec}


def case():
    return gen.cases(build, 200)


def run(c):
    labels, outcome = diff.differential(c["prog"], dec=c["dec"], fuel=1500)
    if outcome["status"] == "COMPLETE":
        labels.append("trivial")
        return labels
    if outcome["status"] in ("CANCEL", "RETURN"):
        # The termination context tells the same thing
        text = lang.render(c["prog"])
        r = real.make_runner(PROFILES["std"], ref.Handler(c["dec"]))
        ctx = r.make_top_level_context(text)
        n = 0
        while not isinstance(ctx, real.WizardTerminationContext):
            d = c["dec"][n % len(c["dec"])] if c["dec"] else 0
            n += real.is_ask(ctx)
            ctx = real.step(ctx, d)
        cancel = outcome["status"] == "CANCEL"
        expect("is_cancel()", cancel, ctx.is_cancel(), text)
        expect("is_return()", not cancel, ctx.is_return(), text)
        expect("is_complete()", False, ctx.is_complete(), text)
        message = outcome["events"][-1][1] if cancel else None
        expect("message()", message, ctx.message(), text)
        expect("state", plain(outcome["state"]), plain(real.norm_state(ctx.state)), text)
    return labels


def show(c):
    return lang.render(c["prog"])
