"""RequireVersions, with any arguments anywhere in a program."""

from lib import diff, directed, gen, lang, real, ref
from lib.common import PROFILES
from lib.diff import expect, plain

ID = "C27"
RULE = (
    "a case is a program with RequireVersions statements; it is trivial when none of them"
    " is reached"
)
QUICK = 6000
THOROUGH = 150_000

STMTS = {
    "set": 3, "cset": 2, "inc": 1, "note": 2, "if": 3, "for": 4, "forin": 3, "while": 2,
    "selectone": 3, "selectmany": 3, "break": 1, "continue": 1, "exec": 3, "kw": 1,
    "ini": 0, "req": 14, "call": 1, "cancel": 1, "return": 1,
}  # fmt: skip

VERSIONS = ["1.2.0.416", "0", "", "", " ", "1", "0.0", "3.0.1", "é", "False", "None", "v 1"]
VERSIONS = directed.strings(VERSIONS)


class Versions(gen.Gen):
    def version(self):
        s = self.s
        k = s.below(12)
        if k < 4:
            return ["str", s.pick(VERSIONS)]
        if k < 6:
            return ["call", "str", [["inc", s.pick(["++", "--"]), s.pick(["pre", "post"]), self.loopless(gen.INT)]]]
        if k == 6:
            return self.expr(gen.STR, 1)
        if k == 7:
            # Empty, but not at first sight
            return ["slice", ["str", s.pick(VERSIONS)], ["int", s.below(3)], ["int", s.below(4)], None, False]
        if k == 8:
            return ["call", s.pick(["GetFilename", "GetFolder"]), [["str", s.pick(["a/b.esp", "", "x"])]]]
        if k == 9 and self.sp_vars:
            return ["var", s.pick(self.sp_vars)]
        if k == 10:
            return ["bin", "+", ["str", s.pick(VERSIONS)], ["str", s.pick(VERSIONS)]]
        if k == 11 and s.below(4) == 3:
            # Not a string
            return self.expr(s.pick([gen.INT, gen.FLOAT, gen.BOOL]), 1)
        return ["var", self.loopless(gen.STR)]

    def s_req(self, d):
        s = self.s
        n = s.pick([1, 2, 3, 4, 4, 2, 3]) if s.below(25) else s.pick([0, 5, 6])
        res = [["kw", "RequireVersions", [self.version() for _ in range(n)]]]
        if s.below(6) == 5:
            res.append(["kw", "Note", [["call", "str", [["var", self.loopless(gen.INT)]]]]])
        return res


def build(s):
    dec = gen.decisions(s, 3)
    steps = s.below(3)
    g = Versions(s, stmts=STMTS, depth=1, effects=15)
    return {"prog": g.program(1, 5, s.pick([1, 2, 2, 3])), "dec": dec, "steps": steps}


def case():
    return gen.cases(build, 220)


def run(c):
    labels, outcome = diff.differential(c["prog"], dec=c["dec"], fuel=1500)
    reqs = [e for e in outcome["events"] if e[0] == "req"]
    for e in reqs[:6]:
        labels.append(f"{sum(v[0] != 'void' for v in e[1])} versions")
    reached = bool(reqs)
    if not reached:
        labels.append("trivial")
    elif c["steps"]:
        steps(c, plain(reqs))
        labels.append("steps")
    return labels


def steps(c, reqs):
    """What the contexts tell, before being executed, and executed twice."""
    text = lang.render(c["prog"])
    r = real.make_runner(PROFILES["std"], ref.Handler())
    dec = ref.Handler(c["dec"])
    told, called = [], []
    try:
        ctx = r.make_top_level_context(text)
        while not isinstance(ctx, real.WizardTerminationContext):
            d = 0
            if real.is_ask(ctx):
                d = dec.dec[dec.n % len(dec.dec)]
                dec.n += 1
            r.the_events = []
            if type(ctx).__name__ == "WizardRequireVersionsContext":
                told.append(
                    [
                        ctx.game_version,
                        ctx.script_extender_version,
                        ctx.graphics_extender_version,
                        ctx.wrye_bash_version,
                    ]
                )
                if c["steps"] == 2:
                    try:
                        ctx.exec()
                    except Exception:
                        pass
                    once = [e for e in r.the_events if e[0] == "req"]
                    expect("calls of an execution", 1, len(once), text)
                    r.the_events = []
                before = ctx
                ctx = real.step(ctx, d)
                seen = [e for e in r.the_events if e[0] == "req"]
                expect("calls of an execution", 1, len(seen), text)
                if c["steps"] == 2:
                    expect("calls of the same context", plain(once), plain(seen), text)
                expect("context told", told[-1], [
                    before.game_version, before.script_extender_version,
                    before.graphics_extender_version, before.wrye_bash_version,
                ], text)  # fmt: skip
                called += seen
            else:
                ctx = real.step(ctx, d)
                expect("calls without RequireVersions", [], [e for e in r.the_events if e[0] == "req"], text)
    except Exception as ex:
        if type(ex).__name__ == "Violation":
            raise
    expect("calls", reqs, plain(called), text)
    expect(
        "versions of the contexts",
        reqs,
        plain([["req", [real.norm_value(v) for v in t]] for t in told[: len(reqs)]]),
        text,
    )


def show(c):
    return lang.render(c["prog"])
