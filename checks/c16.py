"""Notes and INI tweaks."""

from lib import diff, directed, gen, lang, real, ref
from lib.common import PROFILES
from lib.diff import expect, plain

ID = "C16"
RULE = (
    "a case is a program with notes and INI tweaks in any control flow; it is trivial"
    " when it records fewer than two of them"
)
QUICK = 7000
THOROUGH = 120_000

STMTS = {
    "set": 2, "cset": 2, "inc": 1, "note": 8, "if": 3, "for": 3, "forin": 2, "while": 1,
    "selectone": 1, "selectmany": 1, "break": 1, "continue": 1, "exec": 2, "kw": 1,
    "ini": 10, "req": 0, "call": 0, "cancel": 0, "return": 0,
}  # fmt: skip

FILES = ["a.ini", "A.INI", "a.INI", "b.ini", "B.ini", "é.ini", "É.INI", "sub/a.ini", "", " a.ini"]
FILES = directed.strings(FILES)
SECTIONS = directed.strings(["S", "s", "General", ""])
SETTINGS = directed.strings(["k", "K", "key"])


class Inis(gen.Gen):
    def string_of(self, pool):
        s = self.s
        k = s.below(12)
        if k < 8:
            return ["str", s.pick(pool)]
        if k < 10:
            return self.e_str(1)
        return ["bin", "+", ["str", s.pick(pool)], ["str", s.pick(["", "1", "é"])]]

    def s_ini(self, d):
        s = self.s
        f = self.string_of(FILES[: s.pick([3, 5, len(FILES)])])
        args = [f, self.string_of(SECTIONS), self.string_of(SETTINGS)]
        odd = s.below(3) if s.chance(4) else None
        if odd is not None:
            args[odd] = s.pick([["sps"], ["int", 3], ["bool", True], ["idx", ["sps"], ["int", 0]]])
        if s.below(5) > 2:
            return [["expr", ["call", "DisableINILine", args]]]
        k = s.below(9)
        if k == 0:
            value = ["sps"]
        elif k == 1 and self.nfiles:
            value = ["idx", ["sps"], ["int", s.below(len(self.nfiles))]]
        elif k == 2:
            value = self.effect_value()
        elif k == 3 and s.flag():
            value = self.nothing()
        else:
            value = self.any(1)
        args.append(value)
        k = s.below(4)
        if k == 1:
            args.append(self.nothing() if s.chance(25) else ["str", ""])
        elif k > 1:
            args.append(self.expr(gen.STR, 1) if not s.chance(3) else self.any(1))
        return [["expr", ["call", "EditINI", args]]]

    def nothing(self):
        """A call that gives no value."""
        args = [["str", self.s.pick(FILES)], ["str", "S"], ["str", "k"]]
        return ["call", "DisableINILine", args]

    def effect_value(self):
        return ["inc", "++", "pre", self.loopless(gen.INT)]

    def s_note(self, d):
        s = self.s
        k = s.below(8)
        if k == 6:
            return [["kw", "Note", [self.any(1)]]]
        if k == 7 and self.nfiles:
            return [["kw", "Note", [["idx", ["sps"], ["int", s.below(len(self.nfiles))]]]]]
        if k == 5:
            return [["kw", "Note", [["str", s.pick(["same", "", " ", "a\nb", "\0", "\0a\0", "\ufeff", " a "])]]]]
        return [["kw", "Note", [self.expr(gen.STR)]]]


def build(s):
    dec = gen.decisions(s, 2)
    sev = s.pick([{}, {}, {}, {"USAGE_OF_ANYTHING_IN_NOTE": "ALLOW"}, {"USAGE_OF_ANYTHING_IN_NOTE": "ERROR"}])
    ask = [s.pick(FILES + ["missing"]) for _ in range(2)]
    ask.append(gen.near(s, s.pick(FILES)))
    g = Inis(s, stmts=STMTS, depth=1, query=2, fault=s.pick([0, 0, 0, 1]))
    return {"prog": g.program(1, 6, s.pick([1, 2, 2])), "dec": dec, "sev": sev, "ask": ask}


def case():
    return gen.cases(build, 200)


class Keep(real.Recorder):
    """Keeps the state of the run."""

    def run(self, script):
        status, self.the_state = super().run(script)
        return status, self.the_state


def entry(t):
    res = [t.filename, t.section, t.setting]
    if hasattr(t, "value"):
        res += [real.norm_value(t.value), t.comment]
    return res


def run(c):
    files = PROFILES["std"]
    expected, it = ref.run(c["prog"], files, c["sev"], fuel=1500, handler=ref.Handler(c["dec"]))
    text = lang.render(c["prog"])
    r = real.make_runner(files, ref.Handler(c["dec"]), c["sev"], cls=Keep)
    got = real.run_on(r, text)
    diff.compare(expected, got, text)
    modified = [plain(m) for m in expected["state"]["modified"]]
    disabled = [plain(m) for m in expected["state"]["disabled"]]
    tweaks = r.the_state.tweaks
    names = sorted({m[0] for m in modified + disabled})
    expect("files()", names, list(tweaks.files()), text)
    expect("bool()", bool(names), bool(tweaks), text)
    for n in names + c["ask"]:
        for f in {n, n.lower(), n.upper()}:
            if f.lower() != n.lower():
                continue
            exp = [m for m in modified + disabled if m[0].lower() == n.lower()]
            expect(f"tweaks({f!r})", exp, [plain(entry(t)) for t in tweaks.tweaks(f)], text)
    labels = ["status:" + expected["status"]]
    n = len(expected["state"]["notes"]) + len(modified) + len(disabled)
    labels.append(f"{min(n, 10)} records")
    if modified and disabled:
        labels.append("both kinds")
    if any(e == ["warn"] for e in expected["events"]):
        labels.append("warned")
    if n < 2:
        labels.append("trivial")
    return labels


def show(c):
    return lang.render(c["prog"])
