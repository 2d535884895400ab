"""Select statements."""

from lib import diff, directed, gen, lang

ID = "C09"
RULE = (
    "a case is a program with select statements and the answers of the user; it is"
    " trivial when no select is reached"
)
QUICK = 6000
THOROUGH = 100_000

NAMES = ["a", "b", "c", "d", "A", "ab", "Long name", "é", "", " a", "a ", "1"]
NAMES = directed.strings(NAMES)
MARKS = ["", "", "", "|"]


class Selects(gen.Gen):
    def note(self):
        self.ids += 1
        return ["kw", "Note", [["str", f"n{self.ids}"]]]

    def computed(self, text):
        s = self.s
        k = s.below(6)
        if k == 0 and text:
            cut = s.below(len(text))
            return ["bin", "+", ["str", text[:cut]], ["str", text[cut:]]]
        if k == 1:
            # An effect in the middle of the select statement
            e = ["call", "str", [["inc", "++", "pre", "i"]]]
            return ["bin", "+", ["str", text], ["slice", e, ["int", 0], ["int", 0], None, False]]
        if k == 2:
            return ["var", "s"]
        if k == 3 and self.query:
            return ["call", "GetFilename", [["str", text]]]
        return ["paren", ["str", text]]

    query = True

    faults = False

    def text(self, text, percent=6):
        if self.faults and self.s.chance(4):
            return self.s.pick([["int", 1], ["bool", True], ["sps"], ["dec", "0.5"]])
        return self.computed(text) if self.s.chance(percent) else ["str", text]

    def select(self, kind, d):
        s = self.s
        names = []
        options = []
        # The same name can be given several times
        for _ in range(directed.size(s, s.pick([1, 2, 2, 3, 3, 4, 5, 8]), 60)):
            n = s.pick(NAMES) if s.below(4) else s.pick(NAMES[:3])
            mark = s.pick(MARKS)
            if s.chance(5):
                mark = s.pick(["||", " |", "|"])
            names.append((mark[1:] if mark[:1] == "|" else mark) + n)
            desc = s.pick(directed.strings(["", "", "d", "desc é\n2"]))
            image = s.pick(directed.strings(["", "", "i.png", " ", "\t\n ", " x ", "|i"]))
            options.append([self.text(mark + n), self.text(desc, 3), self.text(image, 3)])
        cases = []
        self.cases += 1
        for _ in range(directed.size(s, s.pick([0, 1, 2, 2, 3, 3, 4, 6]), 60)):
            label = s.pick(names) if s.below(6) else s.pick(NAMES + ["|a"])
            if s.chance(4):
                label = gen.near(s, label)
            body = [self.note()]
            if s.below(4) == 3:
                body += self.body(d - 1, 0, 2)
            k = s.below(8)
            if k < 4:
                body.append(["break"])
            elif k == 4:
                cond = s.pick([["bool", True], ["bool", False]])
                body.append(["if", [[cond, [["break"]]]], None])
                body.append(self.note())
            elif k == 5:
                body += [["break"], self.note()]
            elif k == 6 and s.flag():
                body = []
            cases.append([self.text(label), body])
        default = None
        if s.flag():
            default = [self.note()]
            if s.flag():
                default.append(["break"])
                default.append(self.note())
        self.cases -= 1
        comma = [True] if s.chance(15) else []
        return [["select", kind, self.text(s.pick(["", "What?", "é"])), options, cases, default, *comma]]


STMTS = {
    "set": 1, "cset": 1, "inc": 1, "note": 2, "if": 1, "for": 1, "forin": 0, "while": 1,
    "selectone": 5, "selectmany": 5, "decide": 2, "break": 2, "continue": 1, "exec": 1, "kw": 0,
    "ini": 0, "req": 0, "call": 0,
}  # fmt: skip


def build(s):
    # Any answer, whatever the number of options
    dec = [s.below(257) for _ in range(s.between(1, 5))]
    g = Selects(s, stmts=STMTS, depth=1, query=0, effects=3)
    g.faults = s.below(6) == 5
    depth = s.pick([1, 1, 2])
    stmts = []
    for _ in range(s.pick([1, 1, 2])):
        wrap = s.below(6)
        one = g.select(s.pick(["One", "Many"]), depth)
        one.append(g.note())
        if wrap == 0:
            one = [["for", "x", ["int", 1], ["int", s.between(1, 3)], None, one]]
        elif wrap == 1:
            one = [["exec", one, "lit"]]
        stmts += one
    return {
        "prog": [["set", "i", ["int", 0]], ["set", "s", ["str", s.pick(NAMES)]]]
        + g.prelude(stmts)
        + stmts,
        "dec": dec,
        "sev": s.pick([{}, {}, {"MULTIPLE_DEFAULTS_IN_SELECT_ON": "ALLOW"}]),
    }


def case():
    return gen.cases(build, 200)


def run(c):
    labels, outcome = diff.differential(
        c["prog"], dec=c["dec"], sev=c["sev"], positions=True, fuel=1500
    )
    asks = [e for e in outcome["events"] if e[0] in ("One", "Many")]
    for e in asks:
        labels.append(f"{e[0]} {len(e[2])} options {len(e[3])} defaults")
    if not asks:
        labels.append("trivial")
    return labels


def show(c):
    return lang.render(c["prog"])
