"""Variables, in programs that are straight lines, some of them run several times."""

from lib import diff, directed, gen, lang

ID = "C07"
RULE = (
    "a case is a straight-line program; it is trivial when it has less than three"
    " statements that set variables"
)
QUICK = 7000
THOROUGH = 120_000

# Names differing by case only, or close to keywords
NAMES = {
    gen.INT: ["i", "I", "n1", "N1", "_i", "If_", "iI", "the_number_of_" * 5 + "i", "the_number_of_" * 5 + "I"],
    gen.FLOAT: ["f", "F", "x_y"],
    gen.STR: ["s", "S", "str_", "inn", "Note1", "s" * 130, "s" * 131],
    gen.BOOL: ["b", "B", "true"],
    gen.SP: ["p"],
}
EDGES = [
    ["int", 0], ["dec", "0.0"], ["un", "-", ["dec", "0.0"]], ["bool", False],
    ["bool", True], ["int", 1], ["un", "-", ["int", 1]], ["dec", "1.0"], ["dec", "0.5"],
    ["str", ""], ["str", "0"], ["sps"], ["idx", ["sps"], ["int", 0]], ["int", 2**63],
    ["call", "DisableINILine", [["str", "a.ini"], ["str", "S"], ["str", "k"]]],
]  # fmt: skip
STMTS = {
    "set": 10, "cset": 10, "inc": 8, "note": 2, "if": 0, "for": 0, "forin": 0, "while": 0,
    "selectone": 0, "selectmany": 0, "break": 0, "continue": 0, "exec": 1, "kw": 0,
    "ini": 1, "req": 1, "call": 3,
}  # fmt: skip


class Vars(gen.Gen):
    def s_cset(self, d):
        s = self.s
        if not s.chance(20):
            return super().s_cset(d)
        # The variable is changed by the computation of what is added to it
        name = s.pick(self.vars[gen.INT])
        e = ["inc", s.pick(["++", "--"]), s.pick(["pre", "post"]), name]
        if s.flag():
            e = ["bin", s.pick("+-*"), e, self.expr(gen.INT, 1)]
        return [["cset", s.pick("+-*"), name, e]]


def build(s):
    effects = s.pick([5, 20, 40])
    g = Vars(
        s,
        vars=NAMES,
        stmts=STMTS,
        effects=effects,
        unset=s.pick([0, 5, 20]),
        fault=s.pick([0, 0, 0, 2]),
        query=1,
        depth=3,
    )
    body = g.body(1, 3, s.pick([6, 12, 20]))
    pre = g.prelude(body)
    if s.below(3) == 2 and pre:
        # A variable that is not set before
        del pre[s.below(len(pre))]
    # Assignments between variables, retyping them
    for _ in range(s.below(4)):
        names = s.pick(list(NAMES.values()))
        a, b = s.pick(names), s.pick(names)
        body.insert(s.below(len(body) + 1), ["set", a, ["var", b]])
    # Values at the bounds of what is false, negative or of another type, and changes
    # around them
    every = [n for names in NAMES.values() for n in names]
    for _ in range(s.pick([0, 0, 1, 2, 4])):
        name = s.pick(every)
        at = s.below(len(body) + 1)
        value = s.pick(EDGES)
        change = s.pick(["++", "--", "+", "-", "*", "/", "%", "^"])
        if change in "/%^":
            # Numbers that may divide each other, and become of another type
            value = s.pick([["int", s.below(9)], ["dec", f"{s.below(9)}.0"], ["bool", True]])
            by = s.pick([["int", s.between(1, 4)], ["dec", f"{s.between(1, 4)}.0"], ["dec", "0.5"]])
            change = ["cset", change, name, by]
        elif change in ("++", "--"):
            change = ["expr", ["inc", change, s.pick(["pre", "post"]), name]]
        else:
            change = ["cset", change, name, s.pick(EDGES)]
        body[at:at] = [["set", name, value], change][s.below(4) == 3 :]
    if s.chance(8):
        # Many more variables
        many = [["set", f"v{i}", ["int", i]] for i in range(directed.size(s, s.between(20, 130), 200))]
        at = s.below(len(body) + 1)
        body[at:at] = many
        for _ in range(s.below(6)):
            n = f"v{s.below(len(many))}"
            body.append(["set", s.pick(every), ["var", n]])
            body.append(["cset", "+", n, ["int", 1]])
    if s.chance(12):
        # Run several times
        n = s.below(len(body))
        times = ["int", s.between(2, 3)]
        body[n:] = [["for", "times_", ["int", 1], times, None, body[n:]]]
    return {"prog": pre + body}


def case():
    return gen.cases(build, 220)


def run(c):
    labels, outcome = diff.differential(c["prog"], positions=True)
    text = lang.render(c["prog"])
    writes = text.count(" = ") + text.count("++") + text.count("--") + text.count("= ")
    if writes < 3:
        labels.append("trivial")
    if any(e[0] == "warn" for e in outcome["events"]):
        labels.append("unset")
    return labels


def show(c):
    return lang.render(c["prog"])
