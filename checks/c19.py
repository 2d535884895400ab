"""The same script in other layouts and spellings."""

import random

from lib import diff, gen, lang, real, ref
from lib.common import PROFILES

ID = "C19"
RULE = (
    "a case is a program and other ways to write it; it is trivial when no text differs"
    " from the plain one"
)
QUICK = 3400
THOROUGH = 120_000

STMTS = {
    "set": 5, "cset": 4, "inc": 3, "note": 4, "if": 5, "for": 4, "forin": 3, "while": 3,
    "selectone": 4, "selectmany": 3, "break": 2, "continue": 2, "exec": 3, "kw": 6,
    "ini": 3, "req": 2, "call": 4, "cancel": 1, "return": 1,
}  # fmt: skip

ALIASES = [
    ["SelectPlugin", "SelectEspm"],
    ["DeSelectPlugin", "DeSelectEspm"],
    ["SelectAllPlugins", "SelectAllEspms"],
    ["DeSelectAllPlugins", "DeSelectAllEspms"],
    ["RenamePlugin", "RenameEspm"],
    ["ResetPluginName", "ResetEspmName"],
    ["ResetAllPluginNames", "ResetAllEspmNames"],
    ["GetPluginStatus", "GetEspmStatus"],
    ["and", "&"],
    ["or", "|"],
    ["not", "!"],
]
SPELLINGS = {a: p for p in ALIASES for a in p}

# Position of the names in the nodes that have some
NAMED = {"kw": 1, "call": 1, "bin": 1, "un": 1}
EXPRS = {
    "int", "dec", "str", "raw", "bool", "sps", "var", "un", "bin", "cmp", "in", "idx",
    "slice", "call", "meth", "inc", "paren",
}  # fmt: skip


class Respell:
    """Chooses other spellings, according to what may change."""

    def __init__(self, seed, what):
        self.rnd = random.Random(seed)
        self.what = what

    def chance(self, what):
        return what in self.what and self.rnd.random() < 0.35

    def node(self, n):
        if not isinstance(n, list) or not n:
            return n
        k = n[0]
        if not isinstance(k, str):
            return [self.node(x) for x in n]
        if k == "str":
            if self.chance("quotes"):
                n = ["str", n[1], "'" if (n[2] if len(n) > 2 else '"') == '"' else '"']
        elif k == "exec":
            n = [k, self.node(n[1]), self.node(n[2])]
            if self.chance("layout"):
                n.append([self.rnd.randrange(1000), self.rnd.choice((0, 1, 2, 3))])
            return n
        elif k in ("raw", "bad", "var", "dec"):
            pass
        else:
            n = [k] + [self.node(x) for x in n[1:]]
            if k in NAMED and n[1] in SPELLINGS and self.chance("aliases"):
                n[1] = self.rnd.choice(SPELLINGS[n[1]])
        if k == "select" and n[3] and self.chance("layout"):
            n = n[:6] + ([] if len(n) > 6 else [True])
        if k in EXPRS and self.chance("parens"):
            for _ in range(self.rnd.choice((1, 1, 2))):
                n = ["paren", n]
        return n


WHATS = ["layout", "aliases", "quotes", "parens"]


def build(s):
    ways = []
    for _ in range(s.pick([1, 2, 2])):
        k = s.below(8)
        what = WHATS if k in (4, 5) else [WHATS[k % 4]]
        ways.append([s.below(65536), what, s.pick([3, 0, 1, 2])])
    dec = gen.decisions(s, 2)
    sev = s.pick([{}, {}, {"USAGE_OF_NOTSET_VARIABLES": "ERROR"}])
    g = gen.Gen(s, stmts=STMTS, depth=2, effects=12, fault=s.pick([0, 0, 0, 1]))
    return {"prog": g.program(2, 7, s.pick([1, 2, 2, 3])), "ways": ways, "dec": dec, "sev": sev}


def case():
    return gen.cases(build, 260)


def write(prog, way):
    seed, what, style = way
    prog = Respell(seed, what).node(prog)
    return lang.render(prog, [seed, style] if "layout" in what else None)


def run(c):
    files = PROFILES["std"]
    # Only to leave out what takes too long
    ref.run(c["prog"], files, c["sev"], fuel=1500, handler=ref.Handler(c["dec"]))
    text = lang.render(c["prog"])
    first = real.run(text, files, c["sev"], handler=ref.Handler(c["dec"]))
    labels = {"status:" + first["status"]}
    trivial = True
    for way in c["ways"]:
        other = write(c["prog"], way)
        if other != text:
            trivial = False
            labels.add("+".join(way[1]) if len(way[1]) == 1 else "all")
            if "layout" in way[1]:
                labels.add(f"style {way[2]}")
        second = real.run(other, files, c["sev"], handler=ref.Handler(c["dec"]))
        diff.compare(first, second, f"{text}\n---- or\n{other}")
    if trivial:
        labels.add("trivial")
    return sorted(labels)


def show(c):
    res = lang.render(c["prog"])
    for way in c["ways"]:
        res += f"\n---- or\n{write(c['prog'], way)}"
    return res
