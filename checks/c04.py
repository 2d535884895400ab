"""Indexing, slicing and containment, against the sequences they denote."""

from lib import directed, gen, lang, micro

ID = "C04"
RULE = (
    "a case is up to three indexings, slicings or containment tests on generated strings"
    " and sub-packages; it is trivial when the sequence is empty and no error is expected"
)
QUICK = 16000
THOROUGH = 300_000
NAMES = ["00 Core", "01 Extra", "a", "A", "ab", "é", "É", "Main", "日本", "x y", "00 core",
         "Straße", "STRASSE", "İ", "ΑΣ"]
FILES = ["main.esp", "Main.esp", "a.dds", "A.DDS", "sub/é.esp", "Readme.txt", "é", "日",
         "Data/Main.esp", "Data/sub/a.dds", "sub\\b.esp", "Data/sub\\c d.esp", "c d.esp", "x_y/z w.dds", "Data/textures/" + "long name/" * 30 + "x.dds", "é.esp", "Straße.esp", "STRASSE.esp"]
NAMES = directed.strings(NAMES)
FILES = directed.strings(FILES)
# What is close to their names, without being one of them
PARTS = ["é.esp", "É.ESP", "a.dds", "sub", "SUB", "sub/", "Data", "data/sub", "sub/a.dds",
         "b.esp", "sub/b.esp", "main", ".esp", "/main.esp", "./main.esp", " main.esp",
         "main.esp\n", "*.esp", "", "data\\main.esp"]


def recase(s, n):
    return s.pick([n, n, n.lower(), n.upper(), n.swapcase()])


def build(s):
    files = []
    for _ in range(s.between(7, 40) if s.chance(4) else s.below(6)):
        n = s.pick(NAMES)
        if s.flag():
            n = f"{n}{s.below(3)}"
        files.append([n, [s.pick(FILES) for _ in range(s.below(5))]])
    text = "".join(s.pick("abcdefABé日\U0001f600 \n") for _ in range(directed.size(s, s.pick([0, 1, 2, 3, 5, 8, 20]))))
    variables = {"s": ["str", text], "l": ["sps"], "n": ["int", s.between(-3, 3)]}
    if files:
        variables["p"] = ["sp", s.below(len(files))]
        variables["q"] = ["sp", s.below(len(files))]
    ops = []
    for _ in range(s.between(1, 3)):
        ops.append(one(s, files, text, variables))
    return {"files": files, "vars": variables, "ops": ops}


def bound(s, n):
    k = s.below(10)
    if k < 7:
        i = s.between(-n - 2, n + 2)
    elif k == 7:
        i = s.pick([0, -1, n, -n, n - 1, -n - 1, n + 1])
    else:
        i = s.pick(directed.numbers([10**6, -(10**6), 2**31, -(2**31), 2**31 - 1, 2**63 - 1, 2**63, -(2**63) - 1, 10**30]))
    if i == 1 and s.flag():
        return ["bool", True]
    if s.chance(12):
        # Which one this is depends on what was evaluated before
        return ["inc", s.pick(["++", "--"]), s.pick(["pre", "post"]), "n"]
    if s.chance(12):
        # Whatever an expression may start with
        return s.pick([
            ["paren", number(s, i)], ["bool", False], ["bool", True], ["un", "!", number(s, i)],
            ["call", "int", [number(s, i)]], ["call", "len", [["var", "s"]]], ["un", "-", ["var", "n"]],
            ["sps"], ["str", "1"], ["dec", "1.0"], ["un", "not", ["var", "n"]], ["var", "n"],
        ])  # fmt: skip
    return number(s, i)


def number(s, i):
    e = ["int", abs(i)]
    if i < 0:
        e = ["un", "-", e]
    if s.chance(15):
        return ["bin", "+", e, ["int", 0]]
    return e


def one(s, files, text, variables):
    k = s.below(6)
    has = "p" in variables
    if k == 0:
        return ["idx", ["var", "s"], bound(s, len(text))]
    if k == 1:
        e = ["idx", ["sps"] if s.flag() else ["var", "l"], bound(s, len(files))]
        if s.below(4) == 3:
            # And of the name of that sub-package
            return ["idx", e, bound(s, 4)]
        return e
    if k == 2 and has:
        return ["idx", ["var", "p"], bound(s, len(files[variables["p"][1]][0]))]
    if k <= 3:
        bounds = [None if s.below(4) == 3 else bound(s, len(text)) for _ in range(2)]
        step = None
        if s.flag():
            n = s.pick([1, 2, 3, -1, -2, -3, 5, -5, 7, 100, -100, 2**40, -(2**63), 0])
            if directed.INTS and s.chance(20):
                n = s.pick(directed.INTS)
            step = bound(s, 2) if s.chance(15) else number(s, n)
        e = ["slice", ["var", "s"], bounds[0], bounds[1], step, s.flag()]
        if s.chance(20):
            return ["slice", e, None, bound(s, 3), None, s.flag()]
        if s.chance(10):
            return ["idx", e, bound(s, 3)]
        return e
    seq = ["sps"]
    pool = [n for n, _ in files] + NAMES
    if k == 5 and has:
        seq = ["var", "p"]
        pool = files[variables["p"][1]][1] + FILES
    if has and s.chance(15):
        item = ["var", "q"]
    elif s.chance(4):
        item = s.pick([["int", 3], ["bool", True], ["dec", "1.5"], ["sps"]])
    else:
        name = s.pick(pool[:8] if s.below(3) else pool)
        if s.chance(15):
            name = s.pick(PARTS)
        elif s.chance(15):
            name = gen.near(s, name)
        k = s.below(8)
        if k == 7:
            name = name[:-1]
        elif k == 6:
            name = name + s.pick("x ")
        elif k == 5:
            name = name + s.pick(["/", "\\", ".", "\n", "\0"])
        item = ["str", recase(s, name)]
    return ["in", item, seq, s.flag()]


def case():
    return gen.cases(build, 110)


def run(c):
    labels = []
    for e in c["ops"]:
        kind = micro.check([["set", "r", e]], c["vars"], c["files"])
        target = e[2] if e[0] == "in" else e[1]
        what = {"sps": "list", "idx": "nested", "slice": "nested"}.get(target[0])
        what = what or {"s": "string", "l": "list", "p": "package"}[target[1]]
        labels.append(f"{e[0]} {what}{':' if e[-1] is True else ''} {kind or 'value'}")
    empty = not c["vars"]["s"][1] and not c["files"]
    if empty and all(x.endswith("value") for x in labels):
        labels.append("trivial")
    return labels


def show(c):
    return [lang.render_expr(e) for e in c["ops"]] + [str(c["vars"]), str(c["files"])]
