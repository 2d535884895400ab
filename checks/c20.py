"""Broken statements in programs, reached by the execution or not."""

from lib import diff, gen, lang, real, ref
from lib.common import PROFILES, Discard

ID = "C20"
RULE = (
    "a case is a program with broken statements; it is trivial when none of them is in a"
    " block and the execution reaches none"
)
QUICK = 7000
THOROUGH = 150_000

STMTS = {
    "set": 5, "cset": 3, "inc": 3, "note": 6, "if": 8, "for": 4, "forin": 3, "while": 4,
    "selectone": 4, "selectmany": 4, "break": 2, "continue": 2, "exec": 2, "kw": 4,
    "ini": 2, "req": 1, "call": 2, "cancel": 1, "return": 1,
}  # fmt: skip


def broken(s, g):
    """
    Tokens of a statement that is no statement, whatever single token is added to it or
    removed from it, and which starts as one.
    """

    def e():
        return [s.pick(["3", '"a"', "True"])]

    name = s.pick(["i", "s", "zz"])
    k = s.below(12)
    if k == 0:
        return [name, ".", "=", s.pick(["3", '"a"', "True"])]
    if k == 1:
        return [name, "["]
    if k == 2:
        return [name, "[", str(s.below(9))]
    if k == 3:
        return [name, ".", s.pick(["len", "y", "lower"])]
    if k == 4:
        return [name, "[", "]"]
    if k == 5:
        return [name, "=", "=", "="] + e()
    if k == 6:
        return ["For", s.pick(["3", '"a"', "True"]), "from", "1", "to", "2", "EndFor"]
    if k == 7:
        return ["For", "x", "from", "1", "EndFor"]
    if k == 8:
        return [name, "=", "=", "=", "="] + e()
    if k == 9:
        return ["str", "(", "1", ",", ")"]
    if k == 10:
        return [name, "=", ")"]
    return ["For", "x", "from", "to", "EndFor"]


SKIPPED = ["kw", "Note", [["str", "skipped"]]]

BLOCKS = {"if", "for", "forin", "while", "select"}


def build(s):
    dec = gen.decisions(s, 3)
    g = gen.Gen(s, stmts=STMTS, depth=1, effects=8)
    where = [[s.below(65536), s.below(256)] for _ in range(s.pick([1, 1, 2, 3]))]
    src = s.split(40)
    prog = g.program(2, 7, s.pick([1, 2, 2, 3]))
    g.s = src
    for w, at in where:
        put(prog, g, w, at)
    return {"prog": prog, "dec": dec}


def put(prog, g, w, at):
    """Put a broken statement in one of the bodies."""
    s = g.s
    places = []

    def walk(body, case):
        places.append((body, case))
        for st in body:
            if st[0] == "exec":
                walk(st[1], False)
            for i, b in enumerate(lang.bodies(st)):
                walk(b, st[0] == "select")

    walk(prog, False)
    body, case = places[w % len(places)]
    if any(st[0] == "bad" for st in body):
        return
    # The rest of the block is skipped, up to what looks like its end
    lo = 0
    for i, st in enumerate(body):
        if st[0] in BLOCKS or st[0] in REST:
            lo = i + 1
    if case:
        if not body or body[-1][0] != "break" or any(st[0] in BLOCKS for st in body):
            return
        lo = max([i + 1 for i, st in enumerate(body[:-1]) if st[0] == "break"] + [0])
        i = lo + at % (len(body) - lo)
    else:
        i = lo + at % (len(body) + 1 - lo)
    new = [["bad", broken(s, g)]]
    if s.flag() or case or i < len(body) and body[i][0] != "kw":
        new.append(["kw", "Note", [["str", "skipped"]]])
    body[i:i] = new


def check_places(body, case=False):
    """
    The parser skips the rest of the block after a broken statement, up to what looks like
    its end: what may come after it is limited.
    """
    bad = [i for i, st in enumerate(body) if st[0] == "bad"]
    if len(bad) > 1:
        raise Discard("places")
    for i in bad:
        if i + 1 < len(body) and body[i + 1][0] != "kw":
            raise Discard("places")
        tokens = body[i][1]
        if len(tokens) == 3 and tokens[1] == "." and tokens[2] != "=":
            # A call once the next token is removed, if a parenthesis comes after it
            if body[i + 1 : i + 2] != [SKIPPED]:
                raise Discard("places")
        after = body[i + 1 :]
        if case:
            if not after or after[-1][0] != "break":
                raise Discard("places")
            after.pop()
        if any(st[0] in BLOCKS or st[0] in REST for st in after):
            raise Discard("places")
        if case and any(st[0] in BLOCKS for st in body):
            raise Discard("places")
    for st in body:
        if st[0] == "exec":
            check_places(st[1])
        for b in lang.bodies(st):
            check_places(b, st[0] == "select")


REST = ("break", "expr", "exec", "execset")


def case():
    return gen.cases(build, 260)


def run(c):
    files = PROFILES["std"]
    check_places(c["prog"])
    expected, it = ref.run(c["prog"], files, fuel=1500, handler=ref.Handler(c["dec"]))
    text = lang.render(c["prog"])
    got = real.run(text, files, handler=ref.Handler(c["dec"]))
    diff.compare(expected, got, text)
    top = sum(s[0] == "bad" for s in c["prog"])
    n = str(c["prog"]).count("'bad'")
    labels = ["status:" + expected["status"], f"{n} broken"]
    reached = bool(expected["error"]) and expected["error"][0] == "parse"
    if reached:
        labels.append("reached")
    elif n > top:
        labels.append("not reached")
    else:
        labels.append("trivial")
    return labels


def show(c):
    return lang.render(c["prog"])
