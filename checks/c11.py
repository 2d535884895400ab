"""Exec, against the same statements written in place."""

from lib import diff, gen, lang, micro, real, ref
from lib.common import PROFILES
from lib.diff import expect, plain

ID = "C11"
RULE = (
    "a case is a program and the same one with sequences of its statements moved into"
    " Exec strings; it is trivial when no Exec is executed"
)
QUICK = 5000
THOROUGH = 60_000

STMTS = {
    "set": 4, "cset": 2, "inc": 1, "note": 4, "if": 4, "for": 4, "forin": 2, "while": 2,
    "selectone": 3, "selectmany": 2, "break": 3, "continue": 3, "exec": 0, "kw": 2,
    "ini": 1, "req": 1, "call": 1, "cancel": 1, "return": 1,
}  # fmt: skip


# What ends a script that is computed, and the variable that it sets
TAILS = [
    ["var", "i"],
    ["bin", "+", ["var", "i"], ["var", "j"]],
    ["inc", "++", "post", "i"],
    ["bin", "*", ["var", "j"], ["int", 10]],
    ["int", 7],
]


SIDES = [
    ["int", 3],
    ["bool", True],
    ["call", "len", [["str", "a"]]],
    ["inc", "++", "pre", "i"],
    ["inc", "--", "post", "j"],
    ["bin", "+", ["inc", "++", "post", "i"], ["inc", "++", "pre", "i"]],
    ["call", "GetFilename", [["str", "main.esp"]]],
    ["var", "unset1"],
]


def wrap(s, body, ids, depth):
    """Move parts of the body into Exec strings, here or deeper."""
    out = [inside(s, st, ids, depth) for st in body]
    if depth < 3 and s.flag():
        a = s.below(max(len(out), 1))
        b = s.between(min(a + 1, len(out)), len(out))
        moved = wrap(s, out[a:b], ids, depth + 1) if s.below(3) == 2 else out[a:b]
        if s.chance(30):
            # The same beginning with another end each time
            st = ["execset", s.pick(["r", "r", "q"]), s.pick(TAILS), out[a:b]]
            return out[:a] + [st] + out[b:]
        k = s.below(8)
        mode = ["lit", "lit", "concat", "single", "slice", "side", "var", "var"][k]
        if mode == "side":
            mode = ["side", s.pick(SIDES)]
        elif mode == "var":
            ids.append(0)
            mode = ["var", f"script{len(ids)}"]
        out = out[:a] + [["exec", moved, mode]] + out[b:]
    return out


def inside(s, st, ids, depth):
    k = st[0]
    if k == "if":
        arms = [[c, wrap(s, b, ids, depth)] for c, b in st[1]]
        return ["if", arms, wrap(s, st[2], ids, depth) if st[2] is not None else None]
    if k == "for":
        return st[:5] + [wrap(s, st[5], ids, depth)]
    if k == "forin":
        return st[:3] + [wrap(s, st[3], ids, depth)]
    if k == "while":
        return st[:2] + [wrap(s, st[2], ids, depth)]
    if k == "select":
        cases = [[x, wrap(s, b, ids, depth)] for x, b in st[4]]
        default = wrap(s, st[5], ids, depth) if st[5] is not None else None
        return st[:4] + [cases, default] + st[6:]
    return st


def unwrap(body, ids):
    """The program with the statements of the Exec strings in place."""
    out = []
    for st in body:
        k = st[0]
        if k == "exec":
            if isinstance(st[2], list) and st[2][0] == "side":
                # What computing the script does comes before it
                out.append(["expr", ["call", "str", [st[2][1]]]])
            out += unwrap(st[1], ids)
        elif k == "execset":
            # The value is computed before the statements
            ids.append(0)
            value = f"script_{len(ids)}"
            out.append(["set", value, st[2]])
            out += unwrap(st[3] if len(st) > 3 else [], ids)
            out.append(["set", st[1], ["var", value]])
        elif k == "if":
            arms = [[c, unwrap(b, ids)] for c, b in st[1]]
            out.append(["if", arms, unwrap(st[2], ids) if st[2] is not None else None])
        elif k == "for":
            out.append(st[:5] + [unwrap(st[5], ids)])
        elif k == "forin":
            out.append(st[:3] + [unwrap(st[3], ids)])
        elif k == "while":
            out.append(st[:2] + [unwrap(st[2], ids)])
        elif k == "select":
            cases = [[x, unwrap(b, ids)] for x, b in st[4]]
            default = unwrap(st[5], ids) if st[5] is not None else None
            out.append(st[:4] + [cases, default] + st[6:])
        else:
            out.append(st)
    return out


MISUSES = [
    # Statement, error
    ([["set", "r", ["call", "Exec", [["str", "x = 1"]]]]], "name"),
    ([["expr", ["bin", "+", ["call", "Exec", [["str", "x = 1"]]], ["int", 1]]]], "name"),
    ([["expr", ["paren", ["call", "Exec", [["str", "x = 1"]]]]]], "name"),
    ([["if", [[["call", "Exec", [["str", "x = 1"]]], []]], None]], "name"),
    ([["expr", ["meth", ["str", "x = 1"], "Exec", []]]], "name"),
    ([["expr", ["call", "len", [["call", "Exec", [["str", "x = 1"]]]]]]], "name"),
    ([["kw", "Note", [["call", "Exec", [["str", "x = 1"]]]]]], "name"),
    ([["expr", ["call", "EndExec", [["int", 1]]]]], "name"),
    ([["execexpr", [["str", "x = 1"], ["str", "x = 2"]]]], "type"),
    ([["execexpr", [["int", 3]]]], "type"),
    ([["execexpr", [["bool", True]]]], "type"),
    ([["execexpr", [["dec", "0.5"]]]], "type"),
    ([["execexpr", [["sps"]]]], "type"),
    ([["execexpr", [["idx", ["sps"], ["int", 0]]]]], "type"),
    ([["execexpr", [["call", "EditINI", [["str", "a"]] * 4]]]], "type"),
]


def build(s):
    dec = gen.decisions(s, 4)
    if s.chance(6):
        return {"misuse": s.below(len(MISUSES)), "note": s.pick(["a", "b"])}
    where = s.split(60)
    g = gen.Gen(s, stmts=STMTS, depth=1, query=2, effects=5, stray=s.pick([0, 0, 1]), fault=0)
    g.flags["fault"] = s.pick([0, 0, 0, 1])
    stmts = g.body(s.pick([1, 2, 2, 3]), 1, 4)
    stmts = wrap(where, g.prelude(stmts) + stmts, [], 0)
    written = lang.render(stmts)
    pre = [["set", v, ["int", s.below(9)]] for v in "ij" if f"{v} = " not in written]
    stmts = pre + stmts
    return {"prog": stmts, "dec": dec}


def case():
    return gen.cases(build, 200)


def run(c):
    if "misuse" in c:
        stmts, kind = MISUSES[c["misuse"]]
        stmts = [["kw", "Note", [["str", c["note"]]]], *stmts, ["kw", "Note", [["str", "no"]]]]
        got = micro.check(stmts, {})
        expect("error", kind, got, lang.render(stmts))
        return [f"misuse {kind}"]
    labels, outcome = diff.differential(c["prog"], dec=c["dec"], positions=True, fuel=1500)
    inline = lang.render(unwrap(c["prog"], []))
    got = real.run(inline, PROFILES["std"], handler=ref.Handler(c["dec"]))
    outcome, got = diff.strip_positions(outcome), diff.strip_positions(got)
    for state in (outcome["state"], got["state"]):
        for name in list(state["vars"]):
            if name.startswith("script"):
                del state["vars"][name]
    text = f"{lang.render(c['prog'])}\nin place:\n{inline}"
    for k in ("events", "status", "error", "state"):
        expect(k, plain(outcome[k]), plain(got[k]), text)
    if "exec" not in labels:
        labels.append("trivial")
    return labels


def show(c):
    return lang.render(MISUSES[c["misuse"]][0] if "misuse" in c else c["prog"])
