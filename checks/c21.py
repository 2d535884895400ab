"""Any text: noise, mutated programs, nested and truncated ones."""

import random
import re

from lib import gen, lang, real, ref
from lib.common import PROFILES, Violation
from lib.diff import expect, plain

ID = "C21"
RULE = (
    "a case is a text; it is trivial when it has fewer than two tokens or is a valid"
    " program without any error"
)
QUICK = 12000
THOROUGH = 150_000
STEPS = 150
FUEL = 600_000

WORDS = [
    "If", "Elif", "Else", "EndIf", "For", "from", "to", "by", "in", "EndFor", "While",
    "EndWhile", "SelectOne", "SelectMany", "Case", "Default", "EndSelect", "Break",
    "Continue", "Return", "Cancel", "Exec", "EndExec", "Note", "RequireVersions",
    "SelectAll", "DeSelectAll", "SelectSubPackage", "SelectPlugin", "RenameEspm",
    "ResetPluginName", "ResetAllEspmNames", "EditINI", "DisableINILine", "True", "False",
    "SubPackages", "and", "or", "not", "i", "s", "x", "y", "zz", "str", "int", "float",
    "len", "find", "startswith", "lower", "GetPluginStatus", "DataFileExists", "Expr",
    "(", ")", "[", "]", ",", ".", ":", "=", "==", "!=", "<", "<=", ">", ">=", "+", "-",
    "*", "/", "%", "^", "!", "&", "|", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=",
    "0", "1", "2", "3", "17", "1.5", '"a"', '"|a"', "'b'", '""', '"00 Core"', '"main.esp"',
    '"\\n"', '"\\', "'", '"', ";", "; c\n", "\\", "\n", "@", "#", "$", "{", "}", "é", "日",
    "?", "~", "`", "\0", "\ufeff", "_", "\u2028", "1a", "a1", ".5", "5.",
]  # fmt: skip


def noise(rnd, n):
    k = rnd.randrange(4)
    if k == 0:
        return "".join(chr(rnd.randrange(32, 127)) for _ in range(n))
    if k == 1:
        return "".join(
            chr(rnd.choice((rnd.randrange(0x250), rnd.randrange(0xD800), rnd.randrange(0xE000, 0x110000))))
            for _ in range(n)
        )
    if k == 2:
        return "".join(rnd.choice("\"'\\;\n\r \t()[]=.x1") for _ in range(n))
    return "".join(rnd.choice("IfFoorEndSlctCas \n\"x=1,()") for _ in range(n))


def soup(rnd, n):
    words = rnd.sample(WORDS, rnd.choice((4, 10, 30))) if rnd.random() < 0.5 else WORDS
    sep = rnd.choice((" ", " ", "\n", ""))
    return sep.join(rnd.choice(words) for _ in range(n))


def mutate(rnd, toks, n):
    toks = list(toks)
    for _ in range(n):
        if not toks:
            break
        i = rnd.randrange(len(toks))
        k = rnd.randrange(8)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, rnd.choice(toks))
        elif k == 2:
            j = rnd.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 3:
            toks = toks[:i] if rnd.random() < 0.3 else toks[:i] + toks[i + 2 :]
        elif k == 4:
            j = rnd.randrange(len(toks))
            toks[i:i] = toks[j : j + rnd.randrange(1, 6)]
        elif k == 5:
            toks[i] = rnd.choice(toks)
        else:
            toks.insert(i, rnd.choice(WORDS))
    return toks


def nested(rnd, n):
    """Deeply nested, possibly not closed."""
    pairs = [
        ("(", ")"), ("If True ", " EndIf"), ("While False ", " EndWhile"),
        ("For x from 1 to 1 ", " EndFor"), ("- ", ""), ("! ", ""), ("not ", ""),
        ("str(", ")"), ('"a"[', "]"), ('SelectOne "d", "a", "", "" Case "a" ', " Break EndSelect"),
        ("If False Elif True ", " Else EndIf"), ("1 + ", ""), ("x.str(", ")"),
        ("For y in SubPackages ", " EndFor"),
    ]  # fmt: skip
    chosen = [rnd.choice(pairs) for _ in range(min(n, 12))]
    closing = chosen[::-1]
    if rnd.random() < 0.4:
        closing = closing[: rnd.randrange(len(closing) + 1)]
    if rnd.random() < 0.2:
        rnd.shuffle(closing)
    return (
        "".join(a for a, _ in chosen)
        + rnd.choice(("1", "x = 1", "", "zz", 'Note "a"', "Break", "Continue", "Return"))
        + "".join(b for _, b in closing)
    )


EFFECT = ["call", "DisableINILine", [["str", "a.ini"], ["str", "S"], ["str", "k"]]]
ODD = [
    # Uses of the values of functions that give none, and of sub-packages
    ["kw", "Note", [EFFECT]],
    ["kw", "Note", [["call", "str", [EFFECT]]]],
    ["set", "v", EFFECT],
    ["kw", "Note", [["call", "str", [["var", "v"]]]]],
    ["kw", "Note", [["var", "v"]]],
    ["expr", ["bin", "+", ["str", "a"], ["call", "str", [EFFECT]]]],
    ["expr", ["cmp", "==", EFFECT, EFFECT, False]],
    ["expr", ["call", "len", [["call", "str", [["sps"]]]]]],
    ["kw", "Note", [["idx", ["sps"], ["int", 0]]]],
    ["set", "p", ["sps"]],
    ["kw", "Note", [["call", "str", [["sps"]]]]],
    ["kw", "Note", [["sps"]]],
    ["if", [[["var", "v"], [["kw", "Note", [["str", "true"]]]]]], None],
    ["forin", "y", ["sps"], [["kw", "Note", [["var", "y"]]]]],
    ["kw", "RenamePlugin", [["str", "main.esp"], ["call", "str", [EFFECT]]]],
    ["expr", ["call", "EditINI", [["str", "a.ini"], ["str", "S"], ["str", "k"], ["var", "v"]]]],
    ["expr", ["call", "EditINI", [["str", "a.ini"], ["str", "S"], ["str", "k"], ["var", "p"]]]],
]

STMTS = {"cancel": 1, "return": 1, "exec": 3, "while": 1}


def build(s):
    rnd = random.Random(s.below(1 << 24))
    kind = s.weighted((5, "mutated"), (2, "soup"), (1, "noise"), (1, "nested"), (1, "spliced"))
    n = s.between(1, 8)
    dec = gen.decisions(s, 2)
    in_exec = s.chance(12)
    if kind == "noise":
        text = noise(rnd, n * 8)
    elif kind == "soup":
        text = soup(rnd, n * 5)
    elif kind == "nested":
        text = nested(rnd, n * 2)
    else:
        g = gen.Gen(s, stmts=STMTS, depth=1, fault=1)
        prog = g.program(1, 4, s.pick([1, 2]))
        for _ in range(s.pick([0, 0, 1, 3])):
            prog.insert(s.below(len(prog) + 1), s.pick(ODD))
        if kind == "mutated":
            toks = mutate(rnd, lang.tokens(prog).toks, rnd.choice((1, 1, 2, 3, n)))
            text = rnd.choice((" ", " ", "\n")).join(toks)
        else:
            text = lang.render(prog)
            for _ in range(rnd.choice((1, 1, 2))):
                i = rnd.randrange(len(text) + 1)
                text = text[:i] + rnd.choice((noise, soup))(rnd, rnd.choice((1, 2, 5))) + text[i:]
            if rnd.random() < 0.3:
                text = text[: rnd.randrange(len(text) + 1)]
    if in_exec:
        text = "x = 2 Exec(" + lang.quote_string(text) + ')\nNote "end"'
    return {"text": tame(text), "kind": kind, "dec": dec}


def tame(text):
    """Without the powers that would take for ever."""
    if text.count("^") > 2:
        text = text.replace("^", "*")
    return text


def case():
    return gen.cases(build, 200)


RAW = {
    ZeroDivisionError: ("/", "%", "^"),
    OverflowError: ("^", "/", "float", "*", "int"),
    ValueError: ("int", "float", "by", ":", "^"),
}


def check_error(ex, text):
    if isinstance(ex, real.WizardError):
        place = [ex.line, ex.column]
        if not all(type(x) is int for x in place):
            raise Violation(f"place of the error: {place!r}\n{text!r}")
        expect("text of the error", f"Line {place[0]}, Column {place[1]}: {ex.message}", str(ex), repr(text))
        return real.error_kind(ex)
    if any(type(ex) is cls and any(w in text for w in words) for cls, words in RAW.items()):
        return "raw " + type(ex).__name__
    raise Violation(f"unexpected error {ex!r}\nscript: {text!r}") from ex


ADDRESS = re.compile("0x[0-9a-fA-F]{8}")


def huge(text, state):
    small = "^" in text
    for v in state.variables.values():
        v = v.value
        if isinstance(v, str) and len(v) > 20_000:
            return True
        if isinstance(v, int) and v.bit_length() > (7 if small else 20_000):
            return True
    return False


def run(c):
    text = c["text"]
    files = PROFILES["std"]
    handler = ref.Handler(c["dec"])
    r = real.make_runner(files, handler)
    n = 0
    outcome = None
    state = None
    try:
        ctx = r.make_top_level_context(text)
    except Exception as ex:
        outcome = ["READ", check_error(ex, text)]
    else:
        decs = ref.Handler(c["dec"])
        while outcome is None:
            if isinstance(ctx, real.WizardTerminationContext):
                outcome = [
                    "CANCEL"
                    if ctx.is_cancel()
                    else "RETURN"
                    if ctx.is_return()
                    else "COMPLETE"
                ]
                state = real.norm_state(ctx.state)
                break
            state = ctx.state
            n += 1
            if n > STEPS or huge(text, state):
                return ["cut", c["kind"]]
            d = 0
            if real.is_ask(ctx):
                if not list(ctx.options):
                    # Nothing to choose
                    d = None
                else:
                    d = decs.dec[decs.n % len(decs.dec)]
                    decs.n += 1
            try:
                ctx = real.step(ctx, d) if d is not None else ctx.select([]).exec()
            except Exception as ex:
                outcome = ["ERROR", check_error(ex, text)]
                state = real.norm_state(state)
    labels = [c["kind"], "outcome:" + " ".join(outcome)]
    if state is not None and "0x" not in text.lower() and ADDRESS.search(repr(state)):
        raise Violation(f"an address, which changes, in {state}\n{text!r}")
    if any(k for k in ("SelectOne", "SelectMany") if k in text):
        labels.append("selects")
    else:
        # Again, all at once; with a select the callbacks could have no answer
        got = real.run(text, files, handler=ref.Handler(c["dec"]))
        if outcome[0] == "READ":
            expect("run", "READ", got["status"], repr(text))
        else:
            expect("status", outcome[0], got["status"], repr(text))
            expect("state", plain(state), plain(got["state"]), repr(text))
            if outcome[0] == "ERROR":
                expect("error", outcome[1], check_error(got["exception"], text), repr(text))
    if outcome[0] == "COMPLETE" and n < 3:
        labels.append("trivial")
    return labels


def show(c):
    return c["text"]
