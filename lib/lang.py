"""
Abstract syntax of Wizard scripts (plain nested lists, so that cases are JSON) and its
rendering to text.

Expressions
  ["int", n or its text]  ["dec", "1.50"]  ["str", text]  ["str", text, quote]
  ["str", text, quote, 1]: tabs and newlines as they are  ["raw", body, quote]
  ["bool", b] ["sps"] ["var", name] ["un", "-"|"!"|"not", e] ["bin", op, l, r]
  ["cmp", op, l, r, ci] ["in", l, r, ci] ["idx", e, i] ["slice", e, a, b, c, colon2]
  ["call", name, args] ["meth", e, name, args] ["inc", "++"|"--", "pre"|"post", name]
  ["paren", e]
Statements
  ["expr", e] ["set", name, e] ["cset", op, name, e] ["if", [[cond, body]..], else|None]
  ["for", var, start, end, by|None, body] ["forin", var, e, body] ["while", cond, body]
  ["break"] ["continue"] ["cancel", e|None] ["return"]
  ["select", "One"|"Many", desc, [[n, d, i]..], [[label, body]..], default|None, comma?]
  ["kw", name, args] ["exec", body, mode] ["execexpr", args] ["execset", name, e]
  ["bad", tokens]
"""

import random
import re

BIN_LEVEL = {
    "^": 10,
    "*": 9,
    "/": 9,
    "%": 9,
    "+": 8,
    "-": 8,
    "|": 4,
    "or": 4,
    "&": 3,
    "and": 3,
}
CMP_LEVEL = {">": 7, ">=": 7, "<": 6, "<=": 6, "==": 5, "!=": 5}
UNARY = 19
PRIMARY = 100

HAZARD_FIRST = {"(", "-", "[", ".", "++", "--"}
ARGLESS = {
    "SelectAll",
    "DeSelectAll",
    "SelectAllPlugins",
    "SelectAllEspms",
    "DeSelectAllPlugins",
    "DeSelectAllEspms",
    "ResetAllPluginNames",
    "ResetAllEspmNames",
}

ESCAPES = {
    "\\": "\\\\",
    "\a": "\\a",
    "\b": "\\b",
    "\f": "\\f",
    "\n": "\\n",
    "\r": "\\r",
    "\t": "\\t",
}


def quote_string(text, quote='"', plain=False):
    out = []
    for ch in text:
        if ch == quote:
            out.append("\\" + ch)
        elif ch in ESCAPES and not (plain and ch in "\t\n\r"):
            out.append(ESCAPES[ch])
        else:
            out.append(ch)
    return quote + "".join(out) + quote


def level(e):
    k = e[0]
    if k == "bin":
        return BIN_LEVEL[e[1]]
    if k == "cmp":
        return CMP_LEVEL[e[1]]
    if k == "in":
        return 1
    if k == "un":
        return UNARY
    if k == "idx":
        return 12
    if k == "slice":
        return 12
    if k == "meth":
        return 20
    return PRIMARY


class Tokens:
    """Tokens of a script, with the token at which each node starts."""

    def __init__(self):
        self.toks = []
        self.marks = {}  # id(node) -> index of its first token
        self.keep = []  # keeps the marked nodes alive, so that the ids stay unique
        self.argless = False  # the last token is a keyword that may take arguments

    def mark(self, node):
        self.marks.setdefault(id(node), len(self.toks))
        self.keep.append(node)

    def t(self, *toks):
        self.toks.extend(toks)
        self.argless = False

    # Expressions

    def sub(self, e, minimum):
        if level(e) < minimum:
            self.t("(")
            self.expr(e)
            self.t(")")
        else:
            self.expr(e)

    def args(self, args):
        for i, a in enumerate(args):
            if i:
                self.t(",")
            self.expr(a)

    def expr(self, e):
        self.mark(e)
        k = e[0]
        if k == "int":
            self.t(str(e[1]))
        elif k == "dec":
            self.t(e[1])
        elif k == "str":
            self.t(quote_string(e[1], e[2] if len(e) > 2 else '"', len(e) > 3))
        elif k == "raw":
            self.t(e[2] + e[1] + e[2])
        elif k == "bool":
            self.t("True" if e[1] else "False")
        elif k == "sps":
            self.t("SubPackages")
        elif k == "var":
            self.t(e[1])
        elif k == "un":
            self.t(e[1])
            self.sub(e[2], 14)
        elif k == "bin":
            lv = BIN_LEVEL[e[1]]
            self.sub(e[2], lv)
            self.t(e[1])
            self.sub(e[3], lv + 1)
        elif k == "cmp":
            lv = CMP_LEVEL[e[1]]
            self.sub(e[2], lv)
            self.t(e[1])
            if e[4]:
                self.t(":")
            self.sub(e[3], lv + 1)
        elif k == "in":
            self.sub(e[1], 3)
            self.t("in")
            self.sub(e[2], 3)
            if e[3]:
                self.t(":")
        elif k == "idx":
            self.sub(e[1], 12)
            self.t("[")
            self.expr(e[2])
            self.t("]")
        elif k == "slice":
            # A slice is a suffix too, and binds like an index to what is on its left
            self.sub(e[1], 12)
            self.t("[")
            a, b, c, colon2 = e[2:6]
            if a is not None:
                self.sub(a, 2)
            self.t(":")
            if b is not None:
                self.sub(b, 2)
            if c is not None or colon2:
                self.t(":")
                if c is not None:
                    self.sub(c, 2)
            self.t("]")
        elif k == "call":
            self.t(e[1], "(")
            self.args(e[2])
            self.t(")")
        elif k == "meth":
            self.sub(e[1], 20)
            self.t(".", e[2], "(")
            self.args(e[3])
            self.t(")")
        elif k == "inc":
            if e[2] == "pre":
                self.t(e[1], e[3])
            else:
                self.t(e[3], e[1])
        elif k == "paren":
            self.t("(")
            self.expr(e[1])
            self.t(")")
        else:
            raise AssertionError(k)

    # Statements

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def separate(self, first, is_expr):
        if not self.toks:
            return
        if (first in HAZARD_FIRST and self.ends_expression()) or (
            self.argless and is_expr
        ):
            self.t("If", "False", "EndIf")

    def ends_expression(self):
        last = self.toks[-1]
        return last not in {
            "EndIf",
            "EndFor",
            "EndWhile",
            "EndSelect",
            "Else",
            "Default",
            "Break",
            "Continue",
            "Return",
        }

    def stmt(self, s):
        k = s[0]
        if k in ("expr", "exec", "execexpr", "execset"):
            # Render aside to know the first token
            probe = Tokens()
            if k == "expr":
                probe.expr(s[1])
            elif k == "exec" and isinstance(s[2], list) and s[2][0] == "var":
                probe.t(s[2][1])
            else:
                probe.t("Exec")
            self.separate(probe.toks[0], True)
        elif k == "bad":
            self.separate(s[1][0], True)
        elif k == "inc":
            raise AssertionError
        self.mark(s)
        if k == "expr":
            self.expr(s[1])
        elif k == "set":
            self.t(s[1], "=")
            self.expr(s[2])
        elif k == "cset":
            self.t(s[2], s[1] + "=")
            self.expr(s[3])
        elif k == "if":
            for i, (cond, body) in enumerate(s[1]):
                self.t("Elif" if i else "If")
                self.expr(cond)
                self.body(body)
            if s[2] is not None:
                self.t("Else")
                self.body(s[2])
            self.t("EndIf")
        elif k == "for":
            self.t("For", s[1], "from")
            self.expr(s[2])
            self.t("to")
            self.expr(s[3])
            if s[4] is not None:
                self.t("by")
                self.expr(s[4])
            self.body(s[5])
            self.t("EndFor")
        elif k == "forin":
            self.t("For", s[1], "in")
            self.sub(s[2], 2)
            self.body(s[3])
            self.t("EndFor")
        elif k == "while":
            self.t("While")
            self.expr(s[1])
            self.body(s[2])
            self.t("EndWhile")
        elif k == "break":
            self.t("Break")
        elif k == "continue":
            self.t("Continue")
        elif k == "return":
            self.t("Return")
        elif k == "cancel":
            self.t("Cancel")
            if s[1] is not None:
                self.expr(s[1])
            else:
                self.argless = True
        elif k == "select":
            self.t("Select" + s[1])
            self.expr(s[2])
            for opt in s[3]:
                for x in opt:
                    self.t(",")
                    self.expr(x)
            if len(s) > 6 and s[6]:
                self.t(",")
            for label, body in s[4]:
                self.t("Case")
                self.expr(label)
                self.body(body)
            if s[5] is not None:
                self.t("Default")
                self.body(s[5])
            self.t("EndSelect")
        elif k == "kw":
            self.t(s[1])
            self.args(s[2])
            if not s[2]:
                self.argless = True
        elif k == "exec":
            self.exec_(s)
        elif k == "execexpr":
            self.t("Exec", "(")
            self.args(s[1])
            self.t(")")
        elif k == "execset":
            text = execset_text(s)[0]
            self.t("Exec", "(", quote_string(text), "+", "str", "(")
            self.expr(s[2])
            self.t(")", ")")
        elif k == "bad":
            self.t(*s[1])
        else:
            raise AssertionError(k)

    def exec_(self, s):
        _, body, mode = s[:3]
        text = exec_text(s)[0]
        if mode == "concat":
            cut = len(text) // 2
            parts = [text[:cut], text[cut:]]
        else:
            parts = [text]
        if isinstance(mode, list) and mode[0] == "var":
            # The script is in a variable
            self.t(mode[1], "=", quote_string(text), "Exec", "(", mode[1], ")")
            return
        if mode == "slice":
            text = f"({text})"
            self.t("Exec", "(", "(", quote_string(text[:2]), "+", quote_string(text[2:]))
            self.t(")", "[", "1", ":", "-", "1", "]", ")")
            return
        self.t("Exec", "(")
        for i, part in enumerate(parts):
            if i:
                self.t("+")
            self.t(quote_string(part, "'" if mode == "single" else '"'))
        if isinstance(mode, list):
            # ["side", expr]: evaluates expr too, adding nothing to the script
            self.t("+", "str", "(")
            self.expr(mode[1])
            self.t(")", "[", "0", ":", "0", "]")
        self.t(")")


# What the renderer may put between two statements
NOTHING = ["if", [[["bool", False], []]], None]


def tokens(stmts):
    t = Tokens()
    t.body(stmts)
    return t


BRACKETS = set("()[],")
WORD = re.compile(r"[A-Za-z0-9_]+\Z")
SYMBOL = {
    "+", "-", "*", "/", "%", "^", "!", "|", "&", "<", "<=", ">", ">=", "==", "!=", "=",
    "+=", "-=", "*=", "/=", "%=", "^=", ":", "++", "--",
}  # fmt: skip
COMPARISONS = {"<", "<=", ">", ">=", "==", "!="}


def may_touch(a, b):
    """Whether two tokens stay apart without anything between them."""
    if a in BRACKETS or b in BRACKETS or a[-1] in "\"'" or b[0] in "\"'":
        return True
    if a in COMPARISONS and b == ":":
        return True
    word_a, word_b = WORD.match(a), WORD.match(b)
    if word_a and b in SYMBOL or a in SYMBOL and word_b:
        return True
    if word_a and b == "." or a == "." and word_b:
        return not a[0].isdigit() and not b[0].isdigit()
    return False


SPACES = [" ", "  ", "\t", "\n", "\n\n", " \n  ", "\r\n", "\t ", "   ", "\n\t\n"]
COMMENTS = [
    "", "comment", " If EndIf (", ' it\'s "quoted', " \\", ";;", " x = 3", " é日", "\t",
    " Exec(\"",
]  # fmt: skip


def random_gap(rnd, a, b, style):
    """
    Something to put between two tokens, either of which may be None. style: 0 for spaces
    only, 1 with comments and continuations, 2 as little as possible, 3 everything.
    """
    touch = a is None or b is None or may_touch(a, b)
    k = rnd.random()
    if style == 2:
        return "" if touch else " "
    if touch and k < (0.5 if style != 0 else 0.2):
        return ""
    if style == 0 or k < 0.7:
        return rnd.choice(SPACES)
    gap = ""
    for _ in range(rnd.choice((1, 1, 2, 3))):
        k = rnd.random()
        if k < 0.3:
            gap += rnd.choice(SPACES)
        elif k < 0.6:
            gap += rnd.choice(("", " ")) + "\\" + rnd.choice(("\n", "\n", "\r\n")) + rnd.choice(("", " ", "\t"))
        else:
            gap += rnd.choice(("", " ")) + ";" + rnd.choice(COMMENTS) + rnd.choice(("\n", "\n", "\r\n"))
    return gap


def random_gaps(toks, lay):
    """The gaps before the tokens, and what is after the last one."""
    seed, style = lay
    rnd = random.Random(seed)
    prev = [None] + toks[:-1]
    gaps = [random_gap(rnd, a, b, style) for a, b in zip(prev, toks)]
    end = random_gap(rnd, toks[-1] if toks else None, None, style)
    if style in (1, 3) and rnd.random() < 0.3:
        end += " ;" + rnd.choice(COMMENTS)
    return gaps, end


STARTS_LINE = {
    "If", "Elif", "Else", "EndIf", "For", "EndFor", "While", "EndWhile", "SelectOne",
    "SelectMany", "Case", "Default", "EndSelect", "Break", "Continue", "Cancel",
    "Return", "Exec", "Note", "RequireVersions",
}  # fmt: skip


def layout(toks, starts=(), gaps=None):
    """
    Join the tokens. starts: indices of the tokens that begin a line. gaps: the gap put
    before each token (None: a space or a newline).

    Returns the text and the (line, column) of each token.
    """
    out = []
    pos = []
    line, col = 1, 0
    starts = set(starts)
    for i, tok in enumerate(toks):
        if gaps is not None:
            gap = gaps[i]
        elif i == 0 or tok == ":" and toks[i - 1] in COMPARISONS:
            gap = ""
        elif i in starts or tok in STARTS_LINE:
            gap = "\n"
        else:
            gap = " "
        for piece in (gap, tok):
            if piece is tok:
                pos.append((line, col))
            out.append(piece)
            nl = piece.count("\n")
            if nl:
                line += nl
                col = len(piece) - piece.rindex("\n") - 1
            else:
                col += len(piece)
    return "".join(out), pos


def statement_starts(t, stmts):
    res = set()

    def walk(body):
        for s in body:
            res.add(t.marks[id(s)])
            for b in bodies(s):
                walk(b)

    walk(stmts)
    return res


def bodies(s):
    """The statement lists directly inside a statement (not those of Exec)."""
    k = s[0]
    if k == "if":
        return [b for _, b in s[1]] + ([s[2]] if s[2] is not None else [])
    if k == "for":
        return [s[5]]
    if k == "forin":
        return [s[3]]
    if k == "while":
        return [s[2]]
    if k == "select":
        return [b for _, b in s[4]] + ([s[5]] if s[5] is not None else [])
    return []


def render(stmts, lay=None):
    return render_positions(stmts, lay)[0]


def render_expr(e):
    t = Tokens()
    t.expr(e)
    return layout(t.toks)[0]


def render_positions(stmts, lay=None):
    """
    Text, and the position of each node by id. lay: None for the plain layout, or the seed
    and the style of a random one.
    """
    t = tokens(stmts)
    if lay is None:
        text, pos = layout(t.toks, statement_starts(t, stmts))
    else:
        gaps, end = random_gaps(t.toks, lay)
        text, pos = layout(t.toks, gaps=gaps)
        text += end
    return text, {k: pos[i] for k, i in t.marks.items() if i < len(pos)}


def exec_text(s):
    """Script of an Exec() statement, and its positions."""
    return render_positions(s[1], s[3] if len(s) > 3 else None)


def execset_text(s):
    """
    What comes before the value in ["execset", name, e] or ["execset", name, e, body], and
    the positions of the statements of the body.
    """
    if len(s) == 3:
        return s[1] + " = ", {}
    text, pos = render_positions(s[3])
    return f"{text}\n{s[1]} = ", pos


def reductions(stmts):
    """The programs obtained by removing one statement or unwrapping one block."""
    n = len(stmts)
    if n > 3:
        yield stmts[: n // 2]
        yield stmts[n // 2 :]
    for i in range(n):
        yield stmts[:i] + stmts[i + 1 :]
    for i, s in enumerate(stmts):
        inner = bodies(s) + ([s[1]] if s[0] == "exec" else [])
        for b in inner:
            yield stmts[:i] + b + stmts[i + 1 :]
        k = s[0]
        if k == "if":
            for j, (c, b) in enumerate(s[1]):
                for r in reductions(b):
                    arms = s[1][:j] + [[c, r]] + s[1][j + 1 :]
                    yield stmts[:i] + [["if", arms, s[2]]] + stmts[i + 1 :]
                if len(s[1]) > 1:
                    arms = s[1][:j] + s[1][j + 1 :]
                    yield stmts[:i] + [["if", arms, s[2]]] + stmts[i + 1 :]
            if s[2] is not None:
                yield stmts[:i] + [["if", s[1], None]] + stmts[i + 1 :]
                for r in reductions(s[2]):
                    yield stmts[:i] + [["if", s[1], r]] + stmts[i + 1 :]
        elif k in ("for", "forin", "while", "exec"):
            at = {"for": 5, "forin": 3, "while": 2, "exec": 1}[k]
            for r in reductions(s[at]):
                yield stmts[:i] + [s[:at] + [r] + s[at + 1 :]] + stmts[i + 1 :]
        elif k == "execset" and len(s) > 3:
            yield stmts[:i] + [s[:3]] + stmts[i + 1 :]
            for r in reductions(s[3]):
                yield stmts[:i] + [s[:3] + [r]] + stmts[i + 1 :]
        elif k == "select":
            if len(s) > 6:
                yield stmts[:i] + [s[:6]] + stmts[i + 1 :]
            for j, (c, b) in enumerate(s[4]):
                cases = s[4][:j] + s[4][j + 1 :]
                yield stmts[:i] + [s[:4] + [cases, s[5]]] + stmts[i + 1 :]
                for r in reductions(b):
                    cases = s[4][:j] + [[c, r]] + s[4][j + 1 :]
                    yield stmts[:i] + [s[:4] + [cases, s[5]]] + stmts[i + 1 :]
            if len(s[3]) > 1:
                for j in range(len(s[3])):
                    opts = s[3][:j] + s[3][j + 1 :]
                    yield stmts[:i] + [s[:3] + [opts] + s[4:]] + stmts[i + 1 :]
            if s[5] is not None:
                yield stmts[:i] + [s[:5] + [None]] + stmts[i + 1 :]
                for r in reductions(s[5]):
                    yield stmts[:i] + [s[:5] + [r]] + stmts[i + 1 :]
