"""String literals, against an independent decoder."""

from lib import directed, gen, real, ref
from lib.common import Violation
from lib.diff import expect

ID = "C03"
RULE = (
    "a case is up to four literals; it is trivial when no literal has a backslash, a"
    " quote, a newline or a non-ASCII character"
)
QUICK = 18000
THOROUGH = 600_000
ASSUMPTIONS = [
    "a backslash right before a line feed or carriage return is a line continuation for"
    " the lexer, such literals are not valid and not generated",
]

HEX = "0123456789abcdefABCDEF"
SPECIAL = (
    "\n\r\t\v\f\0\x7f\x80\xa0\xff\u0100\u2028\ufeff\ud800\udfff\uffff\U00010000\U0001f600"
    "\U0010ffffé日ßİ;|'\"`$%{}()[]#@&"
)


def hexs(s, n):
    return "".join(s.pick(HEX) for _ in range(n))


def piece(s):
    k = s.below(16)
    if k < 3:
        return s.pick("abfnrtxuUvN019zZ _.,=")
    if k == 3:
        return s.pick(SPECIAL)
    if k == 4:
        # Any character
        n = s.below(0x110000)
        return chr(n)
    if k == 5:
        return chr(s.below(0x300))
    if k == 6:
        return "\\" + s.pick("\\abfnrt\\")
    if k == 7:
        return "\\" + "".join(s.pick("01234567") for _ in range(s.between(1, 4)))
    if k == 8:
        return "\\x" + hexs(s, s.pick([2, 2, 0, 1, 3]))
    if k == 9:
        return "\\u" + hexs(s, s.pick([4, 4, 0, 1, 2, 3, 5]))
    if k == 10:
        head = s.pick(["000", "001", "0010", "0000", "0001", "00110", ""])
        return "\\U" + head + hexs(s, max(0, s.pick([8, 8, 7, 6, 4, 9]) - len(head)))
    if k == 11:
        return "\\" + s.pick("'\"vNeg89AXz;, .") + s.pick(["", "", "{DIGIT ONE}", "41"])
    if k == 12:
        return "\\" + s.pick(SPECIAL)
    if k == 13:
        return "\\" * s.between(1, 5)
    if k == 14:
        return "\\" * s.between(1, 4) + s.pick(["x41", "u0041", "U00000041", "n", "101", "'", '"'])
    return s.pick(["If", "EndIf", ";", "\\N{BULLET}", "\n", "\\\\", "  "])


def lexable(body, quote):
    """Make the body one that can be between the quotes."""
    out = []
    i = 0
    while i < len(body):
        ch = body[i]
        if ch == "\\":
            nxt = body[i + 1 : i + 2]
            if nxt and nxt not in "\n\r":
                out.append(ch + nxt)
                i += 2
                continue
        elif ch != quote:
            out.append(ch)
        i += 1
    return "".join(out)


def decode(body):
    out = []
    i = 0
    n = len(body)
    simple = {"a": 7, "b": 8, "t": 9, "n": 10, "f": 12, "r": 13, "\\": 92}
    while i < n:
        ch = body[i]
        i += 1
        if ch != "\\":
            out.append(ch)
            continue
        c = body[i]
        if c in simple:
            out.append(chr(simple[c]))
            i += 1
        elif c in "01234567":
            j = i
            while j < n and j < i + 3 and body[j] in "01234567":
                j += 1
            out.append(chr(int(body[i:j], 8)))
            i = j
        elif c in "xuU":
            width = {"x": 2, "u": 4, "U": 8}[c]
            digits = body[i + 1 : i + 1 + width]
            if len(digits) == width and all(d in HEX for d in digits):
                code = int(digits, 16)
                if code <= 0x10FFFF:
                    out.append(chr(code))
                    i += 1 + width
                    continue
            # The backslash is dropped, the rest is kept
        # else: the same
    return "".join(out)


def build(s):
    lits = []
    for _ in range(s.between(1, 4)):
        q = s.pick("\"'")
        body = "".join(piece(s) for _ in range(s.pick([1, 2, 3, 4, 6, 12, 30])))
        if lits and s.chance(20):
            # Nearly one of the others
            old = s.pick(lits)[0]
            body = s.pick([old, old.upper(), old.lower(), old.swapcase(), old + " ", " " + old, old[:-1]])
        elif s.chance(4):
            body = body * s.between(2, 20)
        if directed.STRS and s.chance(20):
            body = s.pick(directed.STRS + directed.LONG)
        lits.append([lexable(body, q), q])
    return {"lits": lits, "sep": s.pick([" ", "\n", " ; comment '\n", "\t"])}


def case():
    return gen.cases(build, 120)


def run(c):
    parts = []
    for i, (body, q) in enumerate(c["lits"]):
        lit = q + body + q
        parts.append(f"v{i} = {lit}")
        parts.append(f"Note {lit}")
        parts.append(f"w{i} = v{i} + {lit}")
    text = c["sep"].join(parts)
    got = real.run(text, [], handler=ref.Handler())
    if got["status"] != "COMPLETE":
        raise Violation(f"{got['status']}: {got['exception']!r}\nscript: {text!r}")
    variables = {}
    for i, (body, q) in enumerate(c["lits"]):
        v = decode(body)
        variables[f"v{i}"] = ["string", v]
        variables[f"w{i}"] = ["string", v + v]
    expect("variables", variables, got["state"]["vars"], repr(text))
    expect("notes", [decode(b) for b, _ in c["lits"]], got["state"]["notes"], repr(text))
    labels = set()
    for body, q in c["lits"]:
        if "\\" in body:
            labels.add("escape")
        if decode(body) != body.replace("\\", ""):
            labels.add("replaced")
        if any(ord(ch) > 127 for ch in body):
            labels.add("non-ascii")
        if any(ord(ch) > 0xFFFF for ch in body):
            labels.add("astral")
        if "\n" in body or "\r" in body:
            labels.add("newline")
        if "'" in body or '"' in body:
            labels.add("quote")
    return sorted(labels) or ["trivial"]


def show(c):
    return [q + body.encode("ascii", "backslashreplace").decode() + q for body, q in c["lits"]]
