"""The same script from every kind of source and encoding."""

import io
import os
import tempfile
from pathlib import Path

from lib import diff, gen, lang, real, ref
from lib.common import PROFILES

ID = "C22"
RULE = (
    "a case is a script, and sources it is read from; it is trivial when the script is"
    " ASCII and all of the sources give text"
)
QUICK = 4000
FUEL = 1_000_000
THOROUGH = 150_000
ASSUMPTIONS = [
    "the encoding of a file that is not UTF-8, nor starts with a byte order mark, is a"
    " guess, such files are not generated",
    "ASCII files with escape sequences of 7-bit encodings (ESC, ~{) are ambiguous, they"
    " are not read as bytes",
]

STMTS = {
    "set": 4, "note": 6, "if": 4, "for": 2, "forin": 2, "while": 1, "selectone": 4,
    "selectmany": 2, "break": 1, "exec": 2, "kw": 4, "ini": 2, "bad": 0, "cancel": 1,
    "return": 1,
}  # fmt: skip

ASCII = ["utf-8", "utf-8-sig", "utf-16-le", "utf-16-be"]
BOMS = {"utf-16-le": b"\xff\xfe", "utf-16-be": b"\xfe\xff"}
PADS = [500, 1018, 1018, 2042, 4090, 4090, 8186, 8186, 16378, 65530]
KINDS = ["stream", "stringio", "textfile", "path", "bytesio", "binfile"]

# Characters whose UTF-8 or UTF-16 form looks like something else, or is rare
CHARS = (
    "éèàüßñçøåÿ¿¡£€§°µ«»Œ“”‘’–—…"
    "日本語テスト中文简体한국어русскийязыкΕλληνικάעבריתالعربيةไทย"
    "\x80\x85\xa0\u0100\u2028\u2029\ufeff\ufffd\uffff\ufffe\u0a0d\u0d0a\u2000\u000b\x0c\x1c\x7f"
    "\U00010000\U0001f600\U0010ffff\U0001f1eb"
)


def char(s):
    if s.chance(6):
        # Ends of lines, kept in strings
        return s.pick(["\r\n", "\r\n\r\n", "\r", "\n", "\n\r", "a\r\n", "\t\r\n"])
    k = s.below(8)
    if k < 4:
        return s.pick(CHARS)
    if k < 6:
        return s.pick("abz AZ09.,!-_~{}+&$")
    if k == 6:
        return chr(0x80 + s.below(0x780))
    n = 0x800 + s.below(0x110000 - 0x800)
    return "é" if 0xD800 <= n < 0xE000 else chr(n)


def words(s):
    return "".join(char(s) for _ in range(s.pick([1, 1, 2, 3, 6, 12])))


def build(s):
    k = s.below(12)
    shape = "empty" if k == 11 else "blank" if k == 10 else "script"
    head = [words(s) for _ in range(s.pick([0, 0, 1, 2]))]
    tail = words(s) if s.flag() else ""
    lit = [[words(s), s.pick("\"'")] for _ in range(s.pick([1, 1, 0, 2]))]
    sources = [[s.pick(KINDS), s.pick(ASCII)] for _ in range(s.pick([2, 3, 4]))]
    dec = gen.decisions(s, 2)
    blank = s.pick(["\n", " \t\n", ";\n", "; a", "\n\n;", "\\\n"])
    # A long comment, up to the usual sizes of buffers
    pad = s.pick(PADS) + s.below(9) if s.chance(10) else 0
    g = gen.Gen(s, stmts=STMTS, depth=1, effects=10, spaces=False)
    prog = g.program(1, 5, s.pick([1, 1, 2]))
    if s.chance(15):
        # Fails soon, maybe on the first line
        fault = ["kw", "Note", [g.fault()]]
        prog = [fault] if s.flag() else [*prog[: s.below(2)], fault, *prog]
        head = head[: s.below(2)]
        lit = lit[: s.below(2)]
        pad = 0
    return {
        "prog": prog, "dec": dec, "head": head, "tail": tail, "lit": lit,
        "sources": sources, "shape": shape, "blank": blank, "pad": pad,
    }  # fmt: skip


def case():
    return gen.cases(build, 200)


def clean(text, quote=""):
    for c in ("\\" + quote) if quote else "\r\n\\":
        text = text.replace(c, "")
    return text


def script(c):
    prog = []
    text = ""
    if c["shape"] == "script":
        written = []
        for body, q in c["lit"]:
            prog.append(["kw", "Note", [["str", clean(body, q)]]])
            written.append(["kw", "Note", [["raw", clean(body, q), q]]])
        prog += c["prog"]
        text = lang.render(written + c["prog"])
    elif c["shape"] == "blank":
        text = c["blank"]
    if c["shape"] != "empty":
        text = "".join(f"; {clean(h)}\n" for h in c["head"]) + text
        if c["pad"]:
            text = ";" + "-" * c["pad"] + "\n" + text
        if c["tail"]:
            text += "\n;" + clean(c["tail"])
    return prog, text


def readable(kind, enc, text):
    """Whether the source has one meaning only."""
    if kind in ("stream", "stringio"):
        return True
    if text.startswith("\ufeff") and enc == "utf-8":
        return False
    if text.startswith("\0"):
        return False
    if kind != "textfile" and enc == "utf-8" and text.isascii():
        return "~{" not in text and "\x1b" not in text
    return True


def encode(text, enc):
    if enc == "utf-8-sig" and not text:
        return b""
    return BOMS.get(enc, b"") + text.encode(enc)


def read_from(kind, enc, text, folder, go):
    if kind == "stream":
        from antlr4 import InputStream

        return go(InputStream(text))
    if kind == "stringio":
        return go(io.StringIO(text, newline=""))
    data = encode(text, enc)
    if kind == "bytesio":
        return go(io.BytesIO(data))
    path = os.path.join(folder, "wizard.txt")
    with open(path, "wb") as fp:
        fp.write(data)
    if kind == "path":
        return go(Path(path))
    if kind == "binfile":
        with open(path, "rb") as fp:
            return go(fp)
    encoding = "utf-16" if enc in BOMS and data else enc
    with open(path, encoding=encoding, newline="") as fp:
        return go(fp)


def run(c):
    files = PROFILES["std"]
    prog, text = script(c)

    def go(source):
        return real.run(source, files, handler=ref.Handler(c["dec"]))

    expected, it = ref.run(prog, files, fuel=1500, handler=ref.Handler(c["dec"]))
    first = go(text)
    diff.compare(expected, first, text)
    labels = {"status:" + first["status"], c["shape"]}
    ascii_only = text.isascii()
    labels.add("ASCII" if ascii_only else "Unicode")
    if c["pad"]:
        labels.add("long")
    trivial = True
    with tempfile.TemporaryDirectory(prefix="c22-") as folder:
        for kind, enc in c["sources"]:
            if not readable(kind, enc, text):
                labels.add("ambiguous")
                continue
            other = read_from(kind, enc, text, folder, go)
            diff.compare(first, other, f"{kind} {enc}\n{text}", positions=True)
            labels.add(kind)
            if kind in ("path", "bytesio", "binfile"):
                labels.add("bytes " + enc)
                trivial = False
    if trivial and ascii_only:
        labels.add("trivial")
    return sorted(labels)


def show(c):
    return f"{c['sources']} {c['pad']}\n" + script({**c, "pad": 0})[1]
