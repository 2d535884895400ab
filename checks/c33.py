"""Texts of errors."""

import re

from checks import c18, c21
from lib import directed, gen, lang, real, ref
from lib.common import PROFILES
from lib.diff import expect

from antlr4 import CommonTokenStream, InputStream, Token
from antlr4.error.Errors import InputMismatchException, NoViableAltException
from antlr4.error.ErrorListener import ConsoleErrorListener
from wizard.antlr4.wizardLexer import wizardLexer
from wizard.contexts import WizardTopLevelContext
from wizard.errors import (
    WizardError,
    WizardIndexError,
    WizardMissingPackageError,
    WizardMissingPluginError,
    WizardNameError,
    WizardParseError,
    WizardTypeError,
    WizardUnsupportedOperation,
)

ID = "C33"
RULE = (
    "a case is a text, or a program with faulty statements, run until its error, or an error"
    " built by a host; it is trivial when there is no error of the wizard"
)
QUICK = 8000
THOROUGH = 120_000
STEPS = 150
FUEL = 600_000

# Tokens that break statements, with what has to be escaped in them
ODD = [
    '"a\nb"', "'a\r\nb'", '"\t"', "\"it's\"", "'\"'", '"\\n"', '"é日"', "12.50", "EndIf",
    "'" + "long " * 12 + "é\t'", "a" * 70, "1" * 60,
    "Case", ")", "]", ",", ":", "from", "=", "Default", "Elif", "'\\\\'", '"a\n\t\r"',
]  # fmt: skip
ODD += ["'" + "".join(c for c in x if c not in "\\'") + "'" for x in directed.STRS + directed.LONG]
STARTS = [
    "For x", "For x from 1", "For x in", "While", "If", "x = (1", "x =", "x = 1 +", "x[1",
    'SelectOne "d", "a", "b"', 'SelectMany "d", "a", "", "" Case', "Cancel 1 +", "Note",
    "f(1", "(", "1 in", "RequireVersions", "If True Elif", "x +=", "Case", "x.", "For",
    'Exec("x = (1 +', "a b ++", "- ", "x[1:2", "x[:", '"a".find(', "Else", "x .",
    'SelectOne "d" EndSelect x',
]  # fmt: skip


def build(s):
    kind = s.weighted((4, "faulty"), (4, "broken"), (4, "text"), (1, "built"))
    if kind == "built":
        cls = s.pick(CLASSES)
        arg = s.pick(["x", "", "a b", 3, 0, -1, None, "é\n", 10**30])
        return {"kind": kind, "cls": cls, "arg": arg, "prog": []}
    if kind == "text":
        return {"kind": kind, "prog": [], **{k: v for k, v in c21.build(s).items() if k != "kind"}}
    if kind == "faulty":
        return {"kind": kind, **c18.build(s)}
    g = gen.Gen(s, stmts=c21.STMTS, depth=1)
    prog = g.program(0, 3, 1)
    before = lang.render(prog)
    after = s.pick(["", "\nEndIf", '\nNote "a"', " EndFor", "\nx = 1\nEndWhile", "\n)"])
    sep = s.pick([" ", "\n", " ; c\n", ""])
    odd = sep.join(s.pick(ODD) for _ in range(s.pick([1, 1, 1, 2, 3])))
    text = before + s.pick(STARTS) + s.pick([" ", "\n", "  \n\t"]) + odd + after
    if s.chance(8):
        text = "x = 2 Exec(" + lang.quote_string(text) + ")"
    return {"kind": kind, "prog": [], "text": text, "dec": gen.decisions(s, 2)}


def case():
    return gen.cases(build, 260)


def run(c):
    if c["kind"] == "built":
        return built(c["cls"], c["arg"])
    files = PROFILES["std"]
    sev, default = c.get("sev"), c.get("default")
    text = c.get("text")
    if text is None:
        text = lang.render(c["prog"], c["lay"])
    ex, scripts, cut = first_error(text, files, sev, default, c["dec"])
    if cut:
        return ["cut", "trivial"]
    if not isinstance(ex, WizardError):
        return ["no error" if ex is None else "raw " + type(ex).__name__, "trivial"]
    labels = [c["kind"], type(ex).__name__]
    labels += tells(ex, scripts, repr(text))
    # Other scripts change nothing
    said = str(ex)
    first_error("If x ( EndFor y = ]\nSelectOne", files, None, None, [0])
    expect("the text again", said, str(ex), repr(text))
    again, _, _ = first_error(text, files, sev, default, c["dec"])
    expect("the same error again", said, str(again), repr(text))
    return sorted(set(labels))


def first_error(text, files, sev, default, dec):
    """The error of a script, and the scripts that were read."""
    scripts = [text]
    r = real.make_runner(files, ref.Handler(dec), sev, default)
    try:
        ctx = r.make_top_level_context(text)
    except Exception as ex:
        return ex, scripts, False
    n = steps = 0
    while not isinstance(ctx, real.WizardTerminationContext):
        steps += 1
        if steps > STEPS or c21.huge(text, ctx.state):
            return None, scripts, True
        try:
            if real.is_ask(ctx):
                if list(ctx.options):
                    ctx = real.step(ctx, dec[n % len(dec)] if dec else 0)
                    n += 1
                else:
                    ctx = ctx.select([]).exec()
            else:
                ctx = ctx.exec()
        except Exception as ex:
            return ex, scripts, False
        if isinstance(ctx, WizardTopLevelContext):
            # The one of an executed script
            scripts.append(str(ctx.context.start.getInputStream()))
    return None, scripts, False


def built(name, arg):
    """An error made by a host, without a context."""
    cls = CLASSES_BY_NAME[name]
    if cls is WizardIndexError:
        ex = cls(None, arg) if isinstance(arg, int) else cls(None)
    elif cls is WizardError or cls is WizardTypeError or cls is WizardParseError:
        ex = cls(None, arg) if arg is not None else cls(None)
    else:
        ex = cls(None, str(arg))
    expect("its place", [-1, -1, None], [ex.line, ex.column, ex.context], repr(ex))
    expect("its text", f"Line -1, Column -1: {ex.message}", str(ex), repr(ex.args))
    if cls is WizardIndexError:
        expect("its index", arg if isinstance(arg, int) else None, ex.index, "")
        if isinstance(arg, int):
            expect("tells the index", True, str(arg) in ex.message, ex.message)
    elif cls in (WizardNameError, WizardMissingPackageError, WizardMissingPluginError):
        expect("its name", str(arg), ex.name if cls is WizardNameError else ex.subpackage, "")
        expect("tells the name", True, str(arg) in ex.message, ex.message)
    elif cls is WizardUnsupportedOperation:
        expect("tells the operation", True, str(arg) in ex.message, ex.message)
    elif arg is not None:
        expect("its message", str(arg), ex.message, "")
    return ["built", name]


CLASSES_BY_NAME = {
    cls.__name__: cls
    for cls in (
        WizardError, WizardIndexError, WizardMissingPackageError, WizardMissingPluginError,
        WizardNameError, WizardParseError, WizardTypeError, WizardUnsupportedOperation,
    )
}  # fmt: skip
CLASSES = sorted(CLASSES_BY_NAME)


def tells(ex, scripts, where):
    """What the text of an error tells."""
    message = ex.message
    where = f"{where}\n{message!r}"
    expect("message is a text", True, isinstance(message, str) and message.strip() != "", where)
    expect("text", f"Line {ex.line}, Column {ex.column}: {message}", str(ex), where)
    expect("its context", True, ex.context is not None, where)
    start = ex.context.start
    expect("its place", [start.line, start.column], [ex.line, ex.column], where)
    # The place is the one of a token, or of the end, of a script
    places = [[t.line, t.column] for x in scripts for t in tokens(x)]
    expect("a place in the script", True, [ex.line, ex.column] in places, f"{where} {ex.line}:{ex.column}")
    if isinstance(ex, WizardNameError):
        expect("tells the name", True, repr_of(ex.name) in message, where)
        # Methods are named with their type
        name = ex.name.rpartition(".")[2].casefold()
        if name == "<missing identifier>":
            # A token that the parser made up
            return ["missing name"]
        if "exec" in ex.name.casefold() and any(c in ex.name for c in " ("):
            # Exec() where it cannot be used: a sentence in place of a name
            return ["exec"]
        expect("a name of the script", True, any(name in x.casefold() for x in scripts), where)
        return ["name"]
    if isinstance(ex, (WizardMissingPackageError, WizardMissingPluginError)):
        expect("tells the name", True, repr_of(str(ex.subpackage)) in message, where)
        return ["missing"]
    if isinstance(ex, WizardIndexError):
        expect("the index", True, ex.index is None or isinstance(ex.index, int), where)
        if ex.index is not None:
            # True and False are accepted
            told = re.findall(r"-?\d+|True|False", message)
            expect("tells the index", [str(ex.index)], told, where)
            return ["index"]
        return []
    if isinstance(ex, WizardParseError):
        return parse_error(ex, scripts, where)
    return []


def repr_of(name):
    return "'" + name + "'"


def escaped(s):
    return "'" + s.replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + "'"


def parse_error(ex, scripts, where):
    message = ex.message
    expect("one line", [], [x for x in "\n\r\t" if x in message], where)
    cause = ex.args[0] if ex.args else None
    token = getattr(cause, "offendingToken", None)
    if token is None:
        # Without any text that is wrong
        return ["statement"]
    # The text is one of the scripts
    text = token.getInputStream()
    text = str(text)
    expect("its script", True, text in scripts or len(scripts) == 1, where)
    toks = tokens(text)
    i = [t.tokenIndex for t in toks if t.start == token.start and t.type == token.type][0]
    first = i
    labels = []
    if isinstance(cause, NoViableAltException):
        first = [t.tokenIndex for t in toks if t.start == cause.startToken.start][0]
        labels.append("alternatives")
    elif isinstance(cause, InputMismatchException):
        labels.append("mismatch")
    # The end is quoted only when there is nothing else
    part = "".join(t.text for t in toks[first : i + 1] if t.type != Token.EOF) or "<EOF>"
    expect("the input it quotes", True, escaped(part) in message, f"{where}\n{part!r}")
    # It is not before the place of the error
    place = (toks[i].line, toks[i].column)
    expect("the error starts before", True, (ex.line, ex.column) <= place, f"{where} {place}")
    if escaped(part) != repr_of(part):
        labels.append("escapes")
    if part == "<EOF>":
        labels.append("end")
    return labels


def tokens(text):
    lexer = wizardLexer(InputStream(text))
    lexer.removeErrorListener(ConsoleErrorListener.INSTANCE)
    stream = CommonTokenStream(lexer)
    stream.fill()
    return stream.tokens


def show(c):
    if "text" in c:
        return c["text"]
    return lang.render(c["prog"], c["lay"]) if c["prog"] else repr(c)
