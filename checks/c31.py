"""Hosts that implement the required methods only, answering with options of their own."""

from lib import diff, gen, lang, real, ref
from lib.common import PROFILES, Discard, manager_answer
from lib.diff import expect, plain

ID = "C31"
RULE = (
    "a case is two programs, how the host answers and what it inherits; it is trivial when"
    " the first one neither asks, warns, fails nor ends before its end"
)
QUICK = 6000
THOROUGH = 150_000

STMTS = {
    "set": 4, "cset": 2, "inc": 2, "note": 4, "if": 3, "for": 3, "forin": 2, "while": 2,
    "selectone": 6, "selectmany": 6, "break": 2, "continue": 1, "exec": 2, "kw": 4,
    "ini": 1, "req": 3, "call": 3, "cancel": 3, "return": 2,
}  # fmt: skip


class Events(list):
    """What happened, until the user interrupts it."""

    after = None

    def append(self, event):
        if self.after == 0:
            raise self.stop
        if self.after is not None:
            self.after -= 1
        super().append(event)


STOPS = [KeyboardInterrupt, SystemExit, GeneratorExit]


class Minimal(real.WizardScriptRunner):
    """What the README asks for."""

    def __init__(self, subpackages, c, handler):
        super().__init__(subpackages)
        self.the_events = []
        self.the_handler = handler
        self.the_way = c["way"]
        self.seen = []

    def rebuilt(self, o):
        """The answer for an option: itself, or one that is equal."""
        way = self.the_way
        if way == 1:
            new = real.SelectOption(o.name, o.description, o.image)
        elif way == 2:
            new = Mine(o.name, o.description, o.image)
        elif way == 3:
            # Of an earlier select
            new = ([x for x in self.seen if x == o] or [o])[0]
        else:
            new = o
        expect("equal options", True, new == o and o == new and not (new != o))
        for field in range(3):
            fields = [o.name, o.description, o.image]
            fields[field] = str(fields[field]) + "x"
            expect("different options", True, real.SelectOption(*fields) != o)
        expect("an option and its name", False, o == o.name)
        self.seen.insert(0, o)
        return new

    def ask(self, kind, description, options, defaults):
        opts = [real.norm_option(o) for o in options]
        self.the_events.append([kind, description, opts, [real.norm_option(d) for d in defaults]])
        positions = []
        for d in defaults:
            ids = [i for i, o in enumerate(options) if o is d]
            ids = ids or [i for i, o in enumerate(options) if o == d]
            positions.append(ids[0])
        sel = self.the_handler.select(self, kind, description, opts, positions)
        return [self.rebuilt(options[i]) for i in sel]

    def selectOne(self, description, options, default):
        return self.ask("One", description, options, [default])[0]

    def selectMany(self, description, options, default=[]):
        res = self.ask("Many", description, options, default)
        return tuple(res) if self.the_way % 2 else res

    def requiresVersions(self, game_version, se_version, ge_version, wrye_bash_version):
        args = [game_version, se_version, ge_version, wrye_bash_version]
        self.the_events.append(["req", [real.norm_value(a) for a in args]])

    def answer(self, name, *args):
        self.the_events.append(["mgr", name, [real.norm_value(a) for a in args]])
        return manager_answer(name, list(args))

    def compareGameVersion(self, version):
        return self.answer("compareGameVersion", version)

    def compareSEVersion(self, version):
        return self.answer("compareSEVersion", version)

    def compareGEVersion(self, version):
        return self.answer("compareGEVersion", version)

    def compareWBVersion(self, version):
        return self.answer("compareWBVersion", version)

    def dataFileExists(self, *filepaths):
        return self.answer("dataFileExists", *filepaths)

    def getPluginLoadOrder(self, filename, *fallback):
        return self.answer("getPluginLoadOrder", filename, *fallback)

    def getPluginStatus(self, filename):
        return self.answer("getPluginStatus", filename)

    def getFilename(self, path):
        return self.answer("getFilename", path)

    def getFolder(self, path):
        return self.answer("getFolder", path)


class Mine(real.SelectOption):
    """An option of the host."""


class Inherits(Minimal):
    """Calls what it overrides."""

    the_error = None

    def warning(self, text):
        expect("class of a warning", "str", type(text).__name__)
        self.the_events.append(["warn"])
        expect("warning()", None, super().warning(text))

    def error(self, exc):
        self.the_error = exc
        self.the_events.append(["error", real.error_kind(exc), real.error_pos(exc)])
        return super().error(exc)

    def cancel(self):
        self.the_events.append(["cancel", self.context().message()])
        return super().cancel()

    def complete(self):
        self.the_events.append(["complete"])
        return super().complete()


def build(s):
    dec = gen.decisions(s, 5)
    way = s.below(4)
    inherits = s.flag()
    sev = s.pick([{}, {}, {"USAGE_OF_NOTSET_VARIABLES": "ERROR"}, {"USAGE_OF_NOTSET_VARIABLES": "ALLOW"}])
    fault = s.pick([0, 0, 1, 3])
    stop = [s.below(3), s.pick([0, 1, 2, 3, 5])]
    g = gen.Gen(s, stmts=STMTS, depth=1, effects=10, unset=8, fault=fault)
    prog = g.program(2, 6, s.pick([1, 2, 2, 3]))
    g2 = gen.Gen(s, stmts=STMTS, depth=1, effects=10, fault=s.pick([0, 1]))
    return {
        "prog": prog,
        "prog2": g2.program(1, 3, 2),
        "dec": dec,
        "way": way,
        "inherits": inherits,
        "sev": sev,
        "stop": stop,
    }


def case():
    return gen.cases(build, 300)


def run(c):
    labels = set()
    cls = Inherits if c["inherits"] else Minimal
    runner = cls(real.packages(PROFILES["std"]), c, None)
    real.set_severities(runner, c["sev"])
    first = one(c, c["prog"], runner, labels)
    # The same runner, whatever became of the first run
    one(c, c["prog2"], runner, set())
    interrupted(c, runner, first, labels)
    again = one(c, c["prog"], runner, set())
    expect("again", first, again, lang.render(c["prog"]))
    kinds = {e[0] for e in first["events"]}
    if first["status"] == "COMPLETE" and not kinds & {"One", "Many", "warn"}:
        labels.add("trivial")
    labels.update("asks" for e in first["events"] if e[0] in ("One", "Many"))
    return sorted(labels)


def interrupted(c, runner, first, labels):
    """Interruptions are no errors of the script."""
    which, after = c["stop"]
    before = len(first["events"])
    if first["status"] == "ERROR" and c["inherits"]:
        # Not in error() itself
        before = [e[0] for e in first["events"]].index("error")
    if after >= before:
        return
    text = lang.render(c["prog"])
    runner.the_handler = ref.Handler(c["dec"])
    runner.the_events = Events()
    runner.the_events.after = after
    runner.the_events.stop = STOPS[which]("stop")
    runner.the_error = None
    try:
        runner.run(text)
    except Discard:
        raise
    except BaseException as ex:
        expect("interruption", True, ex is runner.the_events.stop, f"{text}\n{ex!r}")
    else:
        expect("interruption", repr(runner.the_events.stop), None, text)
    expect("error() of an interruption", None, runner.the_error, text)
    expect("before it", first["events"][:after], plain(runner.the_events), text)
    labels.add("interrupted")


def one(c, prog, runner, labels):
    text = lang.render(prog)
    expected, it = ref.run(
        prog, PROFILES["std"], c["sev"], fuel=1500, handler=ref.Handler(c["dec"])
    )
    runner.the_handler = ref.Handler(c["dec"])
    runner.the_events = []
    runner.the_error = None
    error = None
    try:
        status, state = runner.run(text)
        status = real.STATUS[status]
    except Discard:
        raise
    except Exception as ex:
        if type(ex).__name__ == "Violation":
            raise
        error = ex
        status = "ERROR"
        # Where it failed is still there
        state = runner.context().state
    got = {
        "status": status,
        "state": real.norm_state(state),
        "error": [real.error_kind(error), real.error_pos(error)] if error else None,
        "events": plain(runner.the_events),
        "exception": error,
    }
    if not c["inherits"]:
        skip = ("warn", "error", "cancel", "complete")
        expected = dict(expected)
        expected["events"] = [e for e in expected["events"] if e[0] not in skip]
    elif error is not None:
        expect("the exception of run()", True, error is runner.the_error, text)
    diff.compare(expected, got, text, positions=True)
    labels.add("status:" + status)
    if error is not None:
        labels.add("raised:" + got["error"][0])
    got.pop("exception")
    return plain(got)


def show(c):
    return f"{c['dec']} {c['way']} {c['sev']}\n" + lang.render(c["prog"]) + "\n----\n" + lang.render(c["prog2"])
