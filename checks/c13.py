"""Rewinding, aborting, refusing to end and errors, from any callback of a run."""

from lib import diff, gen, lang, real, ref
from lib.common import PROFILES, Abort, Discard, Rewind

ID = "C13"
RULE = (
    "a case is a program and what the user does at each callback; it is trivial when all"
    " of them are plain answers"
)
QUICK = 8000
THOROUGH = 100_000
ANSWER, REWIND, ABORT, REFUSE, RAISE = 0, 1, 2, 3, 4

STMTS = {
    "set": 3, "cset": 2, "inc": 2, "note": 4, "if": 3, "for": 3, "forin": 1, "while": 2,
    "selectone": 6, "selectmany": 5, "break": 2, "continue": 1, "exec": 2, "kw": 3,
    "decide": 2,
    "ini": 1, "req": 3, "call": 3, "cancel": 3, "return": 2,
}  # fmt: skip


class Boom(Exception):
    """Raised by a callback."""


class Script:
    """What the user does at the n-th callback, on both sides."""

    def __init__(self, acts):
        self.acts = acts
        self.n = 0
        self.targets = []
        self.did = []

    def act(self, who, target):
        n = self.n
        self.n += 1
        if n > 80:
            raise Discard("too many callbacks")
        self.targets.append(target)
        kind, arg = self.acts[n] if n < len(self.acts) else (ANSWER, 0)
        if kind == REWIND:
            # The last ones more often
            i = len(self.targets) - 1 - (arg - 1) % len(self.targets)
            self.did.append(f"rewind from {who}" + (" to itself" if arg == 1 else ""))
            self.do_rewind(self.targets[i])
        elif kind == ABORT:
            self.did.append(f"abort in {who}")
            self.do_abort()
        elif kind == RAISE and who != "error":
            self.did.append(f"raise in {who}")
            self.do_raise()
        elif kind == REFUSE:
            self.did.append(f"refuse {who}")
            return REFUSE, arg
        return ANSWER, arg


class RealUser(Script):
    def begin(self, runner, who):
        self.runner = runner
        return self.act(who, runner.context())

    def do_rewind(self, target):
        self.runner.rewind(target)

    def do_abort(self):
        self.runner.abort()

    def do_raise(self):
        raise Boom("host")

    def query(self, runner, method, values):
        self.begin(runner, "query")

    def warned(self, runner):
        self.begin(runner, "warning")

    def select(self, runner, kind, desc, options, defaults):
        _, d = self.begin(runner, "select")
        return ref.chosen(kind, d, options, defaults)

    def cancel(self, runner, aborting=False):
        return self.begin(runner, "abort" if aborting else "cancel")[0] != REFUSE

    def complete(self, runner, end):
        return self.begin(runner, "end" if end else "return")[0] != REFUSE

    def error(self, runner):
        self.begin(runner, "error")


class RefUser(Script):
    """
    Rewinding is starting again from the beginning, giving the same answers until the step
    to go back to, without any callback.
    """

    def __init__(self, acts):
        super().__init__(acts)
        self.entries = []  # (step, answer) of the callbacks that were answered
        self.forced = []
        self.target = 0
        self.live = True

    def start(self):
        self.pos = 0
        self.live = self.target == 0

    def at_step(self, n):
        self.step = n
        if n == self.target:
            self.live = True

    def begin(self, who):
        entries = [e for e in self.entries if e[0] < self.step]
        return self.act(who, (self.step, entries))

    def do_rewind(self, target):
        raise Rewind(target)

    def do_abort(self):
        raise Abort

    def do_raise(self):
        raise ref.Err("other", None)

    def rewound(self, interp, target):
        if target == "step":
            target = (self.step, [e for e in self.entries if e[0] < self.step])
        self.target, entries = target
        self.entries = list(entries)

    def answer(self, value):
        self.entries.append((self.step, value))
        return value

    def forced_answer(self):
        step, value = self.entries[self.pos]
        assert step == self.step
        self.pos += 1
        return value

    def query(self, interp, method, values):
        if not self.live:
            return self.forced_answer()
        self.begin("query")
        return self.answer(None)

    def warned(self, interp):
        if not self.live:
            return self.forced_answer()
        self.begin("warning")
        return self.answer(None)

    def select(self, interp, kind, desc, options, defaults):
        if not self.live:
            return self.forced_answer()
        _, d = self.begin("select")
        return self.answer(ref.chosen(kind, d, options, defaults))

    def cancel(self, interp, aborting=False):
        if not self.live:
            return self.forced_answer()
        kind, _ = self.begin("abort" if aborting else "cancel")
        if aborting:
            # What was aborted comes again
            return kind != REFUSE
        return self.answer(kind != REFUSE)

    def complete(self, interp, end):
        if not self.live:
            return self.forced_answer()
        return self.answer(self.begin("end" if end else "return")[0] != REFUSE)

    def error(self, interp):
        self.begin("error")


def build(s):
    style = s.below(4)
    acts = []
    for _ in range(s.between(1, 14)):
        kind = s.weighted((8, ANSWER), (5, REWIND), (2, ABORT), (4, REFUSE), (2, RAISE))
        if style == 0 and kind in (ABORT, RAISE):
            kind = REWIND
        if kind == REWIND:
            arg = 1 + (s.below(3) if s.flag() else s.below(12))
        else:
            arg = s.below(34)
        acts.append([kind, arg])
    g = gen.Gen(
        s, stmts=STMTS, depth=1, effects=12, query=10, fault=s.pick([0, 0, 1, 3])
    )
    return {"prog": g.program(2, 6, s.pick([1, 2, 2, 3])), "acts": acts}


def case():
    return gen.cases(build, 220)


def run(c):
    files = PROFILES["std"]
    text = lang.render(c["prog"])
    model = RefUser(c["acts"])
    expected, it = ref.run(c["prog"], files, fuel=1500, handler=model)
    user = RealUser(c["acts"])
    got = real.run(text, files, handler=user)
    where = f"acts {c['acts']} ({', '.join(model.did)})\n{text}"
    diff.compare(expected, got, where)
    labels = sorted(set(model.did)) + ["status:" + expected["status"]]
    labels.append(f"{min(len(model.did), 6)} acts")
    if not model.did:
        labels.append("trivial")
    return labels


def show(c):
    return f"{c['acts']}\n" + lang.render(c["prog"])
