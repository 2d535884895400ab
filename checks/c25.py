"""Histories and interleavings of runs, and copies of states."""

import random

from lib import gen, lang, real, ref
from lib.common import PROFILES, Discard
from lib.diff import expect, plain
from lib.guard import Fuel, guarded
from lib.pristine import Pristine

from checks import c21

ID = "C25"
RULE = (
    "a case is a list of scripts and a history or interleaving of runs of them, or of"
    " copies of states; it is trivial when a single script runs once"
)
FUEL = 600_000
QUICK = 2800
THOROUGH = 80_000
STEPS = 300

STMTS = {
    "set": 5, "cset": 3, "inc": 2, "note": 4, "if": 3, "for": 3, "forin": 2, "while": 2,
    "selectone": 3, "selectmany": 3, "break": 1, "continue": 1, "exec": 3, "kw": 8,
    "ini": 4, "req": 2, "call": 3, "cancel": 1, "return": 1,
}  # fmt: skip
SEVS = [{}, {}, {}, {"USAGE_OF_NOTSET_VARIABLES": "ERROR"}, {"USAGE_OF_NOTSET_VARIABLES": "ALLOW"}]


def build(s):
    mode = s.pick(["runs", "steps", "copies", "runs", "steps", "within", "within"])
    n = s.pick([2, 2, 3])
    order = [s.below(n) for _ in range(s.between(2, 5))]
    schedule = [s.below(256) for _ in range(s.between(1, 10))]
    shared = s.flag()
    decs = [gen.decisions(s, 3) for _ in range(n)]
    broken = [s.below(1 << 16) if mode != "copies" and s.below(4) == 3 else None for _ in range(n)]
    pokes = [[s.below(256), s.below(256)] for _ in range(s.between(0, 3))]
    sev = s.pick(SEVS)
    res = {
        "mode": mode, "order": order, "schedule": schedule, "shared": shared, "decs": decs,
        "broken": broken, "pokes": pokes, "sev": sev,
    }  # fmt: skip
    progs = []
    for i in range(n):
        g = gen.Gen(s.split(90), stmts=STMTS, depth=1, effects=10, fault=s.pick([0, 0, 0, 2]))
        stmts = g.body(s.pick([1, 2]), 1, 5)
        # The other scripts may find the variables of this one, if they are left
        if s.below(4):
            stmts = g.prelude(stmts) + stmts
        progs.append(stmts)
    for k, p in zip(("prog", "prog2", "prog3"), progs):
        res[k] = p
    return res


def case():
    return gen.cases(build, 330)


def texts_of(c):
    progs = [c[k] for k in ("prog", "prog2", "prog3") if k in c]
    texts = []
    for p, b in zip(progs, c["broken"]):
        if b is None:
            texts.append(lang.render(p))
        else:
            rnd = random.Random(b)
            toks = c21.mutate(rnd, lang.tokens(p).toks, rnd.choice((1, 1, 2, 4)))
            texts.append(c21.tame(" ".join(toks)))
    return progs, texts


def snapshot(subpackages):
    return [(id(p), p.name, list(p.files)) for p in subpackages]


class Run:
    """A run, step by step."""

    def __init__(self, runner, text, dec):
        self.runner = runner
        self.text = text
        self.dec = ref.Handler(dec)
        self.ctx = None
        self.state = None
        self.outcome = None
        self.events = []
        self.n = 0

    def step(self):
        self.n += 1
        self.runner.the_events = []
        try:
            if self.ctx is None:
                self.ctx = self.runner.make_top_level_context(self.text)
            else:
                d = 0
                if real.is_ask(self.ctx):
                    if not list(self.ctx.options):
                        raise Discard("nothing to choose")
                    d = self.dec.dec[self.dec.n % len(self.dec.dec)]
                    self.dec.n += 1
                self.ctx = real.step(self.ctx, d)
        except Discard:
            raise
        except Exception as ex:
            kind = "READ" if self.ctx is None else "ERROR"
            self.outcome = [kind, real.error_kind(ex), real.error_pos(ex), str(ex)]
        else:
            if isinstance(self.ctx, real.WizardTerminationContext):
                ctx = self.ctx
                self.outcome = [
                    "CANCEL" if ctx.is_cancel() else "RETURN" if ctx.is_return() else "COMPLETE"
                ]
        if self.ctx is not None:
            self.state = self.ctx.state
            if c21.huge(self.text, self.state):
                raise Discard("huge")
        self.events += self.runner.the_events
        if self.n > STEPS:
            raise Discard("steps")

    def end(self):
        while self.outcome is None:
            self.step()
        return self.seen()

    def seen(self):
        state = real.norm_state(self.state) if self.state is not None else None
        return plain([self.outcome, state, self.events])


pristine = None


def start():
    global pristine
    pristine = Pristine(first_run)


def first_run(text, dec, sev):
    """What a script gives when nothing was run before."""
    r = real.Recorder(real.packages(PROFILES["std"]), ref.Handler())
    real.set_severities(r, sev)
    try:
        with guarded(FUEL):
            return Run(r, text, dec).end()
    except Discard as ex:
        return "discard " + str(ex)
    except Fuel:
        return "does not terminate"


def run(c):
    progs, texts = texts_of(c)
    subpackages = real.packages(PROFILES["std"])

    def fresh():
        r = real.Recorder(subpackages, ref.Handler())
        real.set_severities(r, c["sev"])
        return r

    before = snapshot(subpackages)
    labels = (copies if c["mode"] == "copies" else several)(c, progs, texts, fresh)
    expect("sub-packages", before, snapshot(subpackages), "\n----\n".join(texts))
    return labels


def several(c, progs, texts, fresh):
    n = len(progs)
    labels = {c["mode"], f"{n} scripts"}
    files = PROFILES["std"]
    # What each gives alone
    alone = [Run(fresh(), t, d).end() for t, d in zip(texts, c["decs"])]
    for i, p in enumerate(progs):
        if c["broken"][i] is None:
            expected, _ = ref.run(
                p, files, c["sev"], fuel=1500, handler=ref.Handler(c["decs"][i])
            )
            expect("status", expected["status"], alone[i][0][0], texts[i])
            expect("state", plain(expected["state"]), alone[i][1], texts[i])
        else:
            labels.add("malformed " + alone[i][0][0])
            expect("outcome in a new process", pristine(texts[i], c["decs"][i], c["sev"]), alone[i], texts[i])
    if c["mode"] == "runs":
        runner = fresh()
        first = {}
        asked = [any(w in t for w in ("SelectOne", "SelectMany")) for t in texts]
        for i in c["order"]:
            i %= n
            if asked[i] and c["broken"][i] is not None:
                # Selects may have no answer
                got = Run(runner, texts[i], c["decs"][i]).end()
                expect(f"script {i} in {c['order']}", alone[i], got, texts[i])
                continue
            runner.the_handler = ref.Handler(c["decs"][i])
            got = real.run_on(runner, texts[i])
            got.pop("exception")
            got = plain(got)
            expect(f"status of {i} in {c['order']}", alone[i][0][0], got["status"], texts[i])
            expect(f"state of {i} in {c['order']}", alone[i][1], got["state"], texts[i])
            again = first.setdefault(i, got)
            expect(f"outcome of {i} in {c['order']}", again, got, texts[i])
            labels.add("status:" + got["status"])
        if len(c["order"]) < 2:
            labels.add("trivial")
        return sorted(labels)

    if c["mode"] == "within":
        return within(c, progs, texts, fresh, alone, labels)

    # Interleaved steps, on several interpreters or the same one
    shared = fresh() if c["shared"] else None
    labels.add("same interpreter" if shared else "several interpreters")
    runs = []
    for i in c["order"]:
        i %= n
        runs.append((i, Run(shared or fresh(), texts[i], c["decs"][i])))
    k = 0
    switches = 0
    last = None
    while True:
        live = [r for r in runs if r[1].outcome is None]
        if not live:
            break
        s = c["schedule"][k % len(c["schedule"])]
        k += 1
        r = live[s % len(live)]
        for _ in range(1 + (s >> 6)):
            if r[1].outcome is None:
                r[1].step()
        if last is not r:
            switches += 1
        last = r
    for i, r in runs:
        expect(f"script {i}, interleaved", alone[i], r.seen(), "\n----\n".join(texts))
    labels.add("switches" if switches > 3 else "few switches")
    return sorted(labels)


class Meanwhile(ref.Handler):
    """Does something else when a callback of the run is called."""

    def __init__(self, dec, other):
        super().__init__(dec)
        self.other = other

    def query(self, interp, method, values):
        self.other()

    def warned(self, interp):
        self.other()

    def select(self, interp, kind, desc, options, defaults):
        self.other()
        res = super().select(interp, kind, desc, options, defaults)
        self.other()
        return res

    def cancel(self, interp, aborting=False):
        self.other()
        return True

    def complete(self, interp, end):
        self.other()
        return True

    def error(self, interp):
        self.other()


def within(c, progs, texts, fresh, alone, labels):
    """
    The callbacks of a run run other scripts, on other runners or step by step, and these
    ones do so too.
    """
    n = len(progs)
    asked = [any(w in t for w in ("SelectOne", "SelectMany")) for t in texts]
    steps = [Run(fresh(), texts[i % n], c["decs"][i % n]) for i in c["order"]]
    where = {id(r): i % n for i, r in zip(c["order"], steps)}
    seen = []
    k = depth = count = 0

    def other():
        nonlocal k, depth, count
        s = c["schedule"][k % len(c["schedule"])]
        k += 1
        if s & 1:
            r = steps[(s >> 2) % len(steps)]
            for _ in range(1 + (s >> 6)):
                if r.outcome is None:
                    r.step()
                    count += 1
        elif depth < 3 and k < 12:
            i = c["order"][(s >> 2) % len(c["order"])] % n
            if asked[i] and c["broken"][i] is not None:
                return
            entire(i)
            count += 1

    def entire(i):
        nonlocal depth
        runner = fresh()
        runner.the_handler = Meanwhile(c["decs"][i], other)
        depth += 1
        try:
            # Steps of other runs add no event to this one
            got = real.run_on(runner, texts[i])
        finally:
            depth -= 1
        got.pop("exception")
        seen.append((i, plain(got)))

    for i in c["order"]:
        i %= n
        if asked[i] and c["broken"][i] is not None:
            continue
        entire(i)
        labels.add("entire")
    first = {}
    for i, got in seen:
        expect(f"status of {i}, within others", alone[i][0][0], got["status"], texts[i])
        expect(f"state of {i}, within others", alone[i][1], got["state"], texts[i])
        was = first.get(i)
        if was is None:
            # The same, with nothing else in its callbacks
            runner = fresh()
            runner.the_handler = ref.Handler(c["decs"][i])
            was = real.run_on(runner, texts[i])
            was.pop("exception")
            was = first[i] = plain(was)
        expect(f"outcome of {i}, within others", was, got, texts[i])
    for r in steps:
        if r.n:
            expect("step by step, in the callbacks of others", alone[where[id(r)]], r.end(), r.text)
    labels.add("several meanwhile" if count > 2 else "some meanwhile" if count else "trivial")
    return sorted(labels)


def copies(c, progs, texts, fresh):
    """
    A script goes on from a copy of the state another one left, the state being used and
    changed in between.
    """
    files = PROFILES["std"]
    labels = {"copies"}
    r = fresh()
    first = Run(r, texts[0], c["decs"][0])
    first.end()
    original = first.state
    seen = plain(real.norm_state(original))
    kept = []  # states and what they should still be
    for i in c["order"]:
        i = 1 + i % (len(progs) - 1)
        copy = original.copy()
        expect("type of the copy", type(original), type(copy))
        expect("copy of the state", seen, plain(real.norm_state(copy)), texts[0])
        kept.append((copy, seen, "copy"))
        start = copy.copy()
        for a, b in c["pokes"]:
            poke(copy, a, b)
        kept[-1] = (copy, plain(real.norm_state(copy)), "changed copy")
        expect("original, after changes of the copy", seen, plain(real.norm_state(original)), texts[0])
        expect("copy of the copy, after changes", seen, plain(real.norm_state(start)), texts[0])
        # Go on from the copy
        second = Run(r, texts[i], c["decs"][i])
        second.ctx = r.make_top_level_context(texts[i], start)
        got = second.end()
        if first.outcome[0] == "COMPLETE":
            both = progs[0] + [["kw", "Note", [["str", "-"]]]] + progs[i]
            h = Both(c["decs"][0], c["decs"][i])
            expected, _ = ref.run(both, files, c["sev"], fuel=2500, handler=h)
            state = plain(expected["state"])
            if h.notes(state):
                # An error or the like in the second one comes after the note
                state["notes"].remove("-")
                expect("status", expected["status"], got[0][0], texts[0] + "\n----\n" + texts[i])
                expect("state", state, got[1], texts[0] + "\n----\n" + texts[i])
                labels.add("goes on")
        kept.append((second.state, got[1], "state of the second run"))
        for st, was, what in kept:
            expect(what, was, plain(real.norm_state(st)), texts[0] + "\n----\n" + texts[i])
        expect("original", seen, plain(real.norm_state(original)), texts[0] + "\n----\n" + texts[i])
    return sorted(labels)


class Both(ref.Handler):
    """The choices of two scripts, the second being after a note."""

    def __init__(self, dec, other):
        super().__init__(dec)
        self.other = ref.Handler(other)

    @staticmethod
    def notes(state):
        return state["notes"].count("-") == 1

    def select(self, interp, kind, desc, options, defaults):
        if "-" in interp.state.notes:
            return self.other.select(interp, kind, desc, options, defaults)
        return super().select(interp, kind, desc, options, defaults)


def poke(state, a, b):
    """Change a state as its owner may."""
    names = sorted(state.variables)
    name = names[a % len(names)] if names and a & 16 else "q"
    state.set(name, real.Value([7, "seven", True, 7.0][b % 4]))


def show(c):
    progs, texts = texts_of(c)
    return f"{c['mode']} {c['order']} {c['schedule']}\n" + "\n----\n".join(texts)
