"""Queries to the manager: the calls it gets, and what the script does of its answers."""

from lib import common, diff, directed, gen, lang, real, ref
from lib.common import PROFILES
from lib.diff import expect, plain

ID = "C06"
RULE = (
    "a case is a program with queries in its expressions, with a manager giving arbitrary"
    " answers; it is trivial when no query is evaluated and none is wrong"
)
QUICK = 8000
THOROUGH = 150_000

STRS = ["1.2.0.416", "1", "", "main.esp", "Main.ESP", "..\\a.exe", "é/b.esp", "a b", "0.0", "dir/",
        "a\\\\", "..", "./a", "/a", " a ", "a\n", "*.esp", "C:\\\\x.exe", "-1", "None"]
STRS = directed.strings(STRS)
ONE = [
    "CompareGameVersion", "CompareSEVersion", "CompareGEVersion", "CompareWBVersion",
    "GetPluginStatus", "GetEspmStatus", "GetFilename", "GetFolder",
]  # fmt: skip


class Queries:
    def __init__(self, s):
        self.s = s
        self.wrong = 0

    def string(self, d):
        s = self.s
        k = s.below(12)
        if k < 7 or d <= 0:
            return ["str", s.pick(STRS)]
        if k == 7:
            return ["var", "s"]
        if k == 8:
            return ["bin", "+", self.string(d - 1), ["str", s.pick(STRS)]]
        if k == 9:
            return ["call", s.pick(["GetFilename", "GetFolder"]), [self.string(d - 1)]]
        if k == 10:
            return ["call", "str", [self.query(d - 1)]]
        return ["slice", ["str", s.pick(STRS)], ["int", s.below(3)], None, None, False]

    def bad(self, d):
        self.wrong += 1
        return self.s.pick(
            [["int", 3], ["dec", "1.5"], ["bool", True], ["sps"], ["idx", ["sps"], ["int", 0]]]
        )

    def integer(self, d):
        s = self.s
        k = s.below(6)
        if k < 3:
            return ["int", s.pick(directed.positive([s.below(300)]))]
        if k == 3:
            return ["un", "-", ["int", s.between(1, 9)]]
        if k == 4:
            return ["inc", "++", s.pick(["pre", "post"]), "i"]
        return self.query(d - 1) if d > 0 else ["bool", s.flag()]

    def query(self, d):
        s = self.s
        k = s.below(6)
        if k < 2:
            name, types = s.pick(ONE), [str]
        elif k < 4:
            name, types = "GetPluginLoadOrder", [str] if s.flag() else [str, int]
        else:
            name, types = "DataFileExists", [str] * directed.size(s, s.pick([1, 1, 2, 3, 4, 6, 9, 20]), 60)
        args = [self.string(d) if t is str else self.integer(d) for t in types]
        if s.chance(4):
            self.wrong += 1
            k = s.below(4)
            if k == 0:
                args = []
            elif k == 1:
                args.append(self.string(0))
                if name == "GetPluginLoadOrder" and len(args) == 2:
                    args.append(["int", 1])
            elif k == 2:
                args[s.below(len(args))] = self.bad(d)
            else:
                args[-1] = self.bad(d)
        return ["call", name, args]

    def numeric(self, d):
        """Expression with several queries."""
        s = self.s
        k = s.below(9)
        if d <= 0 or k < 3:
            return self.query(max(d, 0))
        if k == 3:
            return ["bin", s.pick(["and", "or", "&", "|"]), self.numeric(d - 1), self.numeric(d - 1)]
        if k == 4:
            op = s.pick(["==", "!="])
            return ["cmp", op, self.numeric(d - 1), self.numeric(d - 1), False]
        if k == 5:
            return ["un", s.pick(["not", "!"]), self.numeric(d - 1)]
        if k == 6:
            return ["paren", self.numeric(d - 1)]
        if k == 7:
            return ["bin", "+", ["call", "len", [self.string(d)]], ["int", s.below(3)]]
        return ["cmp", s.pick(["==", "!="]), self.numeric(d - 1), ["int", s.below(3)], False]

    def stmt(self, i, d):
        s = self.s
        k = s.below(11)
        e = self.numeric(s.below(4))
        if k < 4:
            return ["set", f"r{i}", e]
        if k == 4:
            return ["expr", e]
        if k == 5:
            return ["set", f"t{i}", self.string(2)]
        if k == 6:
            other = [["set", f"r{i}", self.query(0)]] if s.flag() else None
            return ["if", [[e, [["expr", self.query(0)]]], [self.query(0), []]], other]
        if k == 7:
            var = f"w{i}"
            cond = ["cmp", "<", ["inc", "++", "pre", var], ["int", s.between(1, 4)], False]
            cond = ["bin", "and", cond, ["un", "not", ["bin", "and", e, ["bool", False]]]]
            return ["while", cond, [["expr", self.query(0)]]]
        if k == 8:
            return ["exec", [["set", f"r{i}", e]], s.pick(["lit", "concat"])]
        if k == 9:
            return ["kw", "Note", [self.string(2)]]
        return ["for", f"x{i}", ["int", 1], ["int", s.between(1, 3)], None, [["set", f"r{i}", e]]]


def build(s):
    q = Queries(s)
    n = s.between(1, 4)
    prog = [["set", "s", ["str", s.pick(STRS)]], ["set", "i", ["int", s.below(5)]]]
    body = [q.stmt(i, 2) for i in range(n)]
    for i, b in enumerate(body):
        if b[0] == "while":
            prog.append(["set", f"w{i}", ["int", 0]])
    return {"prog": prog + body, "salt": s.below(1000)}


def case():
    return gen.cases(build, 150)


def run(c):
    common.SALT[0] = c["salt"]
    labels, outcome = diff.differential(c["prog"], positions=True)
    calls = [e for e in outcome["events"] if e[0] == "mgr"]
    labels += sorted({e[1] for e in calls})
    # The same with the functions of a factory made from a plain manager
    manager, sps = real.Queries(), real.packages(PROFILES["std"])
    factory = real.make_runner_context_factory(sps, manager, real.Quiet())
    ctx = real.WizardInterpreter(factory).make_top_level_context(
        lang.render(c["prog"]), real.WizardRunnerState()
    )
    error = None
    try:
        while not isinstance(ctx, real.WizardTerminationContext):
            ctx = ctx.exec()
    except Exception as ex:
        error = real.error_kind(ex)
    text = lang.render(c["prog"])
    expect("calls of a plain manager", plain(calls), plain(manager.the_events), text)
    expected = outcome["error"] and outcome["error"][0]
    expect("error with a plain manager", expected, error, text)
    expect("state", plain(outcome["state"]), plain(real.norm_state(ctx.state)), text)
    if not calls and not outcome["error"]:
        labels.append("trivial")
    if any(len(e[2]) > 2 for e in calls):
        labels.append("many-files")
    return labels


def show(c):
    return lang.render(c["prog"])


assert set(ONE) < set(ref.MANAGER)
