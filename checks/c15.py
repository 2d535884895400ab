"""Histories of renames of plugins."""

from lib import directed, gen, lang, real, ref
from lib.diff import expect, plain

from wizard.contexts import WizardBodyContext
from wizard.value import Plugin

ID = "C15"
RULE = (
    "a case is a history of renames and resets; it is trivial when no plugin is renamed"
    " twice, nor reset after it was renamed"
)
QUICK = 12000
THOROUGH = 300_000

PLUGINS = ["main.esp", "Extra.esm", "Light.esl", "é.esp", "Straße.esp", "a", "", "Missing.esp", "x y.esp"]
PLUGINS = directed.strings(PLUGINS)
PACKAGES = [["00 Core", ["main.esp", "sub/Light.esl"]], ["01", ["Extra.esm", "main.esp"]]]


def plugin(s):
    n = s.pick(PLUGINS[: s.pick([2, 4, len(PLUGINS)])])
    if s.chance(6):
        n = gen.near(s, n)
    return s.pick([n, n, n.lower(), n.upper(), n.swapcase(), n.casefold()])


def build(s):
    stmts = []
    for _ in range(s.between(1, 12)):
        k = s.below(10)
        if k < 6:
            new = s.pick(["new.esp", "NEW.ESP", "main.esp", "", "b.esm", "é", plugin(s)])
            kw = ["kw", s.pick(["RenamePlugin", "RenameEspm"]), [["str", plugin(s)], ["str", new]]]
        elif k < 9:
            kw = ["kw", s.pick(["ResetPluginName", "ResetEspmName"]), [["str", plugin(s)]]]
        else:
            kw = ["kw", s.pick(["ResetAllPluginNames", "ResetAllEspmNames"]), []]
        stmts.append(kw)
        if s.chance(10):
            k = s.pick(["SelectAll", "DeSelectAll", "SelectAllPlugins", "DeSelectPlugin", "SelectPlugin"])
            stmts.append(["kw", k, [] if "All" in k else [["str", plugin(s)]]])
    if s.chance(3):
        # Many plugins
        n = directed.size(s, s.between(13, 60), 120)
        many = [["kw", "RenamePlugin", [["str", f"p{i}.esp"], ["str", f"n{i}.esp"]]] for i in range(n)]
        for _ in range(s.below(6)):
            i = s.below(n)
            many.append(s.pick([["kw", "ResetPluginName", [["str", f"P{i}.esp"]]],
                                ["kw", "RenameEspm", [["str", f"P{i}.ESP"], ["str", "again.esp"]]]]))  # fmt: skip
        at = s.below(len(stmts) + 1)
        stmts[at:at] = many
    return {"prog": stmts}


def case():
    return gen.cases(build, 120)


def run(c):
    text = lang.render(c["prog"])
    r = real.Recorder(real.packages(PACKAGES), ref.Handler())
    renames = {}
    spelled = set()
    labels = set()
    ctx = r.make_top_level_context(text).exec()
    for i, (_, name, args) in enumerate(c["prog"]):
        args = [a[1] for a in args]
        if name.startswith("Rename"):
            k = args[0].casefold()
            if k in renames:
                labels.add("renamed again")
            renames[k] = args[1]
            spelled.add(args[0])
        elif name.startswith("ResetAll"):
            if renames:
                labels.add("all reset")
            renames = {}
        elif name.startswith("Reset"):
            labels.add("reset" if args[0].casefold() in renames else "reset, not renamed")
            renames.pop(args[0].casefold(), None)
        depth = ctx.parent
        ctx = ctx.exec()
        while not (isinstance(ctx, WizardBodyContext) and ctx.parent is depth):
            ctx = ctx.exec()
        got = ctx.state.renames
        items = [[p.name.casefold(), v] for p, v in got.items()]
        expect(f"renames after {i}", sorted(plain(list(renames.items()))), sorted(items), text)
        expect("number of renames", len(renames), len(got), text)
        for p in got:
            if p.name not in spelled:
                expect("spelling", sorted(spelled), p.name, text)
        # They are found in any case
        for k in {p.casefold() for p in PLUGINS}:
            for n in (k, k.upper()):
                if n.casefold() == k:
                    expect(f"new name of {n!r}", renames.get(k), got.get(Plugin(n)), text)
    if not labels & {"renamed again", "all reset", "reset"}:
        labels.add("trivial")
    return sorted(labels)


def show(c):
    return lang.render(c["prog"])
