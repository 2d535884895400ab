"""Histories of the selection keywords over generated sets of sub-packages."""

from lib import diff, directed, gen, lang, micro, real, ref
from lib.common import ISSUES, SEVERITIES
from lib.diff import expect, plain

from wizard.contexts import WizardBodyContext

ID = "C14"
RULE = (
    "a case is a set of sub-packages and a history of selection keywords; it is trivial"
    " when nothing is ever selected"
)
QUICK = 10000
THOROUGH = 250_000

NAMES = [
    "00 Core", "01 Extra", "10 Patch", "2", "é", "Straße", "ΣΑΣ", "a", "B", "c", "[x]",
    "Ünï", "日本", "a b", "ab", "A_", "ﬁ", "_z", "Zz", "Strat", "fj", "ΣΑΤ",
]  # fmt: skip
PLUGINS = ["main.esp", "a.esm", "B.esl", "é.esp", "Zed.esp", "a.esp", "Straße.esm", "_.esp", "c d.esl",
           "Strat.esp", "ﬁ.esp", "fj.esl", ".esp", "main.esp.esm", "..esl"]
PLUGINS += [f"{x}.esp" for x in directed.STRS]
OTHERS = ["readme.txt", "x.esp.bak", "t.dds", "esp", "esm/readme", "data.ini", "mesh.nif", "a.esp.txt"]
OTHERS = directed.strings(OTHERS)
DIRS = ["", "", "", "sub/", "a/b/", "x.esp/"]


def recase(s, n):
    return s.pick([n, n, n, n.lower(), n.upper(), n.swapcase(), n.casefold(), n.title()])


def packages(s):
    left = list(NAMES)
    if directed.STRS:
        left += list({n.casefold(): n for n in directed.STRS + directed.LONG}.values())
    plugins = s.pick([PLUGINS, PLUGINS[:4], PLUGINS[:2]])
    res = []
    many = s.chance(4)
    if many:
        # More of them than anyone names
        left += [f"{k} {n}" for k in range(20, 22) for n in NAMES]
        plugins = PLUGINS + [f"{n}{p}" for n in range(3) for p in PLUGINS]
    for _ in range(s.between(10, 40) if many else s.pick([3, 2, 4, 1, 0, 5, 6])):
        name = recase(s, left.pop(s.below(len(left))))
        if any(name.casefold() == n.casefold() for n, _ in res):
            continue
        files = []
        for _ in range(s.pick([2, 1, 3, 0, 4, 5])):
            if s.below(4) == 3:
                files.append(s.pick(DIRS) + s.pick(OTHERS))
            else:
                # Only the extension has a given case
                p = s.pick(plugins)
                p = (recase(s, p[:-4]) if s.chance(20) else p[:-4]) + p[-4:]
                files.append(s.pick(DIRS) + p)
        res.append([name, files])
    return res


KINDS = [
    "SelectSubPackage", "SelectPlugin", "SelectAll", "DeSelectPlugin", "DeSelectSubPackage",
    "SelectAllPlugins", "DeSelectAllPlugins", "DeSelectAll", "SelectSubPackage",
    "SelectPlugin", "DeSelectPlugin", "SelectEspm", "DeSelectEspm", "SelectAllEspms",
    "DeSelectAllEspms", "SelectSubPackage",
]  # fmt: skip


def names(pk):
    res = []
    for _, files in pk:
        for f in files:
            if f.endswith((".esp", ".esm", ".esl")):
                res.append(f.split("/")[-1])
    return res


def argument(s, pk, sub):
    pool = [n for n, _ in pk] if sub else names(pk)
    k = s.below(12)
    if k < 9 and pool:
        n = recase(s, s.pick(pool))
    elif k == 9:
        # A name of the other kind
        pool = names(pk) if sub else [n for n, _ in pk]
        n = s.pick(pool or ["x"])
    else:
        n = s.pick(["Missing", "missing.esp", "", " ", s.pick(NAMES), s.pick(PLUGINS)])
    if n and s.chance(6):
        # Nearly the name
        n = gen.near(s, n)
    if s.chance(8) and n:
        return ["bin", "+", ["str", n[:1]], ["str", n[1:]]]
    return ["str", n]


def build(s):
    pk = packages(s)
    stmts = []
    for _ in range(s.between(1, 14)):
        k = s.pick(KINDS)
        if "All" in k:
            args = []
        elif "SubPackage" in k and pk and s.chance(15):
            args = [["idx", ["sps"], ["int", s.below(len(pk))]]]
        else:
            args = [argument(s, pk, "SubPackage" in k)]
        stmts.append(["kw", k, args])
        if s.chance(6):
            # Through the loop variable
            kw = s.pick(["SelectSubPackage", "DeSelectSubPackage"])
            stmts.append(["forin", "y", ["sps"], [["kw", kw, [["var", "y"]]]]])
    sev = {}
    if s.below(3) == 2:
        sev = {s.pick(ISSUES[3:]): s.pick(SEVERITIES)}
    return {"prog": stmts, "packages": pk, "sev": sev}


def case():
    return gen.cases(build, 200)


def lower(state):
    state = plain(state)
    state["plugins"] = [p.casefold() for p in state["plugins"]]
    return state


def run(c):
    pk = c["packages"]
    text = lang.render(c["prog"])
    where = f"{text}\nwith {pk} {c['sev']}"
    model = ref.Interp(pk, c["sev"])
    model.posmaps = [lang.render_positions(c["prog"])[1]]
    sps = real.packages(pk)
    before = [[x.name, list(x.files)] for x in sps]
    r = real.Recorder(sps, ref.Handler())
    real.set_severities(r, c["sev"])
    spellings = set(names(pk))
    labels = set()
    ctx = r.make_top_level_context(text).exec()
    for i, st in enumerate(c["prog"]):
        error = None
        try:
            model.body([st])
        except ref.Err as ex:
            error = ex.kind
        got = None
        try:
            depth = ctx.parent
            ctx = ctx.exec()
            while not (isinstance(ctx, WizardBodyContext) and ctx.parent is depth):
                ctx = ctx.exec()
        except Exception as ex:
            got = real.error_kind(ex)
        expect(f"error of statement {i}", error, got, where)
        expect(f"warnings until statement {i}", plain(model.events), plain(r.the_events), where)
        if error is not None:
            labels.add("error " + error)
            model.state = model.snap
        exp, act = model.state.norm(), real.norm_state(ctx.state)
        expect(f"state after statement {i}", lower(exp), lower(act), where)
        for p in act["plugins"]:
            if p not in spellings:
                expect("spelling of a plugin", sorted(spellings), p, where)
        if exp["subpackages"] or exp["plugins"]:
            labels.add("selected")
        if exp["plugins"] and not exp["subpackages"]:
            labels.add("plugins only")
        if error is not None:
            break
    if model.events:
        labels.add("warnings")
    expect("the given sub-packages", before, [[x.name, list(x.files)] for x in sps], where)
    available(pk, sps, ctx.factory.kvisitor, where)
    if "selected" not in labels:
        labels.add("trivial")
    labels.add(f"{len(pk)} packages")
    return sorted(labels)


def available(pk, sps, visitor, where):
    """What can be selected, whatever is."""
    expect("available", [n for n, _ in pk], [x.name for x in visitor.subpackages], where)
    every = {}
    for (_, files), x in zip(pk, sps):
        own = names([[None, files]])
        expect("plugins of it", own, [p.name for p in visitor.plugins_for(x)], where)
        for p in own:
            every.setdefault(p.casefold(), p)
    expect("plugins", list(every.values()), [p.name for p in visitor.plugins], where)


def show(c):
    return f"{c['packages']}\n" + lang.render(c["prog"])
