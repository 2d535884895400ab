"""Names of sub-packages and plugins: comparison, order and hash."""

import itertools
import operator

from lib import directed, gen, real
from lib.common import Violation
from lib.diff import expect
from wizard.value import Plugin, SubPackage, Value, Void

ID = "C23"
RULE = (
    "a case is a list of names, as objects or strings; it is trivial when no two of them"
    " differ only in case and are not both strings"
)
QUICK = 16000
THOROUGH = 800_000
ASSUMPTIONS = ["the case-folded form of a string is the one of Python's str.casefold"]

BASES = [
    "00 Core", "Main.esp", "abc", "", "straße", "STRASSE", "ﬁle", "FILE", "ΣΊΣΥΦΟΣ",
    "σίσυφος", "İstanbul", "i̇stanbul", "ıI", "ŉ", "ʼn", "ǅ", "ꭰ", "Ꭰ", "µ", "μ", "K", "k",
    "Å", "å", "Å", "é", "é", "a", "A", "ab", "B", "Z", "[", "_", "日本", "𐐀", "𐐨", "ẞ", "ß",
    "ss", "\x00", "a\n", "ſ", "s", "Ω", "ω",
]  # fmt: skip
BASES = directed.strings(BASES)
OPS = ["eq", "ne", "lt", "le", "gt", "ge"]
KINDS = ["Plugin", "SubPackage", "str", "Renamed"]


def name(s):
    k = s.below(8)
    if k < 4:
        return s.pick(BASES)
    if k < 6:
        return "".join(s.pick(BASES)[:2] for _ in range(s.between(1, 3)))
    n = s.below(0x3000) if k == 6 else s.below(0x110000)
    return chr(n)


def recased(s, n):
    k = s.below(6)
    if k == 0:
        return n.upper()
    if k == 1:
        return n.lower()
    if k == 2:
        return n.swapcase()
    if k == 3:
        return n.casefold()
    if k == 4:
        return n.title()
    return "".join(c.upper() if s.flag() else c for c in n)


def build(s):
    items = []
    for _ in range(s.pick([3, 2, 4, 5, 6])):
        if items and s.below(3):
            n = s.pick(items)[1]
            n = gen.near(s, n) if s.chance(12) else recased(s, n)
        else:
            n = name(s)
        items.append([s.pick(KINDS), n])
    return {"items": items, "other": s.below(len(OTHERS)), "seed": s.below(6)}


OTHERS = [None, 3, 2.5, b"abc", ["abc"], ("abc",), object(), True, Value("abc"), Void()]


def case():
    return gen.cases(build, 90)


def make(kind, n):
    if kind == "Plugin":
        return Plugin(n)
    if kind == "SubPackage":
        return real.Pkg(n, [])
    if kind == "Renamed":
        return Plugin(real.Pkg(n, []))
    return n


def run(c):
    items = [make(*i) for i in c["items"]]
    names = [n for _, n in c["items"]]
    folded = [n.casefold() for n in names]
    objs = [i for i, x in enumerate(items) if not isinstance(x, str)]
    labels = set()

    for i, j in itertools.product(range(len(items)), repeat=2):
        if isinstance(items[i], str) and isinstance(items[j], str):
            continue
        for op in OPS:
            f = getattr(operator, op)
            what = f"{c['items'][i]} {op} {c['items'][j]}"
            r = f(items[i], items[j])
            expect(what, f(folded[i], folded[j]), r)
        if i != j:
            labels.add("equal" if folded[i] == folded[j] else "different")
            if folded[i] == folded[j] and names[i] != names[j]:
                labels.add("recased")
                if names[i].lower() != names[j].lower():
                    labels.add("recased beyond lower case")

    for i in objs:
        what = f"{c['items'][i]}"
        expect(f"name of {what}", names[i], items[i].name)
        expect(f"text of {what}", names[i], str(items[i]))
        expect(f"format of {what}", names[i], f"{items[i]}")
        # In a list, among strings too
        expect(f"index of {what}", folded.index(folded[i]), items.index(items[i]))
        expect(f"count of {what}", folded.count(folded[i]), items.count(items[i]))
        for n in (names[i], names[i].upper(), folded[i]):
            if n.casefold() == folded[i]:
                expect(f"{n!r} in a list with {what}", True, n in [items[k] for k in objs])
        other = OTHERS[c["other"]]
        for op in OPS:
            if isinstance(other, Value):
                # A value has its own comparisons, which come into play
                continue
            for f in (
                lambda a, b: getattr(operator, op)(a, b),
                lambda a, b: getattr(operator, op)(b, a),
            ):
                try:
                    f(items[i], other)
                except TypeError:
                    continue
                raise Violation(f"{what} {op} {other!r} is not a type error")
        for j in objs:
            if folded[i] == folded[j]:
                expect(f"hash of {what}", hash(items[i]), hash(items[j]))

    os = [items[i] for i in objs]
    keys = [folded[i] for i in objs]
    expect("distinct names", len(set(keys)), len(set(os)))
    mapping = {}
    model = {}
    for x, k in zip(os, keys):
        mapping[x] = k
        model.setdefault(k, x)
    expect("keys", [x.name for x in model.values()], [x.name for x in mapping])
    for x, k in zip(os, keys):
        expect(f"item of {x.name!r}", k, mapping[make(KINDS[c["seed"] % 2], x.name)])
        expect(f"item of {x.name!r}, upper case", k if x.name.upper().casefold() == k else None,
               mapping.get(Plugin(x.name.upper())) if x.name.upper().casefold() == k else None)

    # Sorting, strings being among the names
    order = list(itertools.islice(itertools.permutations(range(len(os))), 200))
    perm = order[(c["seed"] * 37) % len(order)]
    shuffled = [os[k] for k in perm]
    expect(
        "sorted names",
        [x.name for x in sorted(shuffled, key=lambda x: x.name.casefold())],
        [x.name for x in sorted(shuffled)],
    )
    if os:
        expect("least", min(keys), min(shuffled).name.casefold())
        expect("greatest", max(keys), max(shuffled).name.casefold())
    if "recased" not in labels:
        labels.add("trivial")
    return sorted(labels)


def show(c):
    return repr(c["items"])
