"""Stacked mappings, against a model, over histories of operations on trees of them."""

import json

from lib import directed, gen, real
from lib.diff import expect
from wizard.utils.mappings import StackMutableMapping

ID = "C24"
RULE = (
    "a case is a tree of mappings and a history of operations; it is trivial when no"
    " mapping other than a root is changed"
)
QUICK = 16000
FUEL = 4_000_000
THOROUGH = 800_000

REPO = real.REPO
KEYS = ["a", "b", "c", "d", 1, None]
OPS = [
    "set", "set", "set", "del", "del", "del", "get", "pop", "popdef", "setdefault",
    "update", "clear", "popitem", "in", "push", "push", "eq",
]  # fmt: skip


class Model:
    """What a mapping shows, from what its parent shows."""

    def __init__(self, parent=None):
        self.parent = parent
        self.own = {}  # key -> [value] or [] when deleted

    def view(self):
        res = dict(self.parent.view()) if self.parent is not None else {}
        for k, v in self.own.items():
            if v:
                res[k] = v[0]
            else:
                res.pop(k, None)
        return res


def build(s):
    n = directed.size(s, s.pick([2, 2, 3, 4, 1]), 20)
    if s.chance(3):
        # A long chain
        n = s.between(5, 12)
    parents = [None] + [i if n > 4 else s.below(i + 1) for i in range(n - 1)]
    ops = []
    for _ in range(s.between(3, 24)):
        op = s.pick(OPS)
        who = s.below(max(n, 1))
        key = s.below(3) if s.below(4) else s.below(len(KEYS))
        ops.append([op, who, key, s.below(4)])
    return {"parents": parents, "ops": ops}


def case():
    return gen.cases(build, 130)


def attempt(f):
    try:
        return ["value", f()]
    except KeyError:
        return ["KeyError"]


def check(what, m, model):
    view = model.view()
    expect(f"{what}: items", sorted(map(repr, view.items())), sorted(map(repr, m.items())))
    keys = list(m)
    expect(f"{what}: keys", sorted(map(repr, view)), sorted(map(repr, keys)))
    expect(f"{what}: length", len(view), len(m))
    expect(f"{what}: truth", bool(view), bool(m))
    for k in KEYS:
        expect(f"{what}: {k!r} in it", k in view, k in m)
        expect(f"{what}: item {k!r}", attempt(lambda: view[k]), attempt(lambda: m[k]))
        expect(f"{what}: get {k!r}", view.get(k, "none"), m.get(k, "none"))
    expect(f"{what}: equal to its view", True, m == view)
    expect(f"{what}: equal to something else", False, m == {**view, "else": 1})
    expect(f"{what}: values", sorted(map(repr, view.values())), sorted(map(repr, m.values())))


def run(c):
    maps, models = [], []
    labels = {f"{len(c['parents'])} mappings"}
    for p in c["parents"]:
        if p is not None and p >= len(maps):
            p = len(maps) - 1
        if p is None:
            maps.append(StackMutableMapping())
            models.append(Model())
        else:
            maps.append(StackMutableMapping(maps[p]))
            models.append(Model(models[p]))
    trivial = True
    for n, (op, who, key, val) in enumerate(c["ops"]):
        who %= len(maps)
        k = KEYS[key]
        m, model = maps[who], models[who]
        view = model.view()
        what = f"operation {n}, {op} {k!r} on {who}"
        labels.add(op)
        if op == "push":
            if len(maps) < 6:
                maps.append(StackMutableMapping(m))
                models.append(Model(model))
        elif op == "set":
            m[k] = val
            model.own[k] = [val]
        elif op == "del":
            expected = ["value", None] if k in view else ["KeyError"]
            expect(what, expected, attempt(lambda: m.__delitem__(k)))
            if k in view:
                model.own[k] = []
                if model.parent is not None and k in model.parent.view():
                    labels.add("deleted from a parent")
        elif op == "get":
            expect(what, attempt(lambda: view[k]), attempt(lambda: m[k]))
        elif op == "in":
            expect(what, k in view, k in m)
        elif op == "pop":
            expect(what, attempt(lambda: view[k]), attempt(lambda: m.pop(k)))
            if k in view:
                model.own[k] = []
        elif op == "popdef":
            expect(what, view.get(k, "default"), m.pop(k, "default"))
            if k in view:
                model.own[k] = []
        elif op == "setdefault":
            expect(what, view.get(k, val), m.setdefault(k, val))
            if k not in view:
                model.own[k] = [val]
        elif op == "update":
            new = {k: val, KEYS[(key + 1) % 3]: val}
            m.update(new)
            for a, b in new.items():
                model.own[a] = [b]
        elif op == "clear":
            m.clear()
            for a in view:
                model.own[a] = []
        elif op == "popitem":
            got = attempt(lambda: m.popitem())
            if not view:
                expect(what, ["KeyError"], got)
            else:
                expect(what, True, got[0] == "value" and got[1] in view.items())
                model.own[got[1][0]] = []
        elif op == "eq":
            other = models[val % len(maps)].view()
            expect(what, view == other, m == maps[val % len(maps)])
        if who and op not in ("get", "in", "eq", "push"):
            trivial = False
        for i, (a, b) in enumerate(zip(maps, models)):
            if len(maps) > 6 and i not in (who, who + 1, len(maps) - 1) and n < len(c["ops"]) - 1:
                continue
            check(f"{what}; mapping {i}", a, b)
    if trivial:
        labels.add("trivial")
    return sorted(labels)


def show(c):
    return json.dumps(c)
