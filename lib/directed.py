"""
Directs the generators to what changed: the literals that the sources have and that they
did not have when lib/literals.json was written (by tools/literals.py) join the pools of
values and sizes. There are none on the tree it was written for. This only changes which
cases are tried, never what is expected of them.
"""

import ast
import json
import os
from collections import Counter
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = Path(__file__).with_name("literals.json")


def literals(repo=REPO):
    """The literals of each file, with how many times they are there."""
    res = {}
    root = Path(repo) / "src" / "wizard"
    for path in sorted(root.rglob("*.py")):
        if "antlr4" in path.parts:
            continue
        try:
            tree = ast.parse(path.read_text(encoding="utf-8"))
        except (SyntaxError, ValueError, OSError):
            continue
        docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
        found = Counter()
        for n in ast.walk(tree):
            if not isinstance(n, ast.Constant) or id(n) in docs:
                continue
            v = n.value
            if isinstance(v, bool) or v is None or isinstance(v, (bytes, complex)):
                continue
            if isinstance(v, str) and len(v) > 24:
                continue
            if isinstance(v, (int, float, str)):
                found[json.dumps(v)] += 1
        # Powers and the like, of numbers
        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Pow, ast.LShift, ast.Mult)):
                a, b = n.left, n.right
                if all(isinstance(x, ast.Constant) and type(x.value) is int for x in (a, b)):
                    a, b = a.value, b.value
                    if isinstance(n.op, ast.Mult):
                        found[json.dumps(a * b)] += 1
                    elif 0 <= b <= 128 and abs(a) <= 1000:
                        found[json.dumps(a**b if isinstance(n.op, ast.Pow) else a << b)] += 1
        res[str(path.relative_to(root))] = dict(sorted(found.items()))
    return res


def new():
    known = json.loads(KNOWN.read_text())
    res = []
    for name, found in literals().items():
        for text, n in found.items():
            if n > known.get(name, {}).get(text, 0):
                v = json.loads(text)
                if v not in res or type(v) is not type(res[res.index(v)]):
                    res.append(v)
    return res[:12]


NEW = new()
_ints = [v for v in NEW if isinstance(v, int)]
INTS = sorted({n + d for n in _ints for d in (-1, 0, 1)})
FLOATS = [v for v in NEW if isinstance(v, float) and v == v and abs(v) < 1e300]
# Numbers of things for which something may happen
SIZES = [n for n in INTS if 3 < n <= 300]
STRS = []
for _v in NEW:
    if isinstance(_v, str):
        _w = "".join(c for c in _v if not 0xD800 <= ord(c) < 0xE000)
        STRS += [_w, _w + "a", "a" + _w, f"a{_w}b", _w.upper(), _w.lower()]
    elif isinstance(_v, (int, float)):
        STRS.append(str(_v))
STRS = list(dict.fromkeys(STRS))
# Strings as long as that
LONG = ["".join("abc dE"[i * 7 % 6] for i in range(n)) for n in SIZES]


def more(pool, values):
    """The pool, with the new values being about a third of it if there are any."""
    if not values:
        return pool
    times = max(1, len(pool) // (2 * len(values)))
    return list(pool) + list(values) * times


def strings(pool):
    return more(pool, STRS + LONG)


def numbers(pool):
    return more(pool, INTS)


def positive(pool):
    return more(pool, [n for n in INTS if n >= 0])


def size(s, usual, most=300):
    """The usual size, or rarely one that the sources tell about."""
    sizes = [n for n in SIZES if n <= most]
    if sizes and s.chance(12):
        return s.pick(sizes)
    return usual
