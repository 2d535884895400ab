"""
What the reference interpreter and the recording runner share: the deterministic answers
of the manager and of the user.
"""

import zlib


def h(*args):
    return zlib.crc32(repr(args).encode("utf-8", "surrogatepass"))


# Changes the answers of the manager; with 0 they are in the documented ranges
SALT = [0]


def manager_answer(name, args):
    x = h(name, list(args), SALT[0])
    if SALT[0]:
        if name == "dataFileExists":
            return bool(x & 16)
        if name in ("getFilename", "getFolder"):
            return ["", "a", "Dir é", "x/y", "If", " ", '"', str(x)][x % 8]
        return [0, 1, -1, 2, 3, 255, -5, 10**20, x][x % 9]
    if name in (
        "compareGameVersion",
        "compareSEVersion",
        "compareGEVersion",
        "compareWBVersion",
    ):
        return x % 3 - 1
    if name == "dataFileExists":
        return bool(x & 16)
    if name == "getPluginLoadOrder":
        if x % 3 == 0:
            return args[1] if len(args) > 1 else -1
        return x % 7
    if name == "getPluginStatus":
        return x % 5 - 1
    if name in ("getFilename", "getFolder"):
        return "" if x % 4 == 0 else f"{name[3:5]}{x % 10}"
    raise AssertionError(name)


def pick_one(d, n):
    """Index of the option answered to a SelectOne, None for the default one."""
    i = d % (n + 1)
    return None if i == n else i


def pick_many(d, n):
    """Indices of the options answered to a SelectMany, None for the default ones."""
    if n > 5:
        # There are few different decisions
        i = 2**n if d % 6 == 5 else (d * 2654435761 >> 7) % 2**n
    else:
        i = d % (2**n + 1)
    return None if i == 2**n else [k for k in range(n) if i >> k & 1]


SEVERITIES = ("ALLOW", "WARNING", "ERROR")
ISSUES = (
    "MULTIPLE_DEFAULTS_IN_SELECT_ON",
    "USAGE_OF_NOTSET_VARIABLES",
    "USAGE_OF_ANYTHING_IN_NOTE",
    "SELECT_MISSING_SUBPACKAGE",
    "SELECT_MISSING_PLUGIN",
)


class Discard(BaseException):
    """The case is outside of what is checked (too long, numbers too big...)."""


MAX_BITS = 2000
MAX_LENGTH = 20000


def sized(v):
    """Discards the cases whose values become huge."""
    if isinstance(v, int) and v.bit_length() > MAX_BITS:
        raise Discard("big number")
    if isinstance(v, str) and len(v) > MAX_LENGTH:
        raise Discard("long string")
    return v


class Violation(Exception):
    """The property does not hold on the case."""


class Rewind(Exception):
    def __init__(self, target):
        self.target = target


class Abort(Exception):
    pass


PROFILES = {
    "none": [],
    "std": [
        ["00 Core", ["main.esp", "textures/a.dds", "Readme.txt"]],
        ["01 Extra", ["Extra.esm", "meshes/b.nif", "data.ini"]],
        ["02 Empty", []],
        ["10 Patch", ["Patch.esp", "main.esp", "sub/Light.esl"]],
    ],
    # More packages than are usually seen
    "many": [[f"{7 * i % 12:02} P", [f"p{i % 5}.esp", f"f{i}.dds"][: i % 3]] for i in range(12)],
    "big": [["Big", [f"f{i}.dds" for i in range(300)]]]
    + [[f"P{i:02}", [f"p{i}.esp"]] for i in range(70)],
    # Files named as packages
    "within": [
        ["Main", ["00 Core", "main.esp", "Main", "ß"]],
        ["00 Core", ["Main", "00 CORE", "A"]],
        ["a", ["B", "main"]],
        ["main.esp", ["a", "MAIN.esp"]],
    ],
    "one": [["Only", ["only.esp"]]],
    # Names and files that are there several times, or differ by case only
    "twice": [
        ["Twin", ["a.esp", "b.dds", "a.esp", "A.esp"]],
        ["Once", []],
        ["Twin", ["c.esm"]],
        ["twin", ["b.dds", "b.dds"]],
    ],
}
