"""
Deterministic guard against non-termination: counts the function starts and the jumps
executed in the code of the wizard package (not in the generated parser), and raises
Fuel after too many of them. A much larger CPU-time limit catches the loops outside of
that code.
"""

import signal
import sys
import types


class Fuel(BaseException):
    """The code under test does not terminate."""


TOOL = 4
LIMIT = 400_000
CPU_SECONDS = 60

_count = 0
_limit = None
_on = False
_max = 0


def _tick(code, *args):
    global _count
    _count += 1
    if _limit is not None and _count > _limit:
        raise Fuel("too many steps")


def _codes():
    seen = set()
    stack = []
    for name, mod in list(sys.modules.items()):
        if (name == "wizard" or name.startswith("wizard.")) and not name.startswith(
            "wizard.antlr4"
        ):
            stack.extend(vars(mod).values())
    res = []
    visited = set()
    while stack:
        o = stack.pop()
        if id(o) in visited:
            continue
        visited.add(id(o))
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            stack.extend(f for f in (o.fget, o.fset, o.fdel) if f)
        elif isinstance(o, types.FunctionType):
            stack.append(o.__code__)
            if hasattr(o, "__wrapped__"):
                stack.append(o.__wrapped__)
        elif isinstance(o, type):
            if str(o.__module__).startswith("wizard"):
                stack.extend(vars(o).values())
        elif isinstance(o, types.CodeType):
            if "wizard" not in o.co_filename or "/antlr4/" in o.co_filename:
                continue
            if o not in seen:
                seen.add(o)
                res.append(o)
            stack.extend(c for c in o.co_consts if isinstance(c, types.CodeType))
    return res


def install():
    global _on
    if _on:
        return
    _on = True
    m = sys.monitoring
    m.use_tool_id(TOOL, "verif")
    ev = m.events.PY_START | m.events.JUMP
    for code in _codes():
        m.set_local_events(TOOL, code, ev)
    m.register_callback(TOOL, m.events.PY_START, _tick)
    m.register_callback(TOOL, m.events.JUMP, _tick)
    signal.signal(signal.SIGPROF, _alarm)


def _alarm(signum, frame):
    raise Fuel("too much CPU time")


class guarded:
    def __init__(self, limit=LIMIT):
        self.limit = limit

    def __enter__(self):
        global _count, _limit
        install()
        _count = 0
        _limit = self.limit
        signal.setitimer(signal.ITIMER_PROF, CPU_SECONDS)

    def __exit__(self, *exc):
        global _limit, _max
        signal.setitimer(signal.ITIMER_PROF, 0)
        _limit = None
        _max = max(_max, _count)


def max_count():
    return _max
