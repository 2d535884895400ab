"""
Drives the interpreter of /repo, through its public interface, and puts what it does in
the same form as the reference interpreter.
"""

import io
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")

from wizard.contexts import (  # noqa: E402
    WizardSelectManyContext,
    WizardSelectOneContext,
    WizardTerminationContext,
)
from wizard.errors import (  # noqa: E402
    WizardError,
    WizardIndexError,
    WizardMissingPackageError,
    WizardMissingPluginError,
    WizardNameError,
    WizardParseError,
    WizardTypeError,
)
from wizard.interpreter import WizardInterpreter  # noqa: E402
from wizard.manager import ManagerModInterface, SelectOption  # noqa: E402
from wizard.runner import WizardRunnerState  # noqa: E402
from wizard.scriptrunner import (  # noqa: E402
    WizardScriptRunner,
    WizardScriptRunnerStatus,
)
from wizard.severity import Issue, Severity, SeverityContext  # noqa: E402
from wizard.state import WizardInterpreterState  # noqa: E402
from wizard.utils import (  # noqa: E402
    make_basic_context_factory,
    make_runner_context_factory,
)
from wizard.value import SubPackage, SubPackages, Value, Void  # noqa: E402

import wizard  # noqa: E402

from .common import manager_answer, sized  # noqa: E402
from .ref import chosen  # noqa: E402

assert os.path.realpath(wizard.__file__).startswith(os.path.realpath(REPO) + os.sep), (
    wizard.__file__
)

__all__ = [
    "Issue",
    "ManagerModInterface",
    "Severity",
    "SeverityContext",
    "SelectOption",
    "SubPackages",
    "Value",
    "Void",
    "WizardError",
    "WizardInterpreter",
    "WizardInterpreterState",
    "WizardRunnerState",
    "WizardScriptRunner",
    "WizardSelectManyContext",
    "WizardSelectOneContext",
    "WizardTerminationContext",
    "io",
    "make_basic_context_factory",
    "make_runner_context_factory",
]


class Pkg(SubPackage):
    def __init__(self, name, files):
        super().__init__(name)
        self._the_files = list(files)

    @property
    def files(self):
        return iter(self._the_files)


def packages(profile):
    return SubPackages([Pkg(n, f) for n, f in profile])


KINDS = (
    (WizardTypeError, "type"),
    (WizardNameError, "name"),
    (WizardIndexError, "index"),
    (WizardParseError, "parse"),
    (WizardMissingPackageError, "missing_package"),
    (WizardMissingPluginError, "missing_plugin"),
    (WizardError, "wizard"),
)


def error_kind(ex):
    for cls, kind in KINDS:
        if isinstance(ex, cls):
            return kind
    return "other"


def error_pos(ex):
    return (ex.line, ex.column) if isinstance(ex, WizardError) else None


def norm_value(v):
    """Comparable form of a Value, or of a plain Python object."""
    declared = None
    if isinstance(v, Value):
        declared = str(v.type)
        v = v.value
    if isinstance(v, bool):
        r = ["bool", v]
    elif isinstance(v, int):
        r = ["integer", v]
    elif isinstance(v, float):
        r = ["float", repr(v)]
    elif isinstance(v, str):
        r = ["string", v]
    elif isinstance(v, SubPackages):
        r = ["SubPackage[]", [s.name for s in v]]
    elif isinstance(v, SubPackage):
        r = ["SubPackage", v.name]
    elif isinstance(v, Void) or v is None:
        r = ["void", None]
    else:
        r = [type(v).__name__, repr(v)]
    if declared is not None and declared != r[0]:
        r = [f"{declared} declared for {r[0]}", r[1]]
    return r


def norm_state(st):
    res = {"vars": {k: norm_value(v) for k, v in sorted(st.variables.items())}}
    if isinstance(st, WizardRunnerState):
        res["subpackages"] = [s.name for s in st.subpackages]
        res["plugins"] = [p.name for p in st.plugins]
        res["renames"] = sorted([p.name.casefold(), v] for p, v in st.renames.items())
        res["notes"] = list(st.notes)
        res["modified"] = [
            [m.filename, m.section, m.setting, norm_value(m.value), m.comment]
            for m in st.tweaks.modified
        ]
        res["disabled"] = [
            [m.filename, m.section, m.setting] for m in st.tweaks.disabled
        ]
    return res


def norm_option(o):
    return [o.name, o.description, o.image]


class Recorder(WizardScriptRunner):
    """
    Runner that records its callbacks. The handler decides what they answer, it has the
    same interface as the handlers of the reference interpreter (it is given the runner
    instead of the reference interpreter).
    """

    def __init__(self, subpackages, handler):
        super().__init__(subpackages)
        self.the_events = []
        self.the_handler = handler
        self.the_error = None

    def record(self, event):
        self.the_events.append(event)

    def warning(self, text):
        self.record(["warn"])
        self.the_handler.warned(self)

    def error(self, exc):
        self.the_error = exc
        self.record(["error", error_kind(exc), error_pos(exc)])
        self.the_handler.error(self)

    def cancel(self):
        ctx = self.context()
        aborting = not isinstance(ctx, WizardTerminationContext) or not ctx.is_cancel()
        message = None if aborting else ctx.message()
        self.record(["cancel", message])
        return self.the_handler.cancel(self, aborting)

    def complete(self):
        self.record(["complete"])
        return self.the_handler.complete(self, not self.context().is_return())

    def ask(self, kind, description, options, defaults):
        self.record(
            [
                kind,
                description,
                [norm_option(o) for o in options],
                [norm_option(o) for o in defaults],
            ]
        )
        opts = [norm_option(o) for o in options]
        # The default ones are known by their position
        positions = []
        for d in defaults:
            ids = [i for i, o in enumerate(options) if o is d]
            if not ids:
                ids = [i for i, o in enumerate(opts) if o == norm_option(d)]
            positions.append(ids[0] if ids else -1)
        sel = self.the_handler.select(self, kind, description, opts, positions)
        return [options[i] for i in sel]

    def selectOne(self, description, options, default):
        return self.ask("One", description, options, [default])[0]

    def selectMany(self, description, options, default=[]):
        return self.ask("Many", description, options, list(default))

    def requiresVersions(self, game_version, se_version, ge_version, wrye_bash_version):
        args = [game_version, se_version, ge_version, wrye_bash_version]
        self.record(["req", [norm_value(a) for a in args]])
        self.the_handler.query(self, "requiresVersions", args)


def _query(name):
    def method(self, *args, **kwargs):
        args = list(args) + [kwargs[k] for k in sorted(kwargs)]
        self.record(["mgr", name, [norm_value(a) for a in args]])
        self.the_handler.query(self, name, args)
        return manager_answer(name, args)

    return method


for _name in (
    "compareGameVersion",
    "compareSEVersion",
    "compareGEVersion",
    "compareWBVersion",
    "dataFileExists",
    "getPluginLoadOrder",
    "getPluginStatus",
    "getFilename",
    "getFolder",
):
    setattr(Recorder, _name, _query(_name))

STATUS = {
    WizardScriptRunnerStatus.CANCEL: "CANCEL",
    WizardScriptRunnerStatus.RETURN: "RETURN",
    WizardScriptRunnerStatus.COMPLETE: "COMPLETE",
    WizardScriptRunnerStatus.ERROR: "ERROR",
}


def set_severities(sc, sev=None, default_sev=None):
    if default_sev is not None:
        sc.set_default_severity(Severity[default_sev])
    for issue, s in sorted((sev or {}).items()):
        sc.set_severity(Issue[issue], Severity[s])


def make_runner(profile, handler, sev=None, default_sev=None, cls=Recorder):
    r = cls(packages(profile), handler)
    set_severities(r, sev, default_sev)
    return r


def run_on(runner, script):
    """Run a script on a Recorder, gives an outcome as ref.run() does."""
    runner.the_events = []
    runner.the_error = None
    try:
        status, state = runner.run(script)
    except Exception as ex:  # reading the script failed
        return {
            "status": "READ",
            "state": None,
            "error": [error_kind(ex), None],
            "events": runner.the_events,
            "exception": ex,
        }
    ex = runner.the_error
    return {
        "status": STATUS.get(status, str(status)),
        "state": norm_state(state),
        "error": [error_kind(ex), error_pos(ex)]
        if ex is not None and status is WizardScriptRunnerStatus.ERROR
        else None,
        "events": runner.the_events,
        "exception": ex,
    }


def run(script, profile, sev=None, default_sev=None, handler=None):
    return run_on(make_runner(profile, handler, sev, default_sev), script)


class Quiet(SeverityContext):
    """Severity context counting the warnings."""

    def __init__(self):
        super().__init__()
        self.the_warnings = 0

    def warning(self, text):
        self.the_warnings += 1


class Queries(ManagerModInterface):
    """Plain manager recording the queries."""

    def __init__(self):
        self.the_events = []


def _plain(name):
    def method(self, *args, **kwargs):
        args = list(args) + [kwargs[k] for k in sorted(kwargs)]
        self.the_events.append(["mgr", name, [norm_value(a) for a in args]])
        return manager_answer(name, args)

    return method


for _name in (
    "compareGameVersion",
    "compareSEVersion",
    "compareGEVersion",
    "compareWBVersion",
    "dataFileExists",
    "getPluginLoadOrder",
    "getPluginStatus",
    "getFilename",
    "getFolder",
):
    setattr(Queries, _name, _plain(_name))


def default_decision(ctx):
    """The decision that leaves the default options."""
    n = len(list(ctx.options))
    return n if isinstance(ctx, WizardSelectOneContext) else 5 if n > 5 else 2**n


def step(ctx, dec, chose=None):
    """
    Execute one step, answering a select with the decision made for it. If given, chose()
    is called with the context that has the answer.
    """
    if isinstance(ctx, WizardSelectOneContext):
        opts = list(ctx.options)
        i = [k for k, o in enumerate(opts) if o is ctx.default] or [0]
        sel = chosen("One", dec, opts, i)
        ctx = ctx.select(opts[sel[0]])
    elif isinstance(ctx, WizardSelectManyContext):
        opts = list(ctx.options)
        ds = [k for k, o in enumerate(opts) if any(o is d for d in ctx.defaults)]
        sel = [opts[k] for k in chosen("Many", dec, opts, ds)]
        ctx = ctx.select(sel)
        # What becomes of the list of the host afterwards does not matter
        sel.reverse()
        sel.extend(opts)
    if chose is not None:
        chose(ctx)
    return execute(ctx)


def execute(ctx):
    """Execute one step; the case is discarded when it makes huge values."""
    ctx = ctx.exec()
    for v in ctx.state.variables.values():
        sized(v.value)
    return ctx


def is_ask(ctx):
    return isinstance(ctx, (WizardSelectOneContext, WizardSelectManyContext))
