"""
Mutation testing of the checks, in scratch copies of /repo (nothing is changed there).

mutate.py tests OUT         small changes of src/wizard that the stable tests do not see
mutate.py checks IN OUT [SCALE [CHECK...]]   which checks see them (stops at the first)
mutate.py show IN           the changes as diffs
"""

import ast
import copy
import difflib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
SCRATCH = "/tmp/mut"


def files():
    res = []
    for base, dirs, names in os.walk(os.path.join(REPO, "src/wizard")):
        if "antlr4" in dirs:
            dirs.remove("antlr4")
        res += [os.path.join(base, n) for n in names if n.endswith(".py")]
    return sorted(os.path.relpath(p, REPO) for p in res)


CMP = {
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt],
    ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
    ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
}  # fmt: skip
BIN = {
    ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.FloorDiv],
    ast.Mod: [ast.Mult], ast.Pow: [ast.Mult],
}  # fmt: skip
UNWRAP = {"list", "tuple", "sorted", "set", "dict", "bool", "int", "str", "copy", "deepcopy",
          "reversed", "copy_context", "casefold", "lower", "strip", "iter", "Value"}
RENAME = {"casefold": "lower", "lower": "upper", "startswith": "endswith", "find": "rfind",
          "append": "pop", "any": "all", "all": "any", "exec": "exec_", "strip": "rstrip",
          "add": "discard", "endswith": "startswith", "extend": "append"}


def variants(node, parents):
    """Nodes (or None to delete the statement) that may replace a node."""
    n = node
    if isinstance(n, ast.Compare):
        for i, op in enumerate(n.ops):
            for new in CMP.get(type(op), []):
                c = copy.deepcopy(n)
                c.ops[i] = new()
                yield c
    elif isinstance(n, ast.BoolOp):
        c = copy.deepcopy(n)
        c.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        yield c
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            yield copy.deepcopy(rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest))
    elif isinstance(n, ast.UnaryOp):
        yield copy.deepcopy(n.operand)
    elif isinstance(n, ast.BinOp):
        for new in BIN.get(type(n.op), []):
            c = copy.deepcopy(n)
            c.op = new()
            yield c
    elif isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, (int, float)):
            yield ast.Constant(v + 1)
            if v:
                yield ast.Constant(-v)
        elif isinstance(v, str):
            if not any(is_message(p) for p in parents):
                yield ast.Constant(v + "x" if v == "" else "")
        elif v is None:
            pass
    elif isinstance(n, (ast.If, ast.While)):
        c = copy.copy(n)
        c.test = ast.UnaryOp(ast.Not(), n.test)
        yield c
        if n.orelse:
            c = copy.copy(n)
            c.orelse = []
            yield c
        if isinstance(n, ast.If):
            c = copy.copy(n)
            c.test = ast.Constant(False)
            yield c
            c = copy.copy(n)
            c.test = ast.Constant(True)
            yield c
    elif isinstance(n, ast.IfExp):
        yield copy.deepcopy(n.body)
        yield copy.deepcopy(n.orelse)
    elif isinstance(n, ast.Call):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in UNWRAP:
            if n.args and not name == "copy":
                yield copy.deepcopy(n.args[0])
            elif isinstance(f, ast.Attribute):
                yield copy.deepcopy(f.value)
        if name in RENAME:
            c = copy.deepcopy(n)
            if isinstance(f, ast.Attribute):
                c.func.attr = RENAME[name]
            else:
                c.func.id = RENAME[name]
            yield c
        if len(n.args) > 1 and "Error" not in name and name != "isinstance":
            c = copy.deepcopy(n)
            c.args[0], c.args[1] = c.args[1], c.args[0]
            yield c
        for i in range(len(n.keywords)):
            c = copy.deepcopy(n)
            del c.keywords[i]
            yield c
        if len(n.args) > 1 and name not in ("isinstance",):
            c = copy.deepcopy(n)
            del c.args[-1]
            yield c
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        yield copy.deepcopy(n.value)
    elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
        for i, g in enumerate(n.generators):
            for j in range(len(g.ifs)):
                c = copy.deepcopy(n)
                del c.generators[i].ifs[j]
                yield c
    elif isinstance(n, ast.Return) and n.value is not None:
        if not isinstance(n.value, ast.Constant):
            yield ast.Return(ast.Constant(None))
    elif isinstance(n, ast.Break):
        yield ast.Pass()
    elif isinstance(n, ast.Continue):
        yield ast.Pass()
        yield ast.Break()
    elif isinstance(n, ast.ExceptHandler):
        pass
    if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return)):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield ast.Pass()
    if isinstance(n, ast.Try):
        yield n.body  # without its handlers


def is_message(p):
    if isinstance(p, (ast.Raise, ast.JoinedStr)):
        return True
    if isinstance(p, ast.Call):
        name = getattr(p.func, "attr", getattr(p.func, "id", ""))
        return "Error" in name or name in ("warning", "raise_or_warn", "getLogger")
    return False


SKIP_FIELDS = {"annotation", "returns", "type_params", "bases"}


def sites(tree):
    """(parent, field, index, node, parents) of what may be replaced."""
    res = []

    def walk(node, parents):
        for field, value in ast.iter_fields(node):
            if field in SKIP_FIELDS:
                continue
            if isinstance(node, ast.FunctionDef) and field == "decorator_list":
                continue
            seq = value if isinstance(value, list) else [value]
            for i, v in enumerate(seq):
                if not isinstance(v, ast.AST):
                    continue
                if isinstance(v, (ast.Import, ast.ImportFrom)):
                    continue
                if isinstance(v, ast.Assign) and "__all__" in ast.unparse(v.targets[0]):
                    continue
                if isinstance(v, ast.Assign) and "TypeVar" in ast.unparse(v.value):
                    continue
                if isinstance(v, ast.If) and "TYPE_CHECKING" in ast.unparse(v.test):
                    continue
                if isinstance(v, ast.Expr) and isinstance(v.value, ast.Constant):
                    continue
                idx = i if isinstance(value, list) else None
                res.append((node, field, idx, v, parents + [node]))
                walk(v, parents + [node])

    walk(tree, [])
    return res


def mutants(path):
    """(number, description, source) of each mutant of a file."""
    with open(os.path.join(REPO, path)) as fp:
        text = fp.read()
    tree = ast.parse(text)
    plain = ast.unparse(tree)
    seen = {plain}
    k = 0
    for parent, field, idx, node, parents in sites(tree):
        for new in variants(node, parents):
            new = new if isinstance(new, list) else [new]
            old = getattr(parent, field)
            if idx is None:
                if len(new) != 1:
                    continue
                setattr(parent, field, new[0])
            else:
                setattr(parent, field, old[:idx] + new + old[idx + 1 :])
            try:
                source = ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                source = plain
            setattr(parent, field, old)
            if source in seen:
                continue
            seen.add(source)
            k += 1
            yield k, getattr(node, "lineno", 0), source, plain


def diff_of(plain, source):
    return "\n".join(
        line
        for line in difflib.unified_diff(
            plain.splitlines(), source.splitlines(), lineterm="", n=2
        )
        if not line.startswith(("---", "+++"))
    )


def workdir():
    w = os.path.join(SCRATCH, "w-" + multiprocessing.current_process().name.split("-")[-1])
    if not os.path.exists(w):
        os.makedirs(w)
        shutil.copytree(
            os.path.join(REPO, "src"),
            os.path.join(w, "src"),
            ignore=shutil.ignore_patterns("__pycache__"),
        )
        shutil.copytree(os.path.join(REPO, "tests"), os.path.join(w, "tests"))
        shutil.copy(os.path.join(REPO, "pyproject.toml"), w)
    return w


def in_copy(m, command, env, timeout):
    w = workdir()
    target = os.path.join(w, m["file"])
    with open(target, "w") as fp:
        fp.write(m["source"])
    try:
        p = subprocess.run(
            [c.replace("@W", w) for c in command],
            cwd=w,
            env=dict(
                os.environ,
                PYTHONDONTWRITEBYTECODE="1",
                PYTHONHASHSEED="0",
                PYTHONUTF8="1",
                **{k: v.replace("@W", w) for k, v in env.items()},
            ),
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            text=True,
            errors="replace",
        )
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        shutil.copy(os.path.join(REPO, m["file"]), target)


def run_tests(m):
    rc, out = in_copy(
        m,
        [
            PYTHON, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60",
            "--ignore", "tests/test_scripts_basic.py",
            "tests",
        ],
        {"PYTHONPATH": "@W/src"},
        200,
    )  # fmt: skip
    return m, rc


def run_checks(args):
    m, scale, only = args
    rc, out = in_copy(
        m,
        [PYTHON, "-W", "ignore", os.path.abspath(__file__), "one", str(scale)] + only,
        {"VERIF_REPO": "@W"},
        1500,
    )
    return m, rc, out


def one(scale, only):
    """In a process: the first check that sees the change, with few cases of each."""
    sys.path.insert(0, VERIF)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import importlib
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    from lib import harness

    names = only or [f"C{i:02}" for i in range(1, 60)]
    names = [n for n in names if os.path.exists(os.path.join(VERIF, "checks", n.lower() + ".py"))]
    # The general ones first
    first = [n for n in ("C12", "C08", "C07", "C26", "C18") if n in names]
    for name in first + [n for n in names if n not in first]:
        try:
            mod = importlib.import_module("checks." + name.lower())
            r = harness.shard_(name, 0, max(20, int(mod.QUICK * scale)), 1, 600)
        except BaseException as ex:
            print(f"{name} crash {type(ex).__name__}: {ex}"[:300])
            continue
        if "crash" in r:
            print(name, "crash", r["crash"][-300:])
            continue
        if r["fail"]:
            print("SEEN", name)
            return 1
    return 0


def load(path):
    with open(path) as fp:
        return [json.loads(x) for x in fp]


def main(argv):
    if argv[0] == "one":
        return one(float(argv[1]), argv[2:])
    ctx = multiprocessing.get_context("fork")
    if argv[0] == "tests":
        todo = []
        for path in files():
            for k, line, source, plain in mutants(path):
                todo.append(
                    {
                        "id": f"{os.path.basename(path)}#{k}",
                        "file": path,
                        "line": line,
                        "source": source,
                        "diff": diff_of(plain, source),
                    }
                )
        print(len(todo), "mutants", flush=True)
        n = 0
        with open(argv[1], "w") as out, ctx.Pool(8) as pool:
            for m, rc in pool.imap_unordered(run_tests, todo):
                if rc == 0:
                    n += 1
                    out.write(json.dumps(m) + "\n")
                    out.flush()
        print(n, "not seen by the tests")
    elif argv[0] == "checks":
        scale = float(argv[3]) if len(argv) > 3 else 0.02
        todo = [(m, scale, argv[4:]) for m in load(argv[1])]
        n = 0
        with open(argv[2], "w") as out, ctx.Pool(8) as pool:
            for m, rc, text in pool.imap_unordered(run_checks, todo):
                seen = rc != 0
                n += seen
                print(m["id"], rc, text.strip().splitlines()[-1:], flush=True)
                if not seen:
                    out.write(json.dumps(m) + "\n")
                    out.flush()
        print(f"{n} of {len(todo)} seen")
    elif argv[0] == "show":
        for m in load(argv[1]):
            print("=====", m["id"], m["file"], m["line"])
            print(m["diff"])
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
