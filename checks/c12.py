"""Histories of executions over the contexts reached so far."""

from lib import diff, gen, lang, real, ref
from lib.common import PROFILES
from lib.diff import expect, plain

ID = "C12"
RULE = (
    "a case is a program and a history of executions, each from one of the contexts"
    " reached so far; it is trivial when no context is executed twice"
)
QUICK = 4000
THOROUGH = 80_000
LIMIT = 250  # steps in a history

STMTS = {
    "set": 4, "cset": 3, "inc": 2, "note": 3, "decide": 3, "if": 3, "for": 4, "forin": 2, "while": 3,
    "selectone": 4, "selectmany": 4, "break": 2, "continue": 1, "exec": 3, "kw": 6,
    "ini": 3, "req": 2, "call": 2, "cancel": 1, "return": 1,
}  # fmt: skip


def build(s):
    # Of each: from where (from the last ones or from all), how far, which choices
    ops = [[0, s.below(256), s.pick([5, 20, 60, 60])]]
    for _ in range(s.between(1, 8)):
        ops.append([s.below(256), s.below(256), s.pick([1, 1, 2, 3, 5, 8, 20, 60])])
    sweep = s.pick([[1, 0], [-1, 0], [1, 1], [-1, 2], [2, 0], [3, 1]])
    dec = [s.below(34) for _ in range(s.between(1, 6))]
    g = gen.Gen(s, stmts=STMTS, depth=1, effects=15, fault=s.pick([0, 0, 0, 1]))
    return {
        "prog": g.program(1, 5, s.pick([1, 2, 2, 3])),
        "ops": ops,
        "sweep": sweep,
        "dec": dec,
        "sev": s.pick([{}, {}, {"USAGE_OF_NOTSET_VARIABLES": "ERROR"}]),
    }


def case():
    return gen.cases(build, 220)


def look(ctx):
    """What can be seen of a context."""
    res = [type(ctx).__name__, real.norm_state(ctx.state)]
    if real.is_ask(ctx):
        res.append(ctx.description)
        res.append([real.norm_option(o) for o in ctx.options])
        ds = [ctx.default] if hasattr(ctx, "default") else list(ctx.defaults)
        res.append([real.norm_option(o) for o in ds])
    elif isinstance(ctx, real.WizardTerminationContext):
        res.append([ctx.is_cancel(), ctx.is_return(), ctx.is_complete(), ctx.message()])
    elif type(ctx).__name__ == "WizardRequireVersionsContext":
        res.append(
            [
                real.norm_value(v)
                for v in (
                    ctx.game_version,
                    ctx.script_extender_version,
                    ctx.graphics_extender_version,
                    ctx.wrye_bash_version,
                )
            ]
        )
    return res


class Node:
    def __init__(self, ctx, seen, path):
        self.ctx = ctx
        self.seen = seen
        self.path = path  # choices made until there
        self.next = {}  # by choice: what happens, first context obtained
        self.execs = 0


def run(c):
    files = PROFILES["std"]
    text = lang.render(c["prog"])
    r = real.make_runner(files, ref.Handler(), c["sev"])
    top = r.make_top_level_context(text)
    nodes = [Node(top, look(top), [])]
    steps = 0
    labels = set()
    ends = []
    last = nodes[0]

    def advance(node, choice):
        """
        Execute the context of a node, returns the new node or None. A select is left with
        its default options when the choice is None.
        """
        ask = real.is_ask(node.ctx)
        d = None
        if ask and choice is None:
            d = real.default_decision(node.ctx)
            labels.add("unanswered")
        elif ask:
            d = c["dec"][(choice + len(node.path)) % len(c["dec"])]
        r.the_events = []
        error = None
        ctx = None
        try:
            if choice is None:
                ctx = real.execute(node.ctx)
            else:
                ctx = real.step(node.ctx, d)
            what = [r.the_events, look(ctx)]
        except Exception as ex:
            error = ex
            what = [r.the_events, [real.error_kind(ex), real.error_pos(ex), str(ex)]]
        what = plain(what)
        node.execs += 1
        if node.execs > 1:
            labels.add("again " + type(node.ctx).__name__)
        if d in node.next:
            expect(
                f"same execution again of {type(node.ctx).__name__}",
                node.next[d],
                what,
                text,
            )
        elif node.next:
            labels.add("another choice")
        node.next.setdefault(d, what)
        if error is not None:
            labels.add("error")
            ends.append((node.path, "ERROR", node.seen[1]))
            return None
        new = Node(ctx, look(ctx), node.path + ([d] if ask else []))
        if isinstance(ctx, real.WizardTerminationContext):
            status = (
                "CANCEL"
                if ctx.is_cancel()
                else "RETURN"
                if ctx.is_return()
                else "COMPLETE"
            )
            ends.append((new.path, status, new.seen[1]))
        return new

    def follow(node, choice):
        """What comes after a select, with the default options of the next ones."""
        seen = []
        for _ in range(40):
            node = advance(node, choice)
            if node is None:
                return seen + ["error"]
            seen.append(plain(node.seen))
            if isinstance(node.ctx, real.WizardTerminationContext):
                break
            choice = None if real.is_ask(node.ctx) else 0
        return seen

    for where, choice, count in c["ops"]:
        if where < 40:
            node = last
        elif where < 120:
            node = nodes[-1 - (where - 40) % min(len(nodes), 8)]
        else:
            node = nodes[where % len(nodes)]
        for _ in range(count):
            if isinstance(node.ctx, real.WizardTerminationContext):
                break
            steps += 1
            if steps > LIMIT:
                break
            node = advance(node, choice)
            if node is None:
                break
            nodes.append(node)
            last = node
    # All of them again, in another order
    stride, choice = c["sweep"]
    asked = 0
    for node in nodes[::stride][:150]:
        if not isinstance(node.ctx, real.WizardTerminationContext):
            advance(node, choice)
        if real.is_ask(node.ctx) and asked < 8:
            # Other answers, with what comes after them
            asked += 1
            a = follow(node, None)
            b = follow(node, choice)
            follow(node, choice + 1)
            expect("what follows default options", a, follow(node, None), text)
            expect("what follows a choice", b, follow(node, choice), text)
    # Nothing of the previous contexts has changed
    for i, node in enumerate(nodes):
        expect(f"context {i} at the end of the history", plain(node.seen), plain(look(node.ctx)), text)
    # Whatever was executed before, the end is the one of a run with the same choices
    first = {}
    for path, status, state in ends:
        end = plain([status, state])
        expect("end with the same choices", first.setdefault(tuple(path), end), end, f"{text}\nchoices: {path}")
    done = set()
    for path, status, state in ends[::-1]:
        # The last ones first
        if tuple(path) in done or len(done) >= 6:
            continue
        done.add(tuple(path))
        outcome, _ = ref.run(
            c["prog"], files, c["sev"], fuel=3000, handler=ref.Handler(path)
        )
        where = f"{text}\nchoices: {path}"
        expect("status", outcome["status"], status, where)
        expect("state", plain(outcome["state"]), plain(state), where)
        labels.add("ends")
    if len(done) > 1:
        labels.add("several ends")
    if not any(n.execs > 1 for n in nodes):
        labels.add("trivial")
    return sorted(labels)


def show(c):
    return f"{c['ops']} {c['dec']}\n" + lang.render(c["prog"])
