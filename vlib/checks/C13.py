"""The measure that processes are attached to: `with` blocks and explicit measures."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "A case is a random tree of nested `with measure:` blocks (up to depth 5, four "
    "measures one of which is a posterior, also re-entering a measure that is already "
    "entered), in which processes are constructed with and without an explicit measure, "
    "processes of other measures are combined and conditioned, and exceptions are raised "
    "that unwind one or more blocks. After every step the measure of every process and "
    "the default measure are compared with a stack model. Non-trivial: blocks nest at "
    "least two deep and a process was constructed after a block was left."
)
ASSUMPTIONS = ["Blocks are entered and left in a properly nested fashion by one thread."]


def strategy():
    d, j, i = gen.d, st.just, gen.idx
    leaf = gen.either(
        [
            d(op=j("gp")),
            d(op=j("gp")),
            d(op=j("gp")),
            d(op=j("explicit"), m=i),
            d(op=j("derive"), p=i, how=i),
            d(op=j("cond"), p=i),
            d(op=j("raise"), levels=st.integers(1, 3)),
        ]
    )

    def node(children):
        return d(
            op=j("with"),
            m=i,
            body=st.lists(children, min_size=0, max_size=4),
        )

    tree = st.recursive(leaf, lambda c: gen.either([leaf, node(c), node(c)]), max_leaves=14)
    block = node(tree)
    return d(body=st.lists(gen.either([tree, block]), min_size=2, max_size=5))


class Unwind(Exception):
    def __init__(self, levels):
        self.levels = levels


def check(ctx, case):
    import numpy as np

    from ..core import require
    from ..interp import S

    base = S.Measure()
    f0 = S.GP(S.EQ(), measure=base)
    x = np.array([0.0, 1.0])
    ms = [base, S.Measure(), S.Measure(), base | (f0(x, 1), np.array([1.0, 2.0]))]
    P = [f0]
    stack = []
    state = {"left": 0, "deep": 0}

    def expect_default():
        want = stack[-1] if stack else None
        require(
            S.Measure.default is want,
            f"Default measure is {S.Measure.default!r} at depth {len(stack)}.",
        )
        ctx.compared += 1

    def new(p, want, what):
        require(p.measure is want, f"{what} is attached to the wrong measure.")
        require(any(q is p for q in want.ps), f"{what} is not a process of its measure.")
        others = [m for m in ms if m is not want and any(q is p for q in m.ps)]
        require(not others, f"{what} is a process of another measure, too.")
        P.append(p)

    def run(op):
        kind = op["op"]
        if kind == "with":
            m = ms[op["m"] % len(ms)]
            if m in stack:
                ctx.label("re-entered")
            ctx.label(f"depth {len(stack) + 1}")
            state["deep"] = max(state["deep"], len(stack) + 1)
            n = len(stack)
            try:
                with m as entered:
                    require(entered is m, "Entering a measure does not give the measure.")
                    stack.append(m)
                    expect_default()
                    for o in op["body"]:
                        run(o)
            except Unwind as e:
                del stack[n:]
                state["left"] += 1
                expect_default()
                ctx.label("left by an exception")
                if e.levels > 1 and n > 0:
                    e.levels -= 1
                    raise
            else:
                del stack[n:]
                state["left"] += 1
        elif kind == "gp":
            p = S.GP(S.EQ()) if len(P) % 2 else S.GP(1, S.EQ())
            if stack:
                new(p, stack[-1], "A process")
            else:
                # It must get a measure of its own.
                require(
                    all(p.measure is not m for m in ms)
                    and all(p.measure is not q.measure for q in P),
                    "A process outside of any block shares its measure.",
                )
                require(p.measure.ps == [p], "A process outside of any block is not alone.")
                P.append(p)
            if state["left"] and state["deep"] >= 2:
                ctx.mark()
        elif kind == "explicit":
            m = ms[op["m"] % len(ms)]
            new(S.GP(S.EQ(), measure=m), m, "A process with an explicit measure")
        elif kind == "derive":
            p = P[op["p"] % len(P)]
            h = op["how"] % 5
            q = [
                lambda: p + 1,
                lambda: 2 * p,
                lambda: p + p,
                lambda: S.cross(p, p.shift(1)),
                lambda: p.measure(p),
            ][h]()
            require(q.measure is p.measure, "A derived process changed measure.")
        elif kind == "cond":
            p = P[op["p"] % len(P)]
            q = p | (p(x, 1), np.array([1.0, 2.0]))
            require(
                q.measure is not p.measure and q.measure not in ms,
                "A posterior process is attached to the wrong measure.",
            )
        elif kind == "raise":
            raise Unwind(op["levels"])
        expect_default()

    try:
        require(S.Measure.default is None, "There is a default measure initially.")
        for op in case["body"]:
            try:
                run(op)
            except Unwind:
                pass
            expect_default()
    finally:
        # Do not let one case influence the next.
        S.Measure.default = None


PARTS = {"blocks": {"strategy": strategy, "check": check, "quick": 3000, "thorough": 60000}}
