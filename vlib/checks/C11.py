"""Models do not interfere: what was said before stays said, and rejected calls change
nothing."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "A case is a generated program split in two: after the first half, moments of every "
    "process under every measure that knows it are recorded (of some freshly, of some "
    "after having been asked before). Then the second half runs (new processes, "
    "conditionings, exact or through inducing points, posterior copies, samples), mixed "
    "with calls that must be rejected: combining processes of different measures, "
    "multi-column or mismatching values, pseudo-points with non-diagonal noise, taken or "
    "unknown names, unattached processes, processes foreign to a measure, non-Boolean "
    "masks. All recorded moments must stay the same (to 1e-10), rejected calls must raise "
    "the documented type of error and leave processes, measures, and names as they were. "
    "All arrays that were given as inputs, noise, and values must stay the same. "
    "Non-trivial: at least one call was rejected and at least two moments were compared."
)
ASSUMPTIONS = []

BAD = [
    "add foreign",
    "sub foreign",
    "mul foreign",
    "cross foreign",
    "combine foreign",
    "logpdf foreign",
    "add posterior",
    "columns",
    "pseudo dense noise",
    "pseudo no noise",
    "taken name",
    "unknown name",
    "unattached",
    "foreign process",
    "foreign fdd",
    "mask",
    "tuples",
]


def strategy():
    lin = gen.ops_linear()
    cond = [
        gen.op_cond(max_pairs=2, hi=3, missing=True),
        gen.op_pseudo(max_pairs=1, hi=3),
    ]
    first = [(lin, 0, 2), ([gen.op_cross()], 0, 1), (cond, 0, 1)]
    second = lin[:-1] + cond * 3 + [gen.op_cross(), gen.op_mulgp(), gen.op_gp()]
    second = second + [gen.op_post()] * 2 + [gen.op_query()] * 2
    bad = gen.d(
        op=st.just("bad"),
        kind=st.sampled_from(BAD),
        p=gen.idx,
        q=gen.idx,
        m=st.integers(0, 3),
    )
    prog = gen.program(first, query=1, special=False)
    ex = gen.d(
        second=st.lists(gen.either(second + [bad] * 18), min_size=1, max_size=4),
        warm=st.booleans(),
    )
    return st.tuples(prog, ex).map(lambda t: dict(t[0], qs=[], **t[1]))


class Recording:
    """NumPy, remembering all arrays that were given to the code under test."""

    name = "numpy"

    def __init__(self):
        self.given = []

    def arr(self, x):
        import numpy as np

        a = np.array(x, dtype=float)
        self.given.append((a, a.copy()))
        return a


def check(ctx, case):
    import numpy as np

    from ..core import Skip, ok_cond, require, to_np
    from ..interp import S, World

    bk = Recording()
    w = World(ctx, d=case["d"], unique=case["unique"], bk=bk).run(case["ops"])
    x = {1: np.array([0.25, 1.0]), 2: np.array([[0.25, 0.5], [1.0, -0.75]])}
    x[3] = np.array([[0.25, 0.5, 1.0], [1.0, -0.75, 0.5]])
    # Another model.
    m2 = S.Measure()
    foreign = [S.GP(1, S.EQ(), measure=m2), S.GP(S.Matern32(), measure=m2)]
    # Names for some processes.
    for i, p in enumerate(w.P):
        if i % 2 == 0:
            p.gp.name = f"p{i}"

    def moments(m, p):
        k = m.m.kernels[p.gp]
        z = x[p.ref.need]
        return [to_np(m.m.means[p.gp](z)), to_np(k(z)), to_np(k.elwise(z))]

    def pairs():
        for m in list(w.M):
            for p in list(w.P):
                if m.ref in p.ref.measures:
                    yield m, p

    def crosses():
        P = [p for p in w.P if p.ref.need == w.P[0].ref.need]
        for m in list(w.M):
            a, b = P[0], P[-1]
            if m.ref in a.ref.measures and m.ref in b.ref.measures:
                z = x[a.ref.need]
                yield m, a, b, to_np(m.m.kernels[a.gp, b.gp](z))

    if not ok_cond(ctx):
        return
    if case["warm"]:
        for m, p in pairs():
            moments(m, p)
    recorded = [(m, p, moments(m, p)) for m, p in pairs()]
    recorded_cross = list(crosses())
    names = snapshot_names(w, m2)

    for op in case["second"]:
        if op["op"] == "bad":
            before = snapshot(w, m2)
            if bad(ctx, w, m2, foreign, op, x):
                after = snapshot(w, m2)
                require(before == after, f"Rejected call ({op['kind']}) changed the model.")
                ctx.label(f"rejected: {op['kind']}")
                if len(recorded) >= 2:
                    ctx.mark()
        else:
            try:
                w.run([op])
            except Skip:
                break
        membership(ctx, w)
    for m, p, before in recorded:
        for a, b in zip(before, moments(m, p)):
            ctx.compared += 1
            require(
                a.shape == b.shape
                and np.allclose(a, b, rtol=1e-10, atol=1e-12, equal_nan=True),
                f"Moments of process {w.P.index(p)} under measure {w.M.index(m)} changed:"
                f"\n{a}\n{b}",
            )
    for a, before in bk.given:
        ctx.compared += 1
        require(np.array_equal(a, before, equal_nan=True), f"{before} was changed to {a}.")
    ctx.label("arguments that stay the same", len(bk.given))
    for m, a, b, before in recorded_cross:
        after = to_np(m.m.kernels[a.gp, b.gp](x[a.ref.need]))
        require(
            np.allclose(before, after, rtol=1e-10, atol=1e-12), "Cross-covariance changed."
        )
    for key, val in snapshot_names(w, m2).items():
        if key in names:
            require(names[key] == val, "Names changed.")


def membership(ctx, w):
    """Every measure has exactly the processes that it should have."""
    from ..core import raises, require

    for m in w.M:
        ids = [id(p) for p in m.m.ps]
        require(len(set(ids)) == len(ids), "A process is listed repeatedly.")
        for p in w.P:
            ctx.compared += 1
            name = f"process {w.P.index(p)}, measure {w.M.index(m)}"
            if m.ref in p.ref.measures:
                require(id(p.gp) in ids, f"Missing {name}.")
            else:
                require(id(p.gp) not in ids, f"Unexpected {name}.")
                ctx.label("process outside of a measure")
                raises(RuntimeError, lambda: m.m.means[p.gp], f"mean, {name}")
                raises(RuntimeError, lambda: m.m.kernels[p.gp], f"kernel, {name}")


def snapshot_names(w, m2):
    res = {}
    for m in [m.m for m in w.M] + [m2]:
        for p in m.ps:
            try:
                name = m[p]
            except KeyError:
                name = None
            res[id(m), id(p)] = name
            if name is not None and m[name] is not p:
                from ..core import Violation

                raise Violation(f'Name "{name}" does not give its process.')
    return res


def snapshot(w, m2):
    """State of all measures and processes."""
    ms = [m.m for m in w.M] + [m2]
    res = [[id(p) for p in m.ps] for m in ms]
    res += [[id(m) for m in ms if p.gp in m.ps] for p in w.P]
    res += [id(p.gp.measure) for p in w.P]
    res.append(snapshot_names(w, m2))
    return res


def bad(ctx, w, m2, foreign, op, x):
    """A call that must be rejected. Returns `False` if it is not applicable."""
    import numpy as np

    from ..core import raises
    from ..interp import S, plain

    kind = op["kind"]
    m = w.meas(op["m"])
    p = w.pick(op["p"], lambda p: m.ref in p.ref.measures and plain(p))
    if p is None:
        return False
    z = x[p.ref.need]
    g = foreign[op["q"] % 2]
    f = p.gp
    y = np.array([1.0, 2.0])
    E = AssertionError
    if kind == "add foreign":
        raises(E, lambda: g + f if op["q"] % 3 else f + g, kind)
    elif kind == "sub foreign":
        # This makes `-g` first, which is a process of the other measure.
        ng = -g
        foreign_ps = len(m2.ps)
        raises(E, lambda: f + ng, kind)
        return foreign_ps == -1
    elif kind == "mul foreign":
        raises(E, lambda: f * g, kind)
    elif kind == "cross foreign":
        raises(E, lambda: S.cross(f, f, g), kind)
    elif kind == "combine foreign":
        raises(E, lambda: S.combine(f(z), g(z)), kind)
    elif kind == "logpdf foreign":
        raises(E, lambda: m.m.logpdf((f(z, 1), y), (g(z, 1), y)), kind)
    elif kind == "add posterior":
        copies = [q for q in w.P if q.ref.home is not p.ref.home and plain(q)]
        if not copies:
            return False
        raises(E, lambda: f + copies[op["q"] % len(copies)].gp, kind)
    elif kind == "columns":
        raises(ValueError, lambda: m.m | (f(z, 1), np.zeros((2, 2))), kind)
    elif kind == "pseudo dense noise":
        N = np.array([[1.0, 0.5], [0.5, 1.0]])
        cls = [S.PseudoObs, S.PseudoObsFITC, S.PseudoObsDTC][op["q"] % 3]
        obs = cls(f(z), f(z, N), y)
        raises(RuntimeError, lambda: obs.elbo(m.m), kind)
    elif kind == "pseudo no noise":
        obs = S.PseudoObs(f(z), f(z), y)
        raises(RuntimeError, lambda: obs.elbo(m.m), kind)
    elif kind == "taken name":
        taken = [q for q in w.P if _name(q.gp, m.m) and q.gp is not f]
        if not taken:
            return False
        name = _name(taken[0].gp, m.m)
        raises(RuntimeError, lambda: m.m.name(f, name), kind)
    elif kind == "unknown name":
        raises(KeyError, lambda: m.m["unknown"], kind)
    elif kind == "unattached":
        q = S.GP()
        raises(RuntimeError, lambda: q.measure, kind)
    elif kind == "foreign process":
        raises(RuntimeError, lambda: m.m.means[g], kind)
        raises(RuntimeError, lambda: m.m.kernels[g], kind)
        raises(RuntimeError, lambda: m.m.kernels[g, f], kind)
        raises(RuntimeError, lambda: m.m.kernels[f, g], kind)
    elif kind == "foreign fdd":
        raises(RuntimeError, lambda: m.m(g(z)), kind)
        raises(RuntimeError, lambda: m.m(g), kind)
        raises(RuntimeError, lambda: m.m.logpdf(g(z, 1), y), kind)
    elif kind == "mask":
        import lab as B

        raises(AssertionError, lambda: B.take(f(z), np.array([0])), kind)
    elif kind == "tuples":
        k = S.EQ()
        raises(ValueError, lambda: k.elwise((z, z), (z,)), kind)
    return True


def _name(p, m):
    try:
        return m[p]
    except KeyError:
        return None


PARTS = {
    "isolation": {"strategy": strategy, "check": check, "quick": 900, "thorough": 20000},
}
