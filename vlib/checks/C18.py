"""Derivatives of processes."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "Part `exact`: a case is a generated program over smooth base GPs with one to three "
    "derivatives (any dimension, also of derivatives), taken before and after composing "
    "operations and conditioning on values and on derivatives, also with inducing points, "
    "run with TensorFlow. Means and (cross-)covariances are compared with a reference in "
    "which a derivative is a tenth-order finite difference of the linear form. Part "
    "`approx`: `diff_approx` of all orders, with NumPy, against the same reference. "
    "Non-trivial: a derivative was compared, and its covariance is not zero."
)
ASSUMPTIONS = [
    "Exact derivatives are only available with TensorFlow.",
    "Kernels are smooth and of full rank, and length scales at least one, for the reference to be accurate: "
    "tolerance 1e-4, condition number below 1e3.",
    "`diff_approx` must be within 1e-3 of the derivative for the first, and 1e-2 for the "
    "second derivative.",
    "Derivatives of Cartesian products are not available.",
]

MAX_COND = 1e3


def smooth_gp():
    a = gen.d(
        k=st.sampled_from(["EQ", "EQ", "EQ", "RQ"]),
        v=st.sampled_from([0.5, 1.0, 2.0]),
        l=st.sampled_from([None, 1.5, 2.0]),
        p=st.sampled_from([None, None, None, None, 8.0]),
    )
    return gen.d(
        op=st.just("gp"),
        mean=gen.mean(),
        kern=st.lists(a, min_size=1, max_size=2),
        m=st.just(0),
        how=gen.how,
        dim=st.sampled_from([1, 2, 2]),
    )


def diff():
    return gen.d(op=st.just("diff"), p=gen.idx, dim=st.integers(0, 1), how=gen.how)


def linear():
    lin = gen.ops_linear()[:-1]

    def tame(op):
        if op["op"] == "stretch":
            return dict(op, c=max(op["c"], 1.0), how=0)
        if op["op"] == "transform":
            f = op["f"] if op["f"] in ("neg", "inc", "sinx") else "inc"
            return dict(op, f=f)
        return op

    return [o.map(tame) for o in lin]


@st.composite
def program(draw, stages, qhi=3):
    dim = draw(st.sampled_from([1, 1, 2]))
    ops = draw(st.lists(smooth_gp(), min_size=1, max_size=2))
    for tail, lo, hi in stages:
        ops = ops + draw(st.lists(gen.either(tail), min_size=lo, max_size=hi))
    qs = gen.d(
        m=st.integers(0, 3),
        p=gen.idx,
        q=gen.idx,
        **gen.loc(1, qhi),
        x2=gen.points(1, 2),
        r2=st.integers(0, 2),
        t2=st.just(None),
        n=gen.noise(gen.NOISES),
        how=gen.how,
    )
    return {"d": dim, "ops": ops, "qs": draw(st.lists(qs, min_size=1, max_size=2))}


def strategy():
    lin = linear()
    noises = ("scal", "scal", "vec", "mat", "diag", "dense")
    cond = gen.op_cond(max_pairs=2, hi=3, noises=noises)
    stages = [
        (lin, 0, 2),
        ([diff()], 1, 1),
        (lin + [diff()], 0, 2),
        ([cond, cond, gen.op_pseudo(max_pairs=1, hi=4)], 0, 1),
        ([diff(), gen.op_post()] + lin[:3], 0, 2),
        ([gen.op_cross()], 0, 1),
    ]
    return program(stages)


def approx_strategy():
    lin = linear()
    a = gen.d(
        op=st.just("approx"),
        p=gen.idx,
        deriv=st.sampled_from([1, 1, 2]),
        order=st.sampled_from([None, 3, 4, 5, 6, 7]),
        how=gen.how,
    )
    noises = ("scal", "vec", "mat", "diag", "dense")
    cond = gen.op_cond(max_pairs=1, hi=3, noises=noises)
    # No conditioning on approximations of derivatives: their errors would be amplified.
    stages = [(lin, 0, 3), ([cond], 0, 1), ([a], 1, 1), (lin[:4] + [a], 0, 1)]
    return program(stages).map(lambda c: dict(c, d=1))


def derivative(form, dim):
    """Tenth-order central difference of a linear form."""
    import numpy as np

    h = 0.05
    c = np.array([5 / 6, -5 / 21, 5 / 84, -5 / 504, 1 / 1260]) / h

    def df(X):
        e = np.zeros(X.shape[1])
        e[dim] = h
        out = None
        for k, ck in enumerate(c):
            for s in (1, -1):
                f = form(X + s * (k + 1) * e).scale(s * ck)
                out = f if out is None else out + f
        return merge(out)

    return df


def merge(f):
    """Merge terms with the same base and points."""
    import numpy as np

    from .. import ref

    terms = {}
    for w, b, p in f.terms:
        k = (id(b), np.round(p, 9).tobytes())
        if k in terms:
            terms[k] = (terms[k][0] + w, b, p)
        else:
            terms[k] = (w, b, p)
    return ref.Form(f.const, list(terms.values()))


def world(ctx, case, bk):
    from .. import ref
    from ..interp import World, plain

    class W(World):
        def op_diff(self, op):
            # Up to second derivatives. To keep nested derivatives away from coinciding
            # inputs, MLKernels moves the right inputs a bit. For derivatives of posteriors
            # of derivatives this moves both, with NaNs as the result.
            most = 1 if len(self.M) > 1 else 2
            p = self.pick(op["p"], lambda p: plain(p) and order(p) < most)
            if p is None:
                return False
            dim = op["dim"] % p.ref.need
            gp = p.gp.diff() if dim == 0 and op["how"] % 2 else p.gp.diff(dim)
            r = ref.unary(p.ref, lambda f, m: derivative(f, dim))
            r.tags |= {f"d{order(p) + 1}"}
            self.new(gp, r)

        def op_approx(self, op):
            p = self.pick(op["p"], lambda p: plain(p) and not order(p))
            if p is None:
                return False
            kw = {} if op["order"] is None else {"order": op["order"]}
            if op["deriv"] == 1 and op["how"] % 2:
                gp = p.gp.diff_approx(**kw)
            else:
                gp = p.gp.diff_approx(op["deriv"], **kw)
            r = ref.unary(p.ref, lambda f, m: derivative(f, 0))
            if op["deriv"] == 2:
                r = ref.unary(r, lambda f, m: derivative(f, 0))
            r.tags |= {f"d{op['deriv']}"}
            self.new(gp, r)

    return W(ctx, d=case["d"], bk=bk).run(case["ops"])


def order(p):
    return 2 if "d2" in p.ref.tags else (1 if "d1" in p.ref.tags else 0)


def run(ctx, case, bk, tols):
    import numpy as np

    from ..query import check_pair

    w = world(ctx, case, bk)
    if ctx.cond > MAX_COND:
        ctx.label("ill-conditioned (not compared)")
        return
    for qs in case["qs"]:
        m = w.meas(-1 - qs["m"])
        known = lambda p: m.ref in p.ref.measures  # noqa: E731
        p = w.pick(-1 - qs["p"], lambda p: known(p) and order(p) > 0)
        q = w.pick(-1 - qs["q"], known)
        if p is None or q is None:
            continue
        if qs["how"] % 3 == 0:
            p, q = q, p
        t = max(tols[order(p)], tols[order(q)])
        if check_pair(ctx, w, m, p, q, qs, rtol=t, atol=t):
            ctx.label(f"orders {order(p)}, {order(q)}")
            _, f, n = w.inputs(p, {"x": qs["x"], "r": 2})
            if n and np.max(np.abs(m.ref.cov(f(m.ref), f(m.ref)))) > 1e-3:
                ctx.mark()


def check(ctx, case):
    from .. import backends

    run(ctx, case, backends.get("tensorflow"), [1e-4, 1e-4, 1e-4])


def check_approx(ctx, case):
    from ..interp import NumPy

    run(ctx, case, NumPy, [1e-4, 1e-3, 1e-2])


PARTS = {
    "exact": {"strategy": strategy, "check": check, "quick": 240, "thorough": 6000},
    "approx": {
        "strategy": approx_strategy,
        "check": check_approx,
        "quick": 120,
        "thorough": 4000,
    },
}
