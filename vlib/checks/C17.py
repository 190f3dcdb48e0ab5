"""Products of processes."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "Part `program`: a case is a generated program with one to three products of two "
    "processes (independent, dependent, equal, with any mean, themselves products), made "
    "before or after linear operations, Cartesian products and conditioning. Moments of the "
    "products and covariances with everything else are compared with the closed-form moments "
    "of products of jointly Gaussian variables. Part `moments`: for two random affine "
    "combinations of base processes, moments are compared with expectations computed by "
    "Gauss--Hermite quadrature. Non-trivial: the product was compared, and its mean or "
    "variance is not zero."
)
ASSUMPTIONS = [
    "Products of products are judged as products of the moment-matched processes.",
]


def mulgp():
    return gen.d(op=st.just("mulgp"), p=gen.idx, q=gen.idx, nest=st.booleans())


def strategy():
    lin = gen.ops_linear()
    cond = gen.op_cond(max_pairs=2, hi=3).map(lambda o: dict(o, any=True))
    stages = [
        (lin, 0, 3),
        ([mulgp()], 1, 1),
        (lin + [mulgp()], 0, 2),
        ([cond], 0, 1),
        ([mulgp(), mulgp(), gen.op_post()] + lin[:6], 0, 3),
        ([gen.op_cross()], 0, 1),
        ([cond], 0, 1),
    ]
    return gen.program(stages, query=2, qhi=3)


def check(ctx, case):
    import numpy as np

    from ..core import ok_cond
    from ..interp import World
    from ..query import check_pair, process_pair

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    prods = [p for p in w.P if "product" in p.ref.tags]
    if not prods:
        return
    for i, qs in enumerate(case["qs"]):
        # Products as one of the processes.
        m = w.meas(-1 - qs["m"])
        ok = [p for p in prods if m.ref in p.ref.measures]
        if not ok:
            m, p, q = process_pair(w, qs)
        else:
            p = ok[(-1 - qs["p"]) % len(ok)]
            q = w.pick(-1 - qs["q"], lambda q: m.ref in q.ref.measures)
            if qs["how"] % 3 == 0:
                p, q = q, p
        if p is None or q is None:
            continue
        if check_pair(ctx, w, m, p, q, qs) and ok_cond(ctx) and ok:
            _, f, n = w.inputs(p, {"x": qs["x"], "r": 2})
            if np.max(np.abs(m.ref.mean(f(m.ref))), initial=0) > 1e-3:
                ctx.mark()


def moments_strategy():
    v = st.sampled_from([-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0])
    return gen.d(
        base=st.lists(gen.op_gp(special=False), min_size=1, max_size=3),
        A=st.lists(v, min_size=9, max_size=9),
        c=st.lists(v, min_size=3, max_size=3),
        x=gen.points(1, 2),
        y=gen.points(1, 2),
        post=st.booleans(),
        obs=st.lists(st.integers(-8, 8), min_size=4, max_size=4),
        how=gen.how,
    )


def check_moments(ctx, case):
    """`f * g` and its covariance with `h`, by quadrature over the joint law as stheno itself
    reports it for `f`, `g` and `h`."""
    import numpy as np

    from ..core import close, to_np
    from ..interp import S, World, grid

    w = World(ctx).run(case["base"])
    m = w.M[0].m
    A = np.reshape(case["A"], (3, 3))
    gps = []
    for a, c in zip(A, case["c"]):
        f = c + a[0] * w.P[0].gp
        for v, p in zip(a[1:], w.P[1:]):
            f = f + v * p.gp
        gps.append(f)
    f, g, h = gps
    how = case["how"]
    X, Y = grid(case["x"], 1), grid(case["y"], 1)
    o = np.array(case["obs"]) / 4
    if case["post"]:
        m = m | (w.P[0].gp(o[:2], 0.25), o[2:])
    k = how % 3
    fg = f * g if k == 0 else (f * f if k == 1 else g * f)
    if k == 1:
        g = f
    if m is not w.M[0].m and how % 2 == 0:
        # The product of the posteriors, in place of the posterior of the product.
        f, g, h = m(f), m(g), m(h)
        fg = f * g
    elif m is not w.M[0].m:
        # `fg` was built after conditioning: under the posterior, it is the product of the
        # processes under the posterior.
        pass
    both = S.combine(f(X), g(X), h(X), f(Y), g(Y), h(Y))
    d = m(both)
    mean, V = to_np(d.mean)[:, 0], to_np(d.var)
    n, k = len(X), len(Y)

    def at(i, j, side):
        """Index of the value of process `j` at point `i`."""
        return j * n + i if side == 0 else 3 * n + j * k + i

    # Quadrature, exact for polynomials of degree four.
    t, wt = np.polynomial.hermite_e.hermegauss(3)
    wt = wt / wt.sum()
    T = np.stack(np.meshgrid(t, t, t, t, indexing="ij"), -1).reshape(-1, 4)
    W = np.prod(np.stack(np.meshgrid(wt, wt, wt, wt, indexing="ij"), -1).reshape(-1, 4), -1)

    def joint(ids):
        e, Q = np.linalg.eigh(V[np.ix_(ids, ids)])
        R = Q * np.sqrt(np.maximum(e, 0))
        return mean[ids] + T[:, : len(ids)] @ R.T

    s = max(1.0, np.max(np.abs(V)), np.max(np.abs(mean)) ** 2) ** 2
    kw = dict(rtol=1e-7, atol=1e-7, scale=s)
    P = m(fg) if how % 4 < 2 else fg
    if P is fg:
        M, K = m.means[fg], m.kernels[fg]
    else:
        M, K = P.mean, P.kernel
    wantm = np.zeros((n, 1))
    wantK, wantC = np.zeros((n, k)), np.zeros((n, k))
    for i in range(n):
        for j in range(k):
            z = joint([at(i, 0, 0), at(i, 1, 0), at(j, 0, 1), at(j, 1, 1)])
            a, b = z[:, 0] * z[:, 1], z[:, 2] * z[:, 3]
            ma, mb = W @ a, W @ b
            wantm[i, 0] = ma
            wantK[i, j] = W @ ((a - ma) * (b - mb))
            z = joint([at(i, 0, 0), at(i, 1, 0), at(j, 2, 1)])
            a, b = z[:, 0] * z[:, 1], z[:, 2]
            wantC[i, j] = W @ ((a - W @ a) * (b - W @ b))
    close(ctx, "mean of the product", M(X), wantm, **kw)
    close(ctx, "covariance of the product", K(X, Y), wantK, **kw)
    close(ctx, "covariance with another process", m.kernels[fg, h](X, Y), wantC, **kw)
    close(ctx, "covariance, reversed", m.kernels[h, fg](Y, X), wantC.T, **kw)
    ctx.label("posterior" if case["post"] else "prior")
    if np.max(np.abs(wantK)) > 1e-3:
        ctx.mark()


PARTS = {
    "program": {"strategy": strategy, "check": check, "quick": 260, "thorough": 14000},
    "moments": {
        "strategy": moments_strategy,
        "check": check_moments,
        "quick": 600,
        "thorough": 14000,
    },
}
