"""Cartesian products: multi-output processes."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "A case is a generated program with 1-3 Cartesian products (of 1-3 processes, also "
    "repeated ones, nested products, scaled products, and posterior copies), made before "
    "or after other processes and conditionings (with inputs shared by the outputs or "
    "given per output), and queries with inputs shared by the outputs or given per "
    "output. Sizes, means, covariances, cross-covariances with any other process in both "
    "orders, elementwise variances, marginals, joint laws with other processes, and "
    "`combine` are compared with the stacked reference. Non-trivial: a multi-output "
    "process with at least two outputs was queried and compared."
)
ASSUMPTIONS = [
    "Cases whose data covariance has condition number above 1e7 are counted, not compared.",
    "Sums of multi-output processes with other processes are not considered.",
]


def strategy():
    lin = gen.ops_linear()
    scale = gen.d(
        op=st.just("mul"), p=gen.idx, c=st.sampled_from([-1.0, 0.5, 2.0, 0.0]), how=gen.how
    )
    cr = [gen.op_cross(nest=True)]
    cond = [
        gen.op_cond(max_pairs=2, hi=3, parts=True),
        gen.op_pseudo(max_pairs=1, hi=3, parts=True),
    ]
    stages = [
        (lin, 0, 2),
        (cr, 1, 1),
        (cr * 5 + [scale] * 2 + lin + [gen.op_gp()], 0, 2),
        (cond, 0, 1),
        (cr * 2 + [scale] * 2 + lin + [gen.op_post()] * 6 + [gen.op_query()], 0, 2),
    ]
    prog = gen.program(stages, query=2, parts=True)
    # Some items to combine.
    ex = gen.d(
        items=st.lists(gen.obs_item(1, 3, True), min_size=1, max_size=3),
        y=gen.ys(),
    )
    return st.tuples(prog, ex).map(lambda t: dict(t[0], **t[1]))


def check(ctx, case):
    import numpy as np

    from ..core import close, ok_cond, require
    from ..interp import S, World
    from ..query import check_pair, prior_scale, process_pair, specs

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    for qs in case["qs"]:
        m, p, q = process_pair(w, qs, latest=True)
        # Prefer a multi-output process.
        p = w.pick(-1 - qs["p"], lambda p: m.ref in p.ref.measures and p.D > 1) or p
        if p is None:
            continue
        # Sizes.
        x, form, n = w.inputs(p, specs(qs)[0])
        k = m.m.kernels[p.gp]
        require(
            int(S.infer_size(k, x)) == n,
            f"infer_size is {S.infer_size(k, x)}, expected {n}.",
        )
        require(
            int(S.dimensionality(k)) == p.D,
            f"dimensionality is {S.dimensionality(k)}, expected {p.D}.",
        )
        check_elementwise(ctx, w, m, p, qs)
        if check_pair(ctx, w, m, p, q, qs) and p.D > 1 and n > 1:
            ctx.mark()
            if qs["t"] and p.comps:
                ctx.label("inputs given per output")

    # Combining.
    m = w.meas(-1 - case["qs"][0]["m"])
    obs = w.observe(m, case["items"], case["y"], lambda p: True)
    if obs is None or not ok_cond(ctx):
        return
    pairs, form, N, y, _ = obs
    f, yc = S.combine(*pairs)
    f2 = S.combine(*[f for f, _ in pairs])
    fr = form(m.ref)
    if not ok_cond(ctx):
        return
    s = prior_scale(m, [fr])
    close(ctx, "values of combine", yc, y[:, None])
    close(ctx, "noise of combine", f.noise, N)
    K = m.ref.cov(fr, fr)
    for g in (f, f2):
        close(ctx, "variance of combine", m.m(g).var, K + N, scale=s)
        close(ctx, "mean of combine", m.m(g).mean, m.ref.mean(fr)[:, None], scale=s)
        close(ctx, "var_diag of combine", m.m(g).var_diag, np.diag(K + N), scale=s)


def check_elementwise(ctx, w, m, p, qs):
    """Elementwise covariances between inputs that are given per output."""
    import numpy as np

    from .. import ref
    from ..core import close, ok_cond
    from ..interp import x_arg
    from ..query import prior_scale

    if not p.comps or not ok_cond(ctx):
        return
    if any("multi-output" in c.ref.tags for c in p.comps):
        # Elementwise covariances with such components are documented to be unclear.
        return
    how, n = qs["how"], len(p.comps)
    # Components to compare, possibly the same or swapped.
    left = [how % n, (how // 2) % n][: 1 + how % 2]
    right = [(how // 3) % n, (how + 1) % n][: len(left)]
    X, Y = w.points(p, qs["x"]), w.points(p, qs["x2"])
    if how % 3:
        # The same inputs, perhaps as the same object.
        Y = X
    k = min(len(X), len(Y))
    if k == 0:
        return
    x, y = x_arg(X[:k], 2, w.bk), x_arg(Y[:k], 2, w.bk)
    if how % 3 == 1:
        y = x
    a = tuple(p.comps[i].gp(x) for i in left)
    b = tuple(p.comps[i].gp(y) for i in right)
    f = ref.stack([p.comps[i].ref.form(m.ref, X[:k]) for i in left])
    g = ref.stack([p.comps[i].ref.form(m.ref, Y[:k]) for i in right])
    # `p` may be a posterior copy of, or otherwise different from, the stacked components.
    if not np.allclose(
        m.ref.cov(p.ref.form(m.ref, X), p.ref.form(m.ref, X)),
        m.ref.cov(*[ref.stack([c.ref.form(m.ref, X) for c in p.comps])] * 2),
    ):
        return
    want = np.diag(m.ref.cov(f, g))[:, None]
    kw = dict(scale=prior_scale(m, [f, g]))
    if len(a) == 1 and how % 4 < 2:
        a, b = a[0], b[0]
    ctx.label("elementwise between outputs")
    close(ctx, "elementwise between outputs", m.m.kernels[p.gp].elwise(a, b), want, **kw)
    K = m.ref.cov(f, g)
    close(ctx, "covariance between outputs", m.m.kernels[p.gp](a, b), K, **kw)


PARTS = {
    "multi-output": {
        "strategy": strategy,
        "check": check,
        "quick": 700,
        "thorough": 20000,
    },
}
