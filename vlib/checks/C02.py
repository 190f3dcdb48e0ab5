"""Exact conditioning."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "A case is a generated program: 1-3 base GPs, 0-4 composing operations, one "
    "conditioning on 1-3 pairs (any process, 1-4 points, every form of noise, duplicates "
    "allowed, every spelling of the observations), then queries under the posterior of "
    "processes, compared with dense Gaussian conditioning of the reference; the "
    "posterior covariance must also be symmetric, positive semi-definite and at most the "
    "prior covariance. Non-trivial: the observations move the queried mean or variance "
    "by more than 1e-4 and the problem is well conditioned (< 1e7), so it was compared. "
    "Part `degenerate`: up to 24 data, also very close and repeated ones, with noise of "
    "variance at most 1e-10 or none, whose values are `m + K c`, with `K` their covariance and "
    "`c` given. Then the posterior mean of anything is `m_* + K_* c` up to the square root of "
    "the noise, variances must be finite, symmetric, positive semi-definite, at most those of "
    "the prior, and zero at the data. Non-trivial: the condition number exceeds 1e7."
)
ASSUMPTIONS = [
    "Cases whose data covariance has condition number above 1e7 are counted, not compared, "
    "but by part `degenerate`, where variances are at most 60, to an accuracy of 1e-5.",
    "Tolerance 1e-8 + 1e-12 times the condition number, at the scale of the prior.",
]


def strategy():
    return gen.program(
        [
            (gen.ops_linear(), 0, 4),
            ([gen.op_cond(m=0)], 1, 1),
        ]
    )


def moved(w, m, p, qs):
    """How much the posterior differs from its parent."""
    import numpy as np

    from ..query import specs

    _, fx, n = w.inputs(p, specs(qs)[0])
    if m.ref.parent is None or n == 0:
        return 0.0
    f, par = fx(m.ref), m.ref.parent
    a = np.abs(m.ref.mean(f) - par.mean(f)).max()
    b = np.abs(np.diag(m.ref.cov(f, f) - par.cov(f, f))).max()
    return max(a, b)


def check(ctx, case):
    from ..core import ok_cond
    from ..interp import World
    from ..query import check_pair, check_posterior_shape, process_pair

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    for qs in case["qs"]:
        m, p, q = process_pair(w, dict(qs, m=0), latest=True)
        if m.ref.parent is None:
            continue
        check_pair(ctx, w, m, p, q, qs)
        prior = all(w.M[0].ref in r.ref.measures for r in (p, q))
        if prior:
            check_posterior_shape(ctx, w, m, p, qs)
        if ok_cond(ctx) and moved(w, m, p, qs) > 1e-4:
            ctx.mark()
        # The prior is still what it was.
        if prior:
            check_pair(ctx, w, w.M[0], p, q, qs)


# ------------------------------------------------------------------------------
# Degenerate data: many close points, repetitions, and no noise.


def degenerate_strategy():
    stages = [(gen.ops_linear(zero_ok=False), 0, 3), ([gen.op_cross(nest=True)], 0, 1)]
    prog = gen.program(stages, query=1, special=False, delta=False)
    item = gen.d(
        p=gen.idx,
        x=gen.points(2, 8),
        h=st.sampled_from([1.0, 0.1, 0.01, 1e-3, 1e-5]),
        r=st.integers(0, 2),
        n=st.sampled_from([None, None, 0.0, 1e-12, 1e-10]),
    )
    ex = gen.d(
        items=st.lists(item, min_size=1, max_size=3),
        c=st.lists(st.integers(-8, 8), min_size=1, max_size=12),
        ask=st.lists(gen.d(p=gen.idx, x=gen.points(1, 4)), min_size=1, max_size=3),
        how=gen.how,
    )
    return st.tuples(prog, ex).map(lambda t: dict(t[0], qs=[], **t[1]))


def check_degenerate(ctx, case):
    """Data `y = m + K c`, with `K` the possibly singular covariance of the data. For noise
    of variance `e`, the posterior mean of anything differs from that of infinitely
    little noise, which is `m_* + K_* c`, by at most `sqrt(e k_**) |c|`."""
    import numpy as np

    from .. import ref
    from ..core import close, require, to_np
    from ..interp import World, wide, x_arg

    w = World(ctx, d=case["d"]).run(case["ops"])
    home, fdds, forms, e = None, [], [], 1e-12
    for it in case["items"]:
        p = w.pick(it["p"], lambda p: home is None or p.ref.home is home)
        home = p.ref.home
        X = wide(it["x"], p.ref.need) * it["h"] / 8
        fdds.append(p.gp(x_arg(X, it["r"], w.bk), it["n"]))
        forms.append(p.ref.form(w.M[0].ref, X))
        e = max(e, 1e-12 + (it["n"] or 0))
    m = w.M[0].ref
    F = ref.stack(forms)
    K = m.cov(F, F)
    if np.abs(K).max() > 60:
        ctx.label("large variances (not judged)")
        return
    c = np.resize(np.array(case["c"], float) / 8, len(K))
    y = m.mean(F) + K @ c
    if np.linalg.cond(K + 1e-300) > 1e7:
        ctx.label("condition number above 1e7")
        ctx.mark()
    pairs, i = [], 0
    for f, g in zip(fdds, forms):
        n = len(m.mean(g))
        pairs.append((f, y[i : i + n]))
        i += n
    real = w.real_obs(tuple(pairs), case["how"])
    post = w.M[0].m.condition(*real) if isinstance(real, tuple) else w.M[0].m | real
    asks = [(w.pick(a["p"]), a["x"]) for a in case["ask"]]
    asks = [(p, w.points(p, x)) for p, x in asks]
    locs = [(p.gp, x_arg(X, 2, w.bk), p.ref.form(m, X)) for p, X in asks]
    locs += [(f.p, f.x, g) for f, g in zip(fdds, forms)]
    for k, (gp, x, g) in enumerate(locs):
        prior = m.cov(g, g)
        s = max(1.0, float(np.sqrt(np.abs(np.diag(prior)).max())))
        tol = 10 * np.sqrt(e) * s * max(1.0, np.linalg.norm(c)) + 1e-5 * s
        want = m.mean(g)[:, None] + m.cov(g, F) @ c[:, None]
        close(ctx, "mean given degenerate data", post.means[gp](x), want, 0, tol)
        var = to_np(post.kernels[gp](x))
        tol = 1e-5 * s**2
        require(np.all(np.isfinite(var)), "The variance is not finite.")
        require(np.abs(var - var.T).max() <= tol, "The variance is not symmetric.")
        low = np.linalg.eigvalsh((var + var.T) / 2).min()
        require(low >= -tol, f"The variance has an eigenvalue {low}.")
        high = np.linalg.eigvalsh(prior - (var + var.T) / 2).min()
        require(high >= -tol, f"The variance exceeds the prior by {-high}.")
        if k >= len(asks):
            top = np.abs(var).max()
            require(top <= tol + 2 * e, f"Variance {top} at noiseless data.")
    prior = w.M[0].m.logpdf(*pairs)
    require(np.all(np.isfinite(to_np(prior))), "The log-probability is not finite.")


PARTS = {
    "degenerate": {
        "strategy": degenerate_strategy,
        "check": check_degenerate,
        "quick": 500,
        "thorough": 16000,
    },
    "condition": {"strategy": strategy, "check": check, "quick": 1400, "thorough": 40000},
}
