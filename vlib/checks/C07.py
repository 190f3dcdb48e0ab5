"""Attributes of finite-dimensional and normal distributions, asked for in any order."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "A case is a finite-dimensional distribution (any process of a generated program, "
    "under its prior or a posterior, exact or through inducing points, single- or "
    "multi-output, every form of noise) or a normal distribution (dense, diagonal, "
    "low-rank, constant variances; zero, plain, or structured means; given as values or "
    "as functions), and a sequence of 1-7 attributes and methods asked of the same "
    "object. Every answer must agree with the dense moments, whatever was asked before, "
    "and every shape must be as documented. Non-trivial: at least two different "
    "attributes were asked for and compared."
)
ASSUMPTIONS = [
    "Cases whose matrices have condition number above 1e7 are counted, not compared.",
    "Log-probability and entropy are compared only if the variance has condition number "
    "below 1e7.",
]

ACCESSORS = [
    "mean",
    "var",
    "var_diag",
    "mean_var",
    "marginals",
    "marginal_credible_bounds",
    "mean_is_zero",
    "dim",
    "dtype",
    "m2",
    "diagonalise",
    "str",
    "logpdf",
    "entropy",
    "sample",
    "kl",
]


def seq():
    return st.lists(st.sampled_from(ACCESSORS), min_size=1, max_size=7)


def fdd_strategy():
    lin = gen.ops_linear()
    stages = [
        (lin, 0, 3),
        ([gen.op_cross(nest=True)], 0, 1),
        ([gen.op_cond(max_pairs=2, hi=3), gen.op_pseudo(max_pairs=1, hi=3)], 0, 1),
        ([gen.op_post(), gen.op_post()], 0, 1),
    ]
    prog = gen.program(stages, query=1, parts=True)
    return st.tuples(prog, seq()).map(lambda t: dict(t[0], seq=t[1]))


def normal_strategy():
    return gen.d(
        n=st.integers(1, 5),
        mean=st.sampled_from(["none", "col", "zero", "int", "dense"]),
        var=st.sampled_from(["array", "dense", "diag", "lowrank", "const", "scaled eye"]),
        lazy=st.sampled_from([None, "plain", "all"]),
        v=st.lists(st.integers(1, 9), min_size=5, max_size=5),
        y=st.lists(st.integers(-8, 8), min_size=5, max_size=5),
        seq=seq(),
    )


def check_seq(ctx, names, f, mean, var, y, zero=None, scale=None, exact_zero=False):
    """`mean` as a vector, `var` as a matrix."""
    import numpy as np

    from .. import ref
    from ..core import close, require, to_np
    from ..interp import S, matrix

    n = len(mean)
    vd = np.diag(var)
    c = ref._cond(var)
    ok = c < 1e7
    kw = dict(scale=scale)
    # The density involves the inverse of the variance.
    tol = 1e-12 * c if ok else 0
    kd = dict(rtol=1e-8 + tol, atol=1e-9 + tol)

    def check(name, tag):
        if name == "mean":
            close(ctx, "mean" + tag, f.mean, mean[:, None], **kw)
        elif name == "var":
            close(ctx, "var" + tag, f.var, var, **kw)
            require(
                isinstance(f.var, matrix.AbstractMatrix),
                f"var{tag} is not a structured matrix, but {type(f.var)}.",
            )
        elif name == "var_diag":
            close(ctx, "var_diag" + tag, f.var_diag, vd, **kw)
        elif name == "mean_var":
            a, b = f.mean_var
            close(ctx, "mean of mean_var" + tag, a, mean[:, None], **kw)
            close(ctx, "var of mean_var" + tag, b, var, **kw)
        elif name == "marginals":
            a, b = f.marginals()
            close(ctx, "marginal mean" + tag, a, mean, **kw)
            close(ctx, "marginal variance" + tag, b, np.maximum(vd, 0), **kw)
            require(np.all(to_np(b) >= 0), f"Negative marginal variance{tag}.")
        elif name == "marginal_credible_bounds":
            a, lo, hi = f.marginal_credible_bounds()
            close(ctx, "mean of bounds" + tag, a, mean, **kw)
            e = 1.96 * np.sqrt(np.maximum(vd, 0))
            # The square root amplifies errors in tiny variances.
            big = vd > 1e-4 * max(1.0, scale or 0)
            for nm, b, w in (("lower", lo, mean - e), ("upper", hi, mean + e)):
                b = to_np(b)
                require(b.shape == (n,), f"Shape of {nm} bound{tag} is {b.shape}.")
                k = dict(kw, rtol=1e-6, atol=1e-6)
                close(ctx, f"{nm} bound{tag}", b[big], w[big], **k)
        elif name == "mean_is_zero":
            z = f.mean_is_zero
            require(z in (True, False), f"mean_is_zero{tag} is {z!r}.")
            if z:
                close(ctx, "mean, said to be zero," + tag, np.zeros(n), mean, **kw)
            elif exact_zero:
                require(False, f"mean_is_zero{tag} is False for a zero mean.")
        elif name == "dim":
            require(f.dim == n, f"dim{tag} is {f.dim}, expected {n}.")
        elif name == "dtype":
            require(f.dtype == np.dtype(float), f"dtype{tag} is {f.dtype}.")
        elif name == "m2":
            s = max(1.0, scale or 0) ** 2
            close(ctx, "m2" + tag, f.m2, var + np.outer(mean, mean), scale=s)
        elif name == "diagonalise":
            d = f.diagonalise()
            close(ctx, "mean of diagonalise" + tag, d.mean, mean[:, None], **kw)
            close(ctx, "var of diagonalise" + tag, d.var, np.diag(vd), **kw)
        elif name == "str":
            require(isinstance(str(f), str) and isinstance(repr(f), str), "str")
        elif name == "logpdf" and ok:
            w = ref.gauss_logpdf(var, y - mean)
            r = np.abs(np.linalg.solve(var, y - mean)) @ np.abs(y - mean)
            close(ctx, "logpdf" + tag, f.logpdf(y), w, scale=max(r, n), **kd)
        elif name == "entropy" and ok:
            w = 0.5 * (np.linalg.slogdet(var)[1] + n * (1 + np.log(2 * np.pi)))
            close(ctx, "entropy" + tag, f.entropy(), w, **kd)
        elif name == "sample" and ok:
            s = to_np(f.sample(2))
            require(s.shape == (n, 2), f"Shape of sample{tag} is {s.shape}.")
            require(np.all(np.isfinite(s)), f"Sample{tag} is not finite.")
        elif name == "kl" and ok:
            # Divergence from a standard normal.
            o = S.Normal(np.zeros((n, 1)), np.eye(n))
            w = 0.5 * (np.trace(var) + mean @ mean - n - np.linalg.slogdet(var)[1])
            s = max(1.0, scale or 0) ** 2 * n
            close(ctx, "kl" + tag, f.kl(o), w, scale=s, **kd)

    asked = []
    for name in names:
        before = ctx.compared
        check(name, f" (after {', '.join(asked) or 'nothing'})")
        if ctx.compared > before:
            asked.append(name)
    if len(set(asked)) >= 2:
        ctx.mark()
    # In the end, everything is as it should be.
    for name in ("mean", "var", "var_diag"):
        check(name, f" (finally, after {', '.join(asked) or 'nothing'})")


def check_fdd(ctx, case):
    import numpy as np

    from ..core import ok_cond
    from ..interp import B, World
    from ..query import prior_scale, process_pair, specs

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    B.set_global_random_state(B.create_random_state(np.float64, seed=0))
    for qs in case["qs"]:
        m, p, q = process_pair(w, qs, latest=True)
        spec = specs(qs)[0]
        noise = w.data_noise(qs["n"], m)
        f, form, N, n = w.fdd(p, spec, noise)
        if m.ref is not p.ref.home or qs["how"] % 2:
            f = m.m(f)
        fr = form(m.ref)
        if not ok_cond(ctx) or n == 0:
            continue
        mean, var = m.ref.mean(fr), m.ref.cov(fr, fr) + N
        y = mean + np.sqrt(np.abs(np.diag(var))) * (-1.0) ** np.arange(n)
        check_seq(ctx, case["seq"], f, mean, var, y, scale=prior_scale(m, [fr]))


def check_normal(ctx, case):
    import numpy as np

    from ..interp import B, S, matrix

    B.set_global_random_state(B.create_random_state(np.float64, seed=0))
    n = case["n"]
    v = np.array(case["v"][:n], float)
    u = (v - 4) / 4
    t = case["var"]
    if t in ("array", "dense"):
        K = np.diag(v / 2) + np.outer(u, u)
        var = matrix.Dense(K) if t == "dense" else K
    elif t == "diag":
        K = np.diag(v / 2)
        var = matrix.Diagonal(v / 2)
    elif t == "lowrank":
        K = np.diag(v / 2) + np.outer(u, u)
        var = matrix.Diagonal(v / 2) + matrix.LowRank(u[:, None])
    elif t == "const":
        K = np.full((n, n), v[0])
        var = matrix.Constant(v[0], n, n)
        K = K + np.diag(v)
        var = var + matrix.Diagonal(v)
    else:
        K = np.eye(n) * v[0]
        var = matrix.Diagonal(np.ones(n)) * v[0]
    mean = np.cos(np.arange(n) * v[::-1])
    t = case["mean"]
    zero = t in ("none", "zero", "int")
    if zero:
        mean = 0 * mean
    marg = {
        "none": None,
        "col": mean[:, None],
        "zero": matrix.Zero(float, n, 1),
        "int": 0,
        "dense": matrix.Dense(mean[:, None]),
    }[t]
    lazy = case["lazy"]
    if lazy is None:
        f = S.Normal(var) if t == "none" else S.Normal(marg, var)
    else:

        def fm():
            return marg

        def fv():
            return var

        kw = {}
        if lazy == "all":
            m0 = 0 if t == "none" else marg
            kw = dict(
                var_diag=lambda: np.diag(K).copy(),
                mean_var=lambda: (m0, var),
                mean_var_diag=lambda: (m0, np.diag(K).copy()),
            )
        f = S.Normal(fv, **kw) if t == "none" else S.Normal(fm, fv, **kw)
    ctx.label(f"mean {t}, var {case['var']}, {lazy}")
    y = np.array(case["y"][:n], float) / 4
    check_seq(ctx, case["seq"], f, mean, K, y, exact_zero=zero)


PARTS = {
    "fdd": {"strategy": fdd_strategy, "check": check_fdd, "quick": 1400, "thorough": 30000},
    "normal": {
        "strategy": normal_strategy,
        "check": check_normal,
        "quick": 2000,
        "thorough": 30000,
    },
}
