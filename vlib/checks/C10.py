"""Normal distributions: arithmetic, densities, and divergences."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "Part algebra: two generated normal distributions (dense, diagonal, low-rank plus "
    "diagonal, constant plus diagonal, array variances; zero, plain, structured means) "
    "and a sequence of 1-5 operations (sums, differences, scaling by numbers of either "
    "side, matrix products of either side, casts), after which the moments must equal "
    "those of dense arithmetic. Part divergences: pairs of such distributions, for which "
    "the KL divergence, 2-Wasserstein distance, entropy, log-density of several columns "
    "must equal dense formulas, be non-negative and zero for equal distributions, "
    "symmetric where they should, and invariant under common affine maps. Non-trivial: "
    "algebra with at least two operations; divergences between distributions that differ."
)
ASSUMPTIONS = ["Variances have condition number below 1e5 by construction."]

VARS = ["array", "dense", "diag", "lowrank", "const", "eye"]
MEANS = ["none", "col", "zero", "int", "dense", "one"]


def normal():
    return gen.d(
        mean=st.sampled_from(MEANS),
        var=st.sampled_from(VARS),
        v=st.lists(st.integers(1, 9), min_size=4, max_size=4),
        u=st.lists(st.integers(-6, 6), min_size=8, max_size=8),
    )


def algebra_strategy():
    op = gen.d(
        op=st.sampled_from(
            [
                "+c",
                "c+",
                "-c",
                "c-",
                "+col",
                "col+",
                "+normal",
                "normal+",
                "-normal",
                "normal-",
                "*c",
                "c*",
                "/c",
                "neg",
                "lmatmul",
                "rmatmul",
                "f32",
            ]
        ),
        c=st.sampled_from([-2.0, -0.5, 0.5, 1.0, 3]),
        u=st.lists(st.integers(-4, 4), min_size=12, max_size=12),
        k=st.integers(1, 4),
        np=st.booleans(),
    )
    return gen.d(
        n=st.integers(1, 4),
        a=normal(),
        b=normal(),
        ops=st.lists(op, min_size=1, max_size=5),
        lazy=st.booleans(),
    )


def div_strategy():
    return gen.d(
        n=st.integers(1, 4),
        a=normal(),
        b=normal(),
        y=st.lists(st.integers(-8, 8), min_size=12, max_size=12),
        cols=st.integers(1, 3),
        lazy=st.booleans(),
    )


def build(spec, n, lazy=False):
    import numpy as np

    from ..interp import S, matrix

    v = np.array(spec["v"][:n], float) / 3
    u = np.array(spec["u"][:n], float) / 4
    t = spec["var"]
    if t in ("array", "dense"):
        u2 = np.array(spec["u"][4 : 4 + n], float) / 5
        K = np.diag(v) + np.outer(u, u) + np.outer(u2, u2)
        var = matrix.Dense(K) if t == "dense" else K
    elif t == "diag":
        K, var = np.diag(v), matrix.Diagonal(v)
    elif t == "lowrank":
        if not np.any(u):
            u = u + 1.0
        K = np.diag(v) + np.outer(u, u)
        var = matrix.Diagonal(v) + matrix.LowRank(u[:, None])
    elif t == "const":
        K = np.diag(v) + 0.5
        var = matrix.Diagonal(v) + matrix.Constant(0.5, n, n)
    else:
        K, var = np.eye(n) * v[0], v[0] * matrix.Diagonal(np.ones(n))
    m = np.array(spec["u"][2 : 2 + n], float) / 3
    t = spec["mean"]
    if t in ("none", "zero", "int"):
        m = 0 * m
    if t == "one":
        m = np.full(n, 1.5)
    arg = {
        "none": 0,
        "col": m[:, None],
        "zero": matrix.Zero(float, n, 1),
        "int": 0,
        "dense": matrix.Dense(m[:, None]),
        "one": matrix.Constant(1.5, n, 1),
    }[t]
    if lazy:
        d = S.Normal(lambda: var) if t == "none" else S.Normal(lambda: arg, lambda: var)
    else:
        d = S.Normal(var) if t == "none" else S.Normal(arg, var)
    return d, m, K


def check_algebra(ctx, case):
    import numpy as np

    from ..core import close
    from ..interp import B

    n = case["n"]
    d, m, K = build(case["a"], n, case["lazy"])
    names = []
    tol = {}
    for op in case["ops"]:
        c, name = op["c"], op["op"]
        cc = np.float64(c) if op["np"] else c
        k = op["k"]
        n = len(m)
        if name == "+c":
            d, m = d + cc, m + c
        elif name == "c+":
            d, m = cc + d, m + c
        elif name == "-c":
            d, m = d - cc, m - c
        elif name == "c-":
            d, m = cc - d, c - m
        elif name in ("+col", "col+"):
            u = np.array(op["u"][:n], float)
            d = d + u[:, None] if name == "+col" else u[:, None] + d
            m = m + u
        elif "normal" in name:
            b = dict(case["b"])
            e, me, Ke = build(b, n)
            if name == "+normal":
                d, m = d + e, m + me
            elif name == "normal+":
                d, m = e + d, m + me
            elif name == "-normal":
                d, m = d - e, m - me
            else:
                d, m = e - d, me - m
            K = K + Ke
        elif name in ("*c", "c*", "/c"):
            if name == "/c":
                d, c = d / cc, 1 / c
            else:
                d = d * cc if name == "*c" else cc * d
            m, K = m * c, K * c**2
        elif name == "neg":
            d, m = -d, -m
        elif name in ("lmatmul", "rmatmul"):
            A = np.resize(np.array(op["u"], float) / 2, (k, n))
            if name == "lmatmul":
                d = d.lmatmul(A)
            else:
                d = d.rmatmul(np.ascontiguousarray(A.T))
            m, K = A @ m, A @ K @ A.T
        elif name == "f32":
            d = B.cast(np.float32, d)
            if d.dtype != np.float32:
                from ..core import Violation

                raise Violation(f"dtype after cast is {d.dtype}.")
            tol = dict(rtol=1e-4, atol=1e-4)
        names.append(name)
    what = " after " + ", ".join(names)
    s = max(1.0, np.max(np.abs(m), initial=0), np.max(np.abs(K), initial=0))
    if tol:
        tol["scale"] = s * 10
    close(ctx, "mean" + what, d.mean, m[:, None], **tol)
    close(ctx, "var" + what, d.var, K, **tol)
    close(ctx, "marginal variances" + what, d.marginals()[1], np.diag(K), **tol)
    if len(names) >= 2:
        ctx.mark()
    # The operands are as they were.
    d, m, K = build(case["a"], case["n"], case["lazy"])
    e = d + 1
    e = -(e * 2)
    close(ctx, "mean of operand", d.mean, m[:, None])
    close(ctx, "var of operand", d.var, K)


def check_div(ctx, case):
    import numpy as np

    from .. import ref
    from ..core import close, require, to_np

    n = case["n"]
    a, ma, Ka = build(case["a"], n, case["lazy"])
    b, mb, Kb = build(case["b"], n)
    if case["a"] != case["b"]:
        ctx.mark()
    ctx.label(f"{case['a']['var']} and {case['b']['var']}")

    def kl(ma, Ka, mb, Kb):
        r = mb - ma
        x = np.trace(np.linalg.solve(Kb, Ka)) + r @ np.linalg.solve(Kb, r) - n
        return 0.5 * (x + np.linalg.slogdet(Kb)[1] - np.linalg.slogdet(Ka)[1])

    def root(K):
        w, V = np.linalg.eigh(K)
        return (V * np.sqrt(np.maximum(w, 0))) @ V.T

    def w22(ma, Ka, mb, Kb):
        R = root(Ka)
        x = np.trace(Ka) + np.trace(Kb) - 2 * np.trace(root(R @ Kb @ R))
        return max(x + np.sum((ma - mb) ** 2), 0)

    def w2(what, got, want2):
        got = float(to_np(got))
        require(got >= 0, f"{what} is {got}.")
        # Compare the squares: the square root amplifies errors at zero.
        s = np.trace(Ka) + np.trace(Kb)
        close(ctx, what + " squared", np.array(got**2), want2, 1e-7, 1e-8, scale=s)

    s = np.max(np.abs(ma - mb)) ** 2 / np.linalg.eigvalsh(Kb)[0]
    kw = dict(scale=max(1.0, s) * n, atol=1e-8)
    got = to_np(a.kl(b))
    close(ctx, "kl", got, kl(ma, Ka, mb, Kb), **kw)
    require(float(got) >= -1e-7 * kw["scale"], f"kl is {got}.")
    close(ctx, "kl of itself", a.kl(a), 0.0, atol=1e-8)
    w2("w2", a.w2(b), w22(ma, Ka, mb, Kb))
    w2("reversed w2", b.w2(a), w22(ma, Ka, mb, Kb))
    w2("w2 to itself", a.w2(a), 0.0)
    ent = 0.5 * (np.linalg.slogdet(Ka)[1] + n * (1 + np.log(2 * np.pi)))
    close(ctx, "entropy", a.entropy(), ent)
    # Entropy and divergence relate: cross-entropy.
    # Invariance under a common affine map.
    c, t = 2.0, 0.75
    a2, b2 = a * c + t, b * c + t
    close(ctx, "kl after affine map", a2.kl(b2), kl(ma, Ka, mb, Kb), **kw)
    w2("w2 after affine map", a2.w2(b2), c * c * w22(ma, Ka, mb, Kb))
    # Densities.
    Y = np.resize(np.array(case["y"], float) / 3, (n, case["cols"]))
    want = np.array([ref.gauss_logpdf(Ka, y - ma) for y in Y.T])
    arg = Y if case["cols"] > 1 else Y[:, 0]
    s = np.max(np.abs(want)) + n
    close(
        ctx,
        "logpdf",
        a.logpdf(arg),
        want if case["cols"] > 1 else want[0],
        scale=s,
    )
    m2 = Ka + np.outer(ma, ma)
    close(ctx, "m2", a.m2, m2)


PARTS = {
    "algebra": {
        "strategy": algebra_strategy,
        "check": check_algebra,
        "quick": 4000,
        "thorough": 60000,
    },
    "divergences": {
        "strategy": div_strategy,
        "check": check_div,
        "quick": 3000,
        "thorough": 60000,
    },
}
