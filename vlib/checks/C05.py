"""Missing observations."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "A case is a generated program with single-output and multi-output (also nested, "
    "scaled, and posterior) processes and observations some of which are NaN: all of "
    "them, none, whole outputs, or parts. The posterior, the log-probability, and the "
    "pseudo-point posterior and ELBO must be what the reference gives with these "
    "observations left out altogether. Non-trivial: at least one observation is missing "
    "and at least one is not, and the problem is well conditioned, so it was compared."
)
ASSUMPTIONS = [
    "Cases whose covariance has condition number above 1e7 are counted, not compared.",
    "Missing values in batched observations are not considered: the documentation "
    "excludes them.",
]


def base():
    lin = gen.ops_linear()
    return [
        (lin, 0, 3),
        ([gen.op_cross(nest=True)], 0, 2),
        (
            [
                gen.op_post(),
                gen.d(op=st.just("mul"), p=gen.idx, c=st.just(2.0), how=gen.how),
            ],
            0,
            2,
        ),
    ]


def cond_strategy():
    cond = gen.op_cond(max_pairs=2, parts=True, missing=True)
    first = gen.op_cond(max_pairs=2, hi=2)
    stages = base() + [
        ([first], 0, 1),
        ([gen.op_post(), gen.op_post()], 0, 1),
        ([cond], 1, 1),
    ]
    return gen.program(stages, query=1)


def logpdf_strategy():
    from .C04 import extra, with_extra

    return with_extra(
        gen.program(base() + [([gen.op_cond(max_pairs=1, hi=3)], 0, 1)]), extra(True)
    )


def pseudo_strategy():
    pseudo = gen.op_pseudo(parts=True, missing=True)
    return gen.program(base() + [([pseudo], 1, 1)], query=1)


def normal_strategy():
    return gen.d(
        n=st.integers(1, 6),
        t=st.sampled_from(["dense", "diag", "zero mean", "array", "lowrank", "fdd"]),
        y=gen.ys(True),
        v=st.lists(st.integers(1, 9), min_size=6, max_size=6),
        yc=st.booleans(),
    )


def some_missing(case):
    return any(
        op["op"] in ("cond", "pseudo") and op.get("missing") and None in op["y"]
        for op in case["ops"]
    )


def check_cond(ctx, case):
    from ..core import ok_cond
    from ..interp import World
    from ..query import check_pair, process_pair

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    for qs in case["qs"]:
        m, p, q = process_pair(w, dict(qs, m=0), latest=True)
        if p is None or m.ref.parent is None:
            continue
        ro = m.ref.obs
        left = len(ro.y)
        if left == 0:
            ctx.label("everything missing")
        check_pair(ctx, w, m, p, q, qs)
        if ok_cond(ctx) and left and "missing data" in ctx.labels:
            ctx.mark()


def check_pseudo(ctx, case):
    from ..core import close, ok_cond
    from ..interp import World

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    check_cond(ctx, case)
    if getattr(w, "last_pseudo", None) is None or not ok_cond(ctx):
        return
    m, real, ro = w.last_pseudo
    close(ctx, "ELBO", real.elbo(m.m), ro.elbo, scale=elbo_scale(ro))


def elbo_scale(ro):
    import numpy as np

    nd = float(np.min(ro.nd, initial=1.0))
    r = np.abs(ro.y - ro.measure.mean(ro.form)).max(initial=1.0)
    k = np.max(np.diag(ro.measure.cov(ro.form, ro.form)), initial=1.0)
    return max(1.0, abs(ro.elbo), len(ro.y) * (r * r + k) / nd)


def check_logpdf(ctx, case):
    import numpy as np

    from .. import ref
    from ..core import close, ok_cond
    from ..interp import S, World

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    m = w.meas(-1 - case["lm"])
    obs = w.observe(m, case["items"], case["y"], lambda p: True, missing=True)
    if obs is None:
        return
    pairs, form, N, y, ps = obs
    form, N, y = w.keep(form, N, y)
    ro = ref.RefObs(form(m.ref), N, y, ctx)
    ro.bind(m.ref)
    if not ok_cond(ctx):
        return
    if len(y) and "missing data" in ctx.labels:
        ctx.mark()
    want = ro.logpdf()
    r = y - m.ref.mean(ro.form)
    quad = float(r @ np.linalg.solve(ro.K, r)) if len(y) else 0.0
    kw = dict(scale=max(1.0, quad, len(y)))
    full = S.combine(*pairs) if len(pairs) > 1 or case["lhow"] % 2 else pairs[0]
    close(ctx, "m.logpdf(*pairs)", m.m.logpdf(*pairs), want, **kw)
    close(ctx, "m.logpdf(fdd, y)", m.m.logpdf(*full), want, **kw)
    close(ctx, "m(fdd).logpdf(y)", m.m(full[0]).logpdf(full[1]), want, **kw)
    obs = S.Obs(*pairs)
    close(ctx, "m.logpdf(Obs(*pairs))", m.m.logpdf(obs), want, **kw)
    if B_has_nan(obs.y):
        from ..core import Violation

        raise Violation("Observations still has missing values.")


def B_has_nan(y):
    import numpy as np

    from ..core import to_np

    return bool(np.isnan(to_np(y)).any())


def check_normal(ctx, case):
    import numpy as np

    from .. import ref
    from ..core import close, require, to_np
    from ..interp import S, matrix, values

    n, t = case["n"], case["t"]
    v = np.array(case["v"][:n], float)
    y = values(case["y"], n)
    mean = np.cos(np.arange(n) * v)
    w = (v - 4) / 4
    K = np.diag(v / 2) + np.outer(w, w)
    if t == "diag":
        K = np.diag(v / 2)
        d = S.Normal(mean[:, None], matrix.Diagonal(v / 2))
    elif t == "zero mean":
        mean = 0 * mean
        d = S.Normal(K)
    elif t == "array":
        d = S.Normal(mean[:, None], K)
    elif t == "lowrank":
        d = S.Normal(
            mean[:, None],
            matrix.Diagonal(v / 2) + matrix.LowRank(w[:, None]),
        )
    elif t == "fdd":
        x = np.arange(n) * 0.5
        p = S.GP(lambda x: x, S.EQ())
        mean = x
        K = np.exp(-0.5 * (x[:, None] - x[None, :]) ** 2) + np.diag(v)
        d = p(x, v)
    else:
        d = S.Normal(mean[:, None], matrix.Dense(K))
    a = ~np.isnan(y)
    want = ref.gauss_logpdf(K[np.ix_(a, a)], (y - mean)[a])
    if a.any() and not a.all():
        ctx.mark()
        ctx.label("missing data")
    got = d.logpdf(y[:, None] if case["yc"] else y)
    close(ctx, f"logpdf of normal ({t})", got, want, scale=float(n * 100))

    # Missing values in one column of values have no influence on the other columns.
    full = np.where(a, y, 0.25)
    cols = [y, full] if case["yc"] else [full, y, full - 1]
    got = to_np(d.logpdf(np.stack(cols, axis=1)))
    require(got.shape == (len(cols),), f"Shape of logpdf of columns: {got.shape}.")
    for c, u in zip(cols, got):
        if not np.isnan(c).any():
            want = ref.gauss_logpdf(K, c - mean)
            close(ctx, f"logpdf of column ({t})", u, want, scale=float(n * 100))


PARTS = {
    "cond": {
        "strategy": cond_strategy,
        "check": check_cond,
        "quick": 600,
        "thorough": 16000,
    },
    "logpdf": {
        "strategy": logpdf_strategy,
        "check": check_logpdf,
        "quick": 400,
        "thorough": 12000,
    },
    "pseudo": {
        "strategy": pseudo_strategy,
        "check": check_pseudo,
        "quick": 400,
        "thorough": 12000,
    },
    "normal": {
        "strategy": normal_strategy,
        "check": check_normal,
        "quick": 800,
        "thorough": 8000,
    },
}
