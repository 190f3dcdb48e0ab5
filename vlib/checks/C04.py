"""Log-probabilities of observations."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "A case is a generated program (1-3 base GPs, composing operations, possibly a "
    "Cartesian product, 0-2 conditionings) and 1-3 pairs of finite-dimensional "
    "distributions and values under one of its measures. Every entry point for the "
    "log-probability is compared with a dense Gaussian density of the reference, also "
    "for several columns of values at once, also in another order of the pairs, and "
    "factored by the chain rule. Non-trivial: at least two scalar values are involved, "
    "and the problem is well conditioned (< 1e7), so that it was compared."
)
ASSUMPTIONS = [
    "Cases whose covariance has condition number above 1e7 are counted, not compared.",
    "Tolerance 1e-8 + 1e-12 times the condition number, relative to the magnitude of the "
    "terms that make up the log-probability.",
]


def item(parts=True):
    return gen.obs_item(1, 4, parts)


def extra(missing=False):
    return gen.d(
        lm=st.integers(0, 3),
        items=st.lists(item(), min_size=1, max_size=3),
        y=gen.ys(missing),
        cols=st.integers(2, 3),
        lhow=gen.how,
    )


def with_extra(prog, ex):
    return st.tuples(prog, ex).map(lambda t: dict(t[0], qs=[], **t[1]))


def strategy():
    lin = gen.ops_linear()
    stages = [
        (lin, 0, 4),
        ([gen.op_cross(nest=True)], 0, 1),
        ([gen.op_cond(max_pairs=2, hi=3), gen.op_cond(max_pairs=1, hi=3)], 0, 2),
        ([gen.op_post()] + lin[:4], 0, 2),
    ]
    return with_extra(gen.program(stages, query=1), extra())


def scale_of(N, r, val):
    return max(1.0, abs(val), len(r))


def check(ctx, case):
    import numpy as np

    from .. import ref
    from ..core import close, ok_cond
    from ..interp import S, World, depth

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    m = w.meas(-1 - case["lm"])
    # `combine` builds Cartesian products of the processes.
    obs = w.observe(m, case["items"], case["y"], lambda p: True)
    if obs is None:
        return
    pairs, form, N, y, ps = obs
    ro = ref.RefObs(form(m.ref), N, y, ctx)
    ro.bind(m.ref)
    if not ok_cond(ctx):
        return
    n = len(y)
    if n >= 2:
        ctx.mark()
    want = ro.logpdf()
    r = y - m.ref.mean(ro.form)
    quad = float(r @ np.linalg.solve(ro.K, r)) if n else 0.0
    kw = dict(scale=max(1.0, quad, n, float(np.max(np.abs(ro.form.const), initial=0))))
    ctx.label(f"{len(pairs)} pair(s)")
    ctx.label(f"depth {depth(m.ref)}")
    how = case["lhow"]

    def entry_points(pairs, tag="", few=None):
        full = S.combine(*pairs) if len(pairs) > 1 or how % 2 else pairs[0]
        fs = {
            "m.logpdf(*pairs)": lambda: m.m.logpdf(*pairs),
            "m.logpdf(Obs(*pairs))": lambda: m.m.logpdf(S.Obs(*pairs)),
            "m.logpdf(fdd, y)": lambda: m.m.logpdf(full[0], full[1]),
            "m.logpdf(Obs(fdd, y))": lambda: m.m.logpdf(S.Observations(*full)),
            "m(fdd).logpdf(y)": lambda: m.m(full[0]).logpdf(full[1]),
        }
        if m.ref is ps[0].ref.home:
            fs["fdd.logpdf(y)"] = lambda: full[0].logpdf(full[1])
        names = sorted(fs)
        k = how % len(names)
        names = names[k:] + names[:k]
        for name in names[:few]:
            close(ctx, name + tag, fs[name](), want, **kw)
        return full

    full = entry_points(pairs)
    if len(pairs) > 1:
        entry_points(pairs[::-1], " (pairs reversed)", 1)

    # Several columns.
    Y = np.stack([y * (i + 1) - i * 0.5 for i in range(case["cols"])], axis=1)
    if n:
        wants = [ref.gauss_logpdf(ro.K, c - m.ref.mean(ro.form)) for c in Y.T]
        got = m.m(full[0]).logpdf(w.bk.arr(Y))
        kw2 = dict(scale=max(kw["scale"], float(np.max(np.abs(wants)))))
        close(ctx, "logpdf of several columns", got, np.array(wants), **kw2)

    # Chain rule: condition on some, and then evaluate the rest.
    if len(pairs) > 1 and how % 3 == 0 and not w.fragile(m):
        k = 1 + how % (len(pairs) - 1)
        post = m.m | (pairs[0] if k == 1 else tuple(pairs[:k]))
        head = m.m.logpdf(*pairs[:k])
        tail = post.logpdf(*pairs[k:])
        ctx.label("chain rule")
        close(ctx, "chain rule", head + tail, want, **kw)

    # Nothing was changed by asking.
    entry_points(pairs, " (second time)", 1)


PARTS = {"logpdf": {"strategy": strategy, "check": check, "quick": 900, "thorough": 40000}}
