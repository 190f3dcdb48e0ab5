"""Pseudo-point approximations."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "A case is a generated program (1-3 base GPs, composing operations, Cartesian "
    "products, maybe an earlier exact conditioning) conditioned through inducing points "
    "(1-2 sets, any process, with or without inducing noise) on 1-2 pairs of noisy data "
    "by VFE, FITC or DTC, and queries under the result. Posterior moments and ELBO are "
    "compared with dense formulas of the reference; the VFE ELBO may not exceed the exact "
    "log-probability; inducing points at the noise-free data must give exact inference. "
    "Non-trivial: the problem is well conditioned (< 1e7), so it was compared, and the "
    "approximation moves the queried process by more than 1e-4 (or, for the exactness "
    "part, there are at least two data)."
)
ASSUMPTIONS = [
    "Cases whose matrices have condition number above 1e7 are counted, not compared.",
    "Only diagonal observation noise, as the code requires.",
    "Low-rank covariances that the structured matrix library inverts through singular "
    "factors are excluded by construction.",
]


def strategy():
    lin = gen.ops_linear()
    first = gen.op_cond(max_pairs=2, hi=2)
    stages = [
        (lin, 0, 3),
        ([gen.op_cross(nest=True)], 0, 1),
        ([first], 0, 1),
        ([gen.op_post()] + lin[:3], 0, 1),
        ([gen.op_pseudo(parts=True)], 1, 1),
        (lin[:4] + [gen.op_reuse()], 0, 1),
    ]
    return gen.program(stages, query=2)


def exact_strategy():
    lin = gen.ops_linear()
    stages = [
        (lin, 0, 3),
        ([gen.op_cross(nest=True)], 0, 1),
        ([gen.op_cond(max_pairs=1, hi=2)], 0, 1),
    ]
    ex = gen.d(
        lm=st.integers(0, 3),
        items=st.lists(gen.obs_item(1, 3, True, gen.DIAG_NOISE), min_size=1, max_size=2),
        y=gen.ys(),
        method=st.sampled_from(["vfe", "fitc", "dtc"]),
        lhow=gen.how,
    )

    prog = gen.program(stages, query=1)
    return st.tuples(prog, ex).map(lambda t: dict(t[0], **t[1]))


def check(ctx, case):
    from ..core import close, ok_cond, require, to_np
    from ..interp import World
    from ..query import check_pair, process_pair
    from .C02 import moved
    from .C05 import elbo_scale

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    if getattr(w, "last_pseudo", None) is None:
        return
    m, real, ro = w.last_pseudo
    s = elbo_scale(ro)
    post = next(x for x in w.M if x.ref.obs is ro)
    ctx.label(f"method {ro.method}")
    first = case["qs"][0]["how"] % 2
    if first:
        close(ctx, "ELBO", real.elbo(m.m), ro.elbo, scale=s)
    for qs in case["qs"]:
        _, p, q = process_pair(w, qs)
        p = w.pick(qs["p"], lambda p: post.ref in p.ref.measures)
        q = w.pick(qs["q"], lambda q: post.ref in q.ref.measures)
        check_pair(ctx, w, post, p, q, qs)
        if ok_cond(ctx) and moved(w, post, p, qs) > 1e-4:
            ctx.mark()
    # The process that was observed, and the one that was added last.
    for p in (w.P[-1],):
        if post.ref in p.ref.measures:
            check_pair(ctx, w, post, p, p, case["qs"][0])
    if not ok_cond(ctx):
        return
    e = real.elbo(m.m)
    close(ctx, "ELBO", e, ro.elbo, scale=s)
    close(ctx, "m.logpdf(pseudo-observations)", m.m.logpdf(real), ro.elbo, scale=s)
    if ro.method == "vfe":
        t = (1e-8 + 1e-12 * ctx.cond) * s
        require(
            float(to_np(e)) <= ro.exact + t,
            f"ELBO {float(to_np(e))} exceeds the log-probability {ro.exact}.",
        )


def check_exact(ctx, case):
    """Inducing points at the data."""
    from .. import ref
    from ..core import close, ok_cond
    from ..interp import Meas, S, World
    from ..query import check_pair

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    m = w.meas(-1 - case["lm"])
    if w.degenerate or w.fragile(m):
        return
    obs = w.observe(m, case["items"], case["y"], lambda p: "product" not in p.ref.tags)
    if obs is None:
        return
    pairs, form, N, y, ps = obs
    # The inducing points have no noise, so must not coincide.
    import numpy as np

    K = m.ref.cov(form(m.ref), form(m.ref))
    ctx.note_cond(ref._cond(K + 1e-12 * np.eye(len(K))))
    if not ok_cond(ctx):
        return
    ctx.note_cond(ref._cond(N))
    ro = ref.RefObs(form(m.ref), N, y, ctx)
    rpost = m.ref.condition(ro)
    if not ok_cond(ctx):
        return
    # The same inputs and process.
    us = tuple(f.p(f.x) for f, _ in pairs)
    cls = {"vfe": S.PseudoObs, "fitc": S.PseudoObsFITC, "dtc": S.PseudoObsDTC}
    cls = cls[case["method"]]
    u = us[0] if len(us) == 1 and case["lhow"] % 2 else us
    real = cls(u, *pairs)
    post = Meas(m.m | real, rpost)
    w.M.append(post)
    if len(y) > 1:
        ctx.mark()
    for qs in case["qs"]:
        p = w.pick(qs["p"], lambda p: rpost in p.ref.measures)
        q = w.pick(qs["q"], lambda q: rpost in q.ref.measures)
        check_pair(ctx, w, post, p, q, qs, rtol=1e-7, atol=1e-8)
    want = ro.logpdf()
    nd = float(np.min(np.diag(N)))
    s = max(1.0, abs(want), len(y) / nd * max(1.0, float(np.abs(y).max()) ** 2))
    s = max(s, float(np.max(np.diag(K))) * len(y) / nd)
    close(ctx, "ELBO", real.elbo(m.m), want, scale=s)


PARTS = {
    "pseudo": {"strategy": strategy, "check": check, "quick": 560, "thorough": 20000},
    "exact": {
        "strategy": exact_strategy,
        "check": check_exact,
        "quick": 400,
        "thorough": 12000,
    },
}
