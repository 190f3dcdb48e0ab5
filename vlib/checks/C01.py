"""Prior composition: the joint law of all processes of a measure."""

from .. import gen

gen.BIG = True

RULE = (
    "A case is a generated program of 1-3 base GPs (random sums of stretched/periodic "
    "kernels, zero/constant/function/explicit means; 1-D or 2-D inputs) followed by 2-7 "
    "operations (sums, differences, scaling incl. 0, adding/multiplying by functions, "
    "shift, stretch, transform, select), then 1-2 queries that compare means, variances, "
    "cross-covariances in both orders, elementwise covariances, noisy marginals and the "
    "joint law with an explicit linear-Gaussian reference. Non-trivial: at least two "
    "operations built a new process and the queried covariance is not identically zero."
)
ASSUMPTIONS = [
    "Reference: linear forms over independent base processes in NumPy double precision.",
    "Relative tolerance 1e-8 at the scale of the prior variances.",
]


def strategy():
    return gen.program([(gen.ops_linear(), 2, 7)])


def check(ctx, case):
    from ..interp import World
    from ..query import check_pair, process_pair

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    built = (
        len(w.P)
        + sum(op["op"] == "drop" for op in case["ops"])
        - sum(op["op"] == "gp" for op in case["ops"])
    )
    for qs in case["qs"]:
        m, p, q = process_pair(w, qs)
        check_pair(ctx, w, m, p, q, qs)
        X, Y = w.points(p, qs["x"]), w.points(q, qs["x2"])
        K = m.ref.cov(p.ref.form(m.ref, X), q.ref.form(m.ref, Y))
        if built >= 2 and abs(K).max() > 1e-6:
            ctx.mark()
        if p is not q and abs(K).max() > 1e-6:
            ctx.label("correlated distinct processes")
        if case["d"] >= 2:
            ctx.label("2-D inputs")
        if case["unique"]:
            ctx.label("with Delta")


PARTS = {
    "compose": {"strategy": strategy, "check": check, "quick": 3600, "thorough": 60000},
}
