"""Conditioning histories."""

from .. import gen

gen.BIG = True

RULE = (
    "A case is a history: base GPs, then 3-9 interleaved operations that compose "
    "processes (also after conditioning, on processes of the prior and on posterior "
    "processes), condition any measure (prior or posterior) on exact or pseudo-point "
    "observations, take posterior processes, and query kernels early so that later "
    "answers may be cached ones; then queries under any measure of the history, compared "
    "with the reference. Non-trivial: a queried measure is a posterior that moved the "
    "queried process by more than 1e-4, and the history has at least two conditionings "
    "or a process built after a conditioning; compared (condition number < 1e7)."
)
ASSUMPTIONS = [
    "Cases whose data covariance has condition number above 1e7 are counted, not compared.",
]


def strategy():
    lin = gen.ops_linear()
    cond = [gen.op_cond(max_pairs=2, hi=3)]
    more = cond + cond + [gen.op_pseudo(hi=4), gen.op_reuse()]
    some = lin[:4] + lin[5:9] + [gen.op_post()] * 3 + [gen.op_query()] * 2
    some = some + [gen.op_gp(m=1)]
    stages = [(lin, 0, 2), (cond, 1, 1), (some, 0, 3), (more, 1, 1)]
    stages += [(some, 0, 3), (more, 0, 2), (some, 0, 2)]
    return gen.program(stages, query=3)


def check(ctx, case):
    from ..core import ok_cond
    from ..interp import World
    from ..query import check_pair, process_pair
    from .C02 import moved

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    names = [op["op"] for op in case["ops"]]
    first = min((names.index(n) for n in ("cond", "pseudo") if n in names), default=99)
    rich = len(w.M) > 2 or any(n not in ("cond", "pseudo", "query") for n in names[first:])
    for qs in case["qs"]:
        m, p, q = process_pair(w, qs, latest=True)
        if p is None:
            continue
        if len(p.ref.measures) < len(w.M):
            ctx.label("process not in all measures")
        check_pair(ctx, w, m, p, q, qs)
        if m.ref.parent is not None and rich and ok_cond(ctx):
            if moved(w, m, p, qs) > 1e-4:
                ctx.mark()


PARTS = {
    "history": {"strategy": strategy, "check": check, "quick": 480, "thorough": 16000},
}
