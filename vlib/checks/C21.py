"""Stationarity."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "A case is a generated program (base GPs with stationary and other kernels, all "
    "composing operations including products and Cartesian products, conditioning exactly "
    "and with inducing points, copies under posteriors). All processes and pairs of "
    "processes under all measures are asked whether they are stationary, before or after "
    "other questions. Whenever one claims to be, its covariance must not change under a "
    "random shift of both inputs. Base processes with stationary kernels, and independent "
    "sums, scalings, scalar shifts, and scalar stretches of such must claim to be. "
    "Non-trivial: at least one claim was tested on a kernel that is not zero."
)
ASSUMPTIONS = [
    "Invariance is tested at four pairs of inputs and two shifts.",
    "Completeness of the claims is required only for the operations listed.",
]


def strategy():
    lin = gen.ops_linear()
    stretch = lin[7:9]
    stages = [
        (lin + [gen.op_mulgp()] + stretch * 3, 0, 5),
        ([gen.op_cross(nest=True)], 0, 2),
        (
            [
                gen.op_cond(max_pairs=2, hi=3, m=0),
                gen.op_pseudo(hi=3, m=0),
                gen.op_post(),
                gen.op_query(),
            ],
            0,
            2,
        ),
        (lin[:10], 0, 2),
    ]
    ex = gen.d(
        shift=st.lists(
            st.sampled_from([-2.5, -0.5, 0.375, 1.0, 4.0]), min_size=2, max_size=2
        ),
        early=st.booleans(),
        copy=st.booleans(),
    )
    return st.tuples(gen.program(stages, query=1), ex).map(
        lambda t: dict(t[0], qs=[], **t[1])
    )


STATIONARY = {"EQ", "M12", "M32", "M52", "RQ", "One", "Zero", "Delta"}


def certain(w, ops):
    """Processes that must claim to be stationary, with the bases that they involve."""
    from ..interp import World

    class Spy(World):
        def new(self, gp, rp, comps=None):
            p = World.new(self, gp, rp, comps)
            p.must = None
            op = self.op
            kind = op["op"]
            if kind == "gp" and all(s["k"] in STATIONARY for s in op["kern"]):
                p.must = {id(p)}
            sub = [q for q in self.P if q is not p]
            if kind in ("mul", "shiftval", "addf", "shift", "stretch"):
                q = sub[op["p"] % len(sub)] if kind == "mul" else self.arg
                vector = kind in ("shift", "stretch") and op["how"] % 2 and p.ref.need > 1
                if q.D == 1 and "multi-output" not in q.ref.tags and not vector:
                    p.must = q.must
            if kind in ("add", "sub"):
                a, b = self.args
                if a.must and b.must and not (a.must & b.must):
                    p.must = a.must | b.must
            return p

        def pick(self, i, ok=lambda p: True):
            self.arg = World.pick(self, i, ok)
            return self.arg

        def pick_pair(self, i, j, ok=lambda p: True):
            self.args = World.pick_pair(self, i, j, ok)
            return self.args

        def run(self, ops):
            for op in ops:
                self.op = op
                World.run(self, [op])
            return self

    return Spy(w, d=ops["d"], unique=ops["unique"]).run(ops["ops"])


def check(ctx, case):
    import numpy as np

    from ..core import Violation, close, ok_cond, require, to_np

    w = certain(ctx, case)
    if not ok_cond(ctx):
        return
    rng = np.random.RandomState(0)

    def inputs(p):
        return rng.randint(-6, 7, size=(4, p.ref.need)) * 0.25

    def test(name, k, p, q, scale):
        if not k.stationary:
            return False
        X, Y = inputs(p), inputs(q)
        K = to_np(k(X, Y))
        E = to_np(k.elwise(X, Y)) if p.D == q.D == 1 else None
        for c in case["shift"]:
            close(ctx, f"{name}, shifted by {c}", k(X + c, Y + c), K, scale=scale)
            if E is not None:
                close(
                    ctx, f"{name}, shifted by {c}", k.elwise(X + c, Y + c), E, scale=scale
                )
        return np.max(np.abs(K)) > 1e-6

    for p in w.P:
        if p.must:
            ctx.label("claims to be stationary for certain")
            require(p.gp.stationary, f"Process {w.P.index(p)} must be stationary.")
            require(p.gp.kernel.stationary, f"Process {w.P.index(p)} must be stationary.")
    for m in w.M:
        known = [p for p in w.P if m.ref in p.ref.measures]
        for p in known:
            if not case["early"]:
                m.m.kernels[p.gp](inputs(p))
            gp = m.m(p.gp) if case["copy"] else p.gp
            k = m.m(p.gp).kernel if case["copy"] else m.m.kernels[p.gp]
            name = f"kernel of process {w.P.index(p)} under measure {w.M.index(m)}"
            s = np.max(np.abs(to_np(p.gp.kernel.elwise(inputs(p)))))
            if case["copy"] or m.ref is p.ref.home:
                if gp.stationary != gp.kernel.stationary:
                    raise Violation(f"{name}: GP and kernel disagree on stationarity.")
            if test(name, k, p, p, s):
                ctx.mark()
                ctx.label("claim" + ("" if m is w.M[0] else " under a posterior"))
            for q in known:
                k = m.m.kernels[p.gp, q.gp]
                if q.ref.need == p.ref.need and test(f"cross-{name}", k, p, q, s):
                    ctx.label("claim of a cross-kernel")


PARTS = {"claims": {"strategy": strategy, "check": check, "quick": 900, "thorough": 20000}}
