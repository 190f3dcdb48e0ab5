"""Cost: which covariances are evaluated."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "A case is a generated program over base GPs with instrumented kernels, which record the "
    "sizes of all their evaluations, possibly with Cartesian products, and one or two "
    "conditionings, each exact or with inducing points. Numbers of data, inducing and test "
    "points are different primes, so that sizes tell what was evaluated. Then a random "
    "sequence of quantities is requested. Part `marginals`: no evaluation of test by test "
    "points. Part `pseudo`: no evaluation of data by data points, and none at all that "
    "involves the data after the ELBO or the first posterior quantity. Part `exact`: "
    "evaluations of data by data points only for the first posterior quantity. Non-trivial: "
    "an instrumented kernel was evaluated at the test points (and the data)."
)
ASSUMPTIONS = [
    "Evaluations of kernels of base processes are counted; time and memory are not.",
    "Noise is given as scalar, vector, or diagonal matrix.",
]

DATA = [[11, 13], [17, 19]]
IND = [[5, 7], [3, 2]]
TEST = [29, 31, 37]


def strategy(kinds):
    lin = gen.ops_linear(zero_ok=False)
    stages = [(lin, 0, 4), ([gen.op_cross(nest=True)], 0, 2), (lin[:6], 0, 1)]
    noise = gen.noise(("scal", "vec", "diag"))
    ob = gen.d(
        kind=st.sampled_from(kinds),
        ps=st.lists(gen.idx, min_size=1, max_size=2),
        us=st.lists(gen.idx, min_size=1, max_size=2),
        n=noise,
        how=gen.how,
    )
    ask = gen.d(
        what=st.sampled_from(
            [
                "marginals",
                "bounds",
                "var_diag",
                "mean",
                "marginals of noisy",
                "kernel.elwise",
                "diagonalise",
            ]
        ),
        p=gen.idx,
        n=noise,
        copy=st.booleans(),
        size=st.integers(0, 2),
        how=gen.how,
    )
    ex = gen.d(
        obs=st.lists(ob, min_size=0 if "none" in kinds else 1, max_size=2),
        ask=st.lists(ask, min_size=2, max_size=5),
    )
    prog = gen.program(stages, query=1, special=False, delta=False)
    return st.tuples(prog, ex).map(lambda t: dict(t[0], qs=[], **t[1]))


class Log:
    def __init__(self):
        self.pairs = []
        self.elwise = []


LOG = Log()
_CLS = []


def tracked():
    """Kernel that records its evaluations."""
    if _CLS:
        return _CLS[0]
    import lab as B
    import mlkernels

    class Tracked(mlkernels.Kernel):
        def __init__(self, k):
            self.k = k

        def __eq__(self, other):
            return isinstance(other, Tracked) and self.k == other.k

        @property
        def _stationary(self):
            return self.k.stationary

        def render(self, formatter):
            return "Tracked"

    def num(x):
        return 1 if B.rank(x) == 0 else B.shape(x)[0]

    @mlkernels.pairwise.dispatch
    def pairwise(k: Tracked, x: B.Numeric, y: B.Numeric):
        LOG.pairs.append((num(x), num(y)))
        return mlkernels.pairwise(k.k, x, y)

    @mlkernels.elwise.dispatch
    def elwise(k: Tracked, x: B.Numeric, y: B.Numeric):
        LOG.elwise.append(num(x))
        return mlkernels.elwise(k.k, x, y)

    _CLS.append(Tracked)
    return Tracked


class Case:
    def __init__(self, ctx, case):
        import numpy as np

        from .. import interp

        T = tracked()
        self.np, self.ctx, self.case = np, ctx, case
        plain = interp.make_kernel
        interp.make_kernel = lambda spec: T(plain(spec))
        try:
            self.w = interp.World(ctx, d=case["d"]).run(case["ops"])
        finally:
            interp.make_kernel = plain
        self.ms = [self.w.M[0].m]
        self.refs = [self.w.M[0].ref]
        self.ps = list(self.w.P)
        LOG.pairs.clear(), LOG.elwise.clear()

    def x(self, p, n, how=0):
        np = self.np
        X = np.linspace(-3, 3, n) if how % 3 else np.arange(n) % (n // 2 + 1) / 4
        if p.ref.need == 1:
            return X[:, None] if how % 2 else X
        return np.stack([X, X[::-1] / 2, 1 - X / 3][: p.ref.need], axis=1)

    def noise(self, spec, n):
        import matrix

        v = self.np.resize(self.np.array(spec["v"], float) / 4, n)
        if spec["t"] == "scal":
            return float(v[0])
        return v if spec["t"] == "vec" else matrix.Diagonal(v)

    def pairs(self, ob, sizes):
        np = self.np
        home, out = None, []
        for i, n in zip(ob["ps"], sizes):
            p = self.w.pick(i, lambda p: home is None or p.ref.home is home)
            home = p.ref.home
            f = p.gp(self.x(p, n, ob["how"]), self.noise(ob["n"], n * p.D))
            out.append((f, np.sin(np.arange(n * p.D))[:, None]))
        return out

    def inducing(self, ob, sizes):
        out = []
        for i, n in zip(ob["us"], sizes):
            p = self.w.pick(i)
            out.append(p.gp(self.x(p, n, 1)))
        return out

    def observations(self, ob, k):
        """Observations, the sizes of the data, and those of the inducing points."""
        from ..interp import S

        pairs = self.pairs(ob, DATA[k])
        sizes = set(DATA[k][: len(pairs)])
        if ob["kind"] == "exact":
            return S.Observations(*pairs), sizes, set()
        us = self.inducing(ob, IND[k])
        cls = {"vfe": S.PseudoObs, "fitc": S.PseudoObsFITC, "dtc": S.PseudoObsDTC}
        u = us[0] if len(us) == 1 else tuple(us)
        return cls[ob["kind"]](u, *pairs), sizes, set(IND[k][: len(us)])

    def ask(self, m, a):
        """Request a quantity that concerns single points only."""
        p = self.w.pick(a["p"])
        n = TEST[a["size"]]
        x = self.x(p, n, a["how"])
        what = a["what"]
        self.ctx.label(what + (" (Cartesian product)" if p.D > 1 else ""))
        if what == "kernel.elwise":
            k = m.kernels[p.gp] if a["copy"] else m(p.gp).kernel
            k.elwise(x)
            return
        if what == "mean":
            (m.means[p.gp] if a["copy"] else m(p.gp).mean)(x)
            return
        noisy = what == "marginals of noisy"
        z = self.noise(a["n"], n * p.D) if noisy else None
        if a["copy"]:
            f = m(p.gp(x, z))
        else:
            f = m(p.gp)(x, z)
        if what == "bounds":
            f.marginal_credible_bounds()
        elif what == "var_diag":
            f.var_diag
        elif what == "diagonalise":
            f.diagonalise()
        else:
            f.marginals()


def between(a, b):
    return [p for p in LOG.pairs if (p[0] in a and p[1] in b) or (p[0] in b and p[1] in a)]


def check(ctx, case):
    from ..core import require

    c = Case(ctx, case)
    m = c.ms[0]
    test = set(TEST)
    exact, pseudo = [], []
    n_exact, n_pseudo = [], []
    seen = False
    for k, ob in enumerate(case["obs"]):
        if ob["kind"] == "none":
            continue
        obs, sizes, ind = c.observations(ob, k)
        ctx.label(ob["kind"] + (", several pairs" if len(sizes) > 1 else ""))
        before = m
        m = m | obs
        # The first quantity, which may evaluate the data.
        if ind and ob["how"] % 2:
            obs.elbo(before)
        else:
            p = c.w.pick(ob["how"])
            f = m(p.gp(c.x(p, 23, ob["how"])))
            (f.marginals if ob["how"] % 4 else lambda: f.var)()
        if ind:
            pseudo.append((sizes, ind))
            bad = between(sizes, sizes)
            ctx.compared += 1
            require(
                not bad,
                f"Inducing points, but the covariance of the data was evaluated: {bad}.",
            )
        else:
            exact.append((sizes, ind))
        n_pseudo = [len(between(s, s | i | test)) for s, i in pseudo]
        n_exact = [len(between(s, s)) for s, _ in exact]
    for a in case["ask"]:
        c.ask(m, a)
        bad = between(test, test)
        ctx.compared += 1
        require(not bad, f"{a['what']}: test by test points were evaluated: {bad}.")
        now = [len(between(s, s)) for s, _ in exact]
        require(
            now == n_exact,
            f"{a['what']}: the covariance of the data was evaluated again: {n_exact}, {now}.",
        )
        now = [len(between(s, s | i | test)) for s, i in pseudo]
        require(
            now == n_pseudo,
            f"{a['what']}: data behind inducing points was evaluated: {n_pseudo}, {now}.",
        )
        if LOG.elwise or between(test, {11, 13, 17, 19, 5, 7, 3, 2}):
            seen = True
    if seen:
        ctx.mark()
    # Any other quantity does not evaluate the covariance of the data again either.
    if exact or pseudo:
        p = c.w.pick(case["ask"][0]["p"])
        q = c.w.pick(case["ask"][-1]["p"])
        f = m(p.gp(c.x(p, 23, 1)))
        f.var, f.mean, f.sample()
        m.kernels[p.gp, q.gp](c.x(p, 23, 1), c.x(q, 29, 1))
        for (s, _), n in zip(exact, n_exact):
            require(len(between(s, s)) == n, "The covariance of the data again.")
        for (s, i), n in zip(pseudo, n_pseudo):
            require(len(between(s, s | i | test)) == n, "Data behind inducing points.")


PARTS = {
    "marginals": {
        "strategy": lambda: strategy(["none", "exact", "vfe", "fitc", "dtc"]),
        "check": check,
        "quick": 300,
        "thorough": 8000,
    },
    "pseudo": {
        "strategy": lambda: strategy(["vfe", "fitc", "dtc"]),
        "check": check,
        "quick": 250,
        "thorough": 8000,
    },
    "exact": {
        "strategy": lambda: strategy(["exact"]),
        "check": check,
        "quick": 250,
        "thorough": 8000,
    },
}
