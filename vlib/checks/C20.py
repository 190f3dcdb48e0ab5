"""Equivalent ways of saying the same thing."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "Part `orders`: a case is a generated program (base GPs, composing operations, possibly "
    "a Cartesian product and an earlier conditioning), and up to five groups of up to twelve "
    "observations at real inputs. Conditioning on all groups jointly, in another order, one "
    "after another, partly jointly, point by point, or in other notations must give one and "
    "the same posterior and total log-probability, which must be that of the reference. "
    "Part `forms`: the same inputs, noise, and values in other forms (scalars, vectors, "
    "columns, integers, structured matrices). Part `rewrites`: an expression over base GPs "
    "and another one that follows from it by identities of arithmetic must be almost surely "
    "equal: the difference has mean and covariance zero, as does its cross-covariance with "
    "everything else, under priors and posteriors. Non-trivial: at least three observations "
    "and two ways were compared (orders), at least two forms (forms), or at least one "
    "rewriting and a process with positive variance (rewrites)."
)
ASSUMPTIONS = [
    "Cases whose data covariance has condition number above 1e7 are counted, not compared.",
    "Noise is positive. Inputs are NumPy arrays or Python numbers.",
]


# ---------------------------------------------------------------------------
# Orders.

NOISE = ("scal", "vec", "diag", "mat", "dense")


def strategy_orders():
    lin = gen.ops_linear()
    stages = [
        (lin, 0, 4),
        ([gen.op_cross(nest=True)], 0, 1),
        ([gen.op_cond(max_pairs=1, hi=2, m=0)], 0, 1),
    ]
    group = gen.d(
        p=gen.idx,
        n=st.integers(1, 12),
        seed=st.integers(0, 10**6),
        noise=gen.noise(NOISE),
        round=st.booleans(),
    )
    ways = st.lists(
        gen.d(
            way=st.sampled_from(
                ["joint", "order", "one by one", "split", "points", "notation", "stacked"]
            ),
            perm=st.lists(st.integers(0, 99), min_size=6, max_size=6),
            at=st.integers(1, 4),
            how=gen.how,
        ),
        min_size=2,
        max_size=3,
    )
    ex = gen.d(
        groups=st.lists(group, min_size=1, max_size=5),
        ways=ways,
        m=st.integers(0, 1),
    )
    return st.tuples(gen.program(stages, query=1, delta=False), ex).map(
        lambda t: dict(t[0], **t[1])
    )


class Group:
    """Observations of one process at real inputs."""

    def __init__(self, w, p, spec):
        import numpy as np

        from ..interp import noise_matrix

        rng = np.random.RandomState(spec["seed"])
        X = rng.uniform(-4, 4, size=(spec["n"], p.ref.need))
        if spec["round"]:
            # Repeated inputs.
            X = np.round(X)
        self.w, self.p, self.X = w, p, X
        n = len(X) * p.D
        self.y = np.round(2 * rng.randn(n), 3)
        self.spec = spec["noise"]
        if w.degenerate and self.spec["t"] in ("scal", "vec", "diag"):
            self.spec = dict(self.spec, t="mat")
        self.N = noise_matrix(self.spec, n)
        self.r = spec["seed"] % 3

    def form(self, m):
        return self.p.ref.form(m, self.X)

    def pair(self, perm=None, column=False):
        import numpy as np

        from ..interp import noise_arg, x_arg

        X, y = self.X, self.y
        if perm is None:
            noise = noise_arg(self.spec, len(y), self.w.bk)
        else:
            i = np.argsort(np.resize(perm, len(X)), kind="stable")
            n = len(X)
            j = np.concatenate([k * n + i for k in range(self.p.D)])
            X, y, noise = X[i], y[j], self.N[np.ix_(j, j)]
        return self.p.gp(x_arg(X, self.r, self.w.bk), noise), y[:, None] if column else y

    def points(self):
        """A pair for every single point, if the noise is independent."""
        import numpy as np

        if self.p.D > 1 or not np.array_equal(self.N, np.diag(np.diag(self.N))):
            return [self.pair()]
        out = []
        for i, x in enumerate(self.X):
            x = x[0] if len(x) == 1 and self.r == 0 else x[None, :]
            out.append((self.p.gp(x, float(self.N[i, i])), self.y[i]))
        return out


def chain(m, parts, S):
    """Condition on parts one after another."""
    total = 0
    for k, pairs in enumerate(parts):
        total = total + m.logpdf(*pairs)
        m = m | (pairs[0] if len(pairs) == 1 and k % 2 else tuple(pairs))
    return m, total


def condition(m, groups, way, S):
    """Condition, and get the total log-probability."""
    import numpy as np

    order = np.argsort(way["perm"][: len(groups)], kind="stable")
    shuffled = [groups[i] for i in order]
    name, how = way["way"], way["how"]
    if name == "joint":
        pairs = [g.pair(column=how % 2 == 0) for g in groups]
        return m.condition(*pairs), m.logpdf(*pairs)
    if name == "order":
        pairs = [g.pair(way["perm"] if how % 2 else None) for g in shuffled]
        return m | tuple(pairs), m.logpdf(*pairs)
    if name == "one by one":
        # Deeper nesting is expensive: every level doubles the work.
        parts = [[g.pair(way["perm"] if how % 2 else None)] for g in shuffled]
        return chain(m, parts[:2] + [sum(parts[2:], [])][: len(parts[2:])], S)
    if name == "split":
        k = way["at"]
        parts = [shuffled[:k], shuffled[k:]]
        return chain(m, [[g.pair() for g in part] for part in parts if part], S)
    if name == "points":
        if how % 2 and len(shuffled[0].points()) <= 3:
            # One by one.
            parts = [[p] for p in shuffled[0].points()]
        elif len(shuffled[0].points()) <= 8:
            parts = [shuffled[0].points()]
        else:
            parts = [[shuffled[0].pair()]]
        rest = [g.pair() for g in shuffled[1:]]
        return chain(m, parts + ([rest] if rest else []), S)
    if name == "stacked":
        # As one observation of a Cartesian product.
        p = S.cross(*[g.p.gp for g in shuffled])
        n = sum(len(g.y) for g in shuffled)
        N, i = np.zeros((n, n)), 0
        for g in shuffled:
            N[i : i + len(g.y), i : i + len(g.y)] = g.N
            i += len(g.y)
        f = p(tuple(g.pair()[0] for g in shuffled), N)
        y = np.concatenate([g.y for g in shuffled])
        return m | (f, y), m.logpdf(f, y)
    pairs = [g.pair() for g in groups]
    f, y = S.combine(*pairs)
    if how % 6 == 0:
        return m | S.Obs(*pairs), m.logpdf(S.Obs(*pairs))
    if how % 6 == 1:
        return m.condition(S.Observations(f, y)), m.logpdf(f, y)
    if how % 6 == 2:
        return m.condition(f, y), m(f).logpdf(y)
    if how % 6 == 3:
        return m | (f, y), m.logpdf((f, y))
    if how % 6 == 4:
        return m.condition((f, y)), m(f).logpdf(y[:, 0])
    g = S.combine(*[f for f, _ in pairs])
    y = np.concatenate([S.B.uprank(y)[:, 0] for _, y in pairs])
    return m | (g, y), m.logpdf(g, y)


def compare(ctx, w, m, p, q, qs, tag):
    from ..core import close
    from ..query import prior_scale, specs

    s1, s2 = specs(qs)
    x, fx, _ = w.inputs(p, s1)
    y, gy, _ = w.inputs(q, s2)
    f, g = fx(m.ref), gy(m.ref)
    kw = dict(scale=prior_scale(m, [f, g]))
    how = qs["how"]
    if how % 3 == 0:
        d = m.m(p.gp(x))
        close(ctx, f"{tag}: mean", d.mean, m.ref.mean(f)[:, None], **kw)
        close(ctx, f"{tag}: variance", d.var, m.ref.cov(f, f), **kw)
    elif how % 3 == 1:
        a, b = m.m(p.gp)(x).marginals()
        close(ctx, f"{tag}: marginal means", a, m.ref.mean(f), **kw)
        close(ctx, f"{tag}: marginal variances", b, m.ref.cov(f, f).diagonal(), **kw)
    else:
        close(ctx, f"{tag}: mean", m.m.means[p.gp](x), m.ref.mean(f)[:, None], **kw)
        close(ctx, f"{tag}: kernel", m.m.kernels[p.gp](x), m.ref.cov(f, f), **kw)
    K = m.m.kernels[p.gp, q.gp](x, y)
    close(ctx, f"{tag}: cross-covariance", K, m.ref.cov(f, g), **kw)


def check_orders(ctx, case):
    import numpy as np

    from .. import ref
    from ..core import close, ok_cond
    from ..interp import Meas, S, World
    from ..query import process_pair

    w = World(ctx, d=case["d"]).run(case["ops"])
    m = w.meas(case["m"])
    if w.fragile(m):
        return
    groups, home = [], None
    for spec in case["groups"]:
        p = w.pick(
            spec["p"],
            lambda p: (
                m.ref in p.ref.measures
                and (home is None or p.ref.home is home)
                and p.D <= 4
                and "product" not in p.ref.tags
            ),
        )
        if p is not None and sum(len(g.y) for g in groups) + spec["n"] * p.D <= 48:
            home = p.ref.home
            groups.append(Group(w, p, spec))
    if not groups:
        return
    n = sum(len(g.y) for g in groups)
    ctx.label(f"observations: {'40+' if n >= 40 else f'{n // 10 * 10}+'}")
    N, i = np.zeros((n, n)), 0
    for g in groups:
        N[i : i + len(g.y), i : i + len(g.y)] = g.N
        i += len(g.y)
    form = lambda r: ref.stack([g.form(r) for g in groups])  # noqa: E731
    ro = ref.RefObs(form(m.ref), N, np.concatenate([g.y for g in groups]), ctx)
    rpost = m.ref.condition(ro)
    if not ok_cond(ctx):
        return
    if w.degenerate and len(groups) > 1:
        # The matrix library loses digits for sums of matrices of low rank.
        return
    want = ro.logpdf()
    f = ro.form
    rr = ro.y - m.ref.mean(f)
    scale = max(1.0, n, abs(want), float(rr @ np.linalg.solve(ro.K, rr)))
    for way in case["ways"]:
        ctx.label(way["way"])
        n_before = len(w.M)
        post, total = condition(m.m, groups, way, S)
        close(ctx, f"{way['way']}: total log-probability", total, want, scale=scale)
        w.M.append(Meas(post, rpost))
        for qs in case["qs"]:
            mm, p, q = process_pair(w, dict(qs, m=0), latest=True)
            compare(ctx, w, mm, p, q, qs, way["way"])
        del w.M[n_before:]
    if n >= 3:
        ctx.mark()


# ---------------------------------------------------------------------------
# Forms.


def strategy_forms():
    lin = gen.ops_linear()
    stages = [
        (lin, 0, 4),
        ([gen.op_cross(nest=True)], 0, 1),
        ([gen.op_cond(max_pairs=2, hi=3, m=0)], 0, 1),
    ]
    ex = gen.d(
        m=st.integers(0, 1),
        p=gen.idx,
        q=gen.idx,
        x=st.lists(
            st.lists(st.integers(-4, 4), min_size=2, max_size=2), min_size=1, max_size=6
        ),
        ints=st.booleans(),
        y=st.lists(st.integers(-3, 3), min_size=1, max_size=6),
        nv=st.sampled_from([1, 2, 3, 0.25, 0.5, 1.75]),
        nt=st.sampled_from(["scal", "vec"]),
        forms=st.lists(
            gen.d(
                x=st.integers(0, 7), n=st.integers(0, 7), y=st.integers(0, 5), how=gen.how
            ),
            min_size=2,
            max_size=5,
        ),
    )
    return st.tuples(gen.program(stages, query=1, delta=False), ex).map(
        lambda t: dict(t[0], qs=[], **t[1])
    )


def x_forms(X, ints):
    """All forms of the same inputs."""
    import numpy as np

    dt = [float] + ([int, np.int32] if ints else [])
    out = []
    for t in dt:
        out.append(X.astype(t))
        if X.shape[1] == 1:
            out.append(X[:, 0].astype(t))
            if len(X) == 1:
                out.append(X[0, 0].astype(t))
                out.append(np.array(X[0, 0].astype(t)))
                out.append(t(X[0, 0]) if t is not np.int32 else int(X[0, 0]))
    out.append(np.asfortranarray(X))
    out.append(np.repeat(X, 2, axis=0)[::2])
    return out


def noise_forms(v, n, scalar):
    """All forms of the same noise."""
    import matrix
    import numpy as np

    d = np.full(n, float(v)) if scalar else v + np.arange(n) / 2
    out = [d, np.diag(d), matrix.Diagonal(d), matrix.Dense(np.diag(d))]
    if scalar:
        out += [
            float(v),
            v,
            np.float64(v),
            np.array(float(v)),
            np.full(n, v),
            np.diag(np.full(n, v)),
            matrix.Diagonal(np.ones(n)) * float(v),
        ]
    return np.diag(d), out


def y_forms(y):
    import numpy as np

    n = len(y)
    out = [y.astype(float), y.astype(float)[:, None], y.astype(int), y.astype(int)[:, None]]
    if n == 1:
        out += [float(y[0]), int(y[0]), np.float64(y[0]), np.array(float(y[0]))]
    return out


def check_forms(ctx, case):
    import numpy as np

    from .. import ref
    from ..core import close, ok_cond
    from ..interp import S, World, wide
    from ..query import prior_scale

    w = World(ctx, d=case["d"]).run(case["ops"])
    m = w.meas(case["m"])
    if w.fragile(m):
        return
    p = w.pick(case["p"], lambda p: m.ref in p.ref.measures)
    q = w.pick(case["q"], lambda q: m.ref in q.ref.measures)
    if p is None:
        return
    ints = case["ints"]
    X = wide(case["x"], p.ref.need) / (1 if ints else 4)
    Z = wide([[0.25, -1.0], [1.5, 2.0]], q.ref.need)
    n = len(X) * p.D
    y = np.resize(case["y"], n)
    N, noises = noise_forms(case["nv"], n, case["nt"] == "scal")
    if w.degenerate:
        # See `World.fragile`.
        noises = [v for v in noises if np.ndim(v) == 2]
    xs, ys = x_forms(X, ints), y_forms(y)
    ro = ref.RefObs(p.ref.form(m.ref, X), N, y.astype(float), ctx)
    rpost = m.ref.condition(ro)
    if not ok_cond(ctx):
        return
    f, g = ro.form, q.ref.form(m.ref, Z)
    mean, K = m.ref.mean(f), m.ref.cov(f, f) + N
    kw = dict(scale=max(1.0, prior_scale(m, [f, g])))
    want = ro.logpdf()
    lkw = dict(scale=max(1.0, n, float((y - mean) @ np.linalg.solve(ro.K, y - mean))))
    sd = np.sqrt(np.diag(K))
    for form in case["forms"]:
        x = xs[form["x"] % len(xs)]
        z = noises[form["n"] % len(noises)]
        v = ys[form["y"] % len(ys)]
        tag = (
            f"inputs {type(x).__name__} {getattr(x, 'dtype', '')} {np.shape(x)}, noise "
            f"{type(z).__name__} {getattr(z, 'dtype', '')} {np.shape(z)}, values "
            f"{type(v).__name__} {getattr(v, 'dtype', '')} {np.shape(v)}"
        )
        ctx.label(f"inputs {type(x).__name__} {getattr(x, 'dtype', '')} {np.ndim(x)}")
        ctx.label(f"noise {type(z).__name__} {np.ndim(z)}")

        def fdd():
            return m.m(p.gp)(x, z) if form["how"] % 2 else m.m(p.gp(x, z))

        def moments():
            d = fdd()
            close(ctx, f"mean, {tag}", d.mean, mean[:, None], **kw)
            close(ctx, f"variance, {tag}", d.var, K, **kw)

        def marginals():
            a, b = fdd().marginals()
            close(ctx, f"marginal means, {tag}", a, mean, **kw)
            close(ctx, f"marginal variances, {tag}", b, np.diag(K), **kw)
            _, lo, hi = fdd().marginal_credible_bounds()
            close(ctx, f"lower bounds, {tag}", lo, mean - 1.96 * sd, **kw)
            close(ctx, f"upper bounds, {tag}", hi, mean + 1.96 * sd, **kw)

        def logpdf():
            close(ctx, f"logpdf, {tag}", fdd().logpdf(v), want, **lkw)
            close(ctx, f"logpdf of measure, {tag}", m.m.logpdf(p.gp(x, z), v), want, **lkw)

        def cond():
            if form["how"] % 2:
                post = m.m | (p.gp(x, z), v)
            else:
                post = m.m | S.Obs(p.gp(x, z), v)
            h = q.ref.form(rpost, Z)
            d = post(q.gp(Z))
            close(ctx, f"posterior mean, {tag}", d.mean, rpost.mean(h)[:, None], **kw)
            close(ctx, f"posterior variance, {tag}", d.var, rpost.cov(h, h), **kw)

        def sample():
            s = fdd().sample(3)
            close(ctx, f"sample, {tag}", np.zeros_like(s), np.zeros((n, 3)))
            s = m.m.sample(p.gp(x, z))
            close(ctx, f"sample, {tag}", np.zeros_like(s), np.zeros((n, 1)))

        fs = [moments, marginals, logpdf, cond, sample]
        k = form["how"] % len(fs)
        for h in fs[k:] + fs[:k]:
            h()
    if len({(f["x"] % len(xs), f["n"] % len(noises)) for f in case["forms"]}) > 1:
        ctx.mark()


# ---------------------------------------------------------------------------
# Rewrites.

# Expressions are nested lists.
NUM = st.sampled_from([-2.0, -1.0, -0.5, 0.5, 1.0, 2.0, 3.0])


def expr():
    leaf = st.tuples(st.just("p"), st.integers(0, 2)).map(list)

    def extend(e):
        return gen.either(
            [
                st.tuples(st.just("+"), e, e).map(list),
                st.tuples(st.just("+"), e, e).map(list),
                st.tuples(st.just("-"), e, e).map(list),
                st.tuples(st.just("*"), NUM, e).map(list),
                st.tuples(st.just("neg"), e).map(list),
                st.tuples(st.just("/"), e, NUM).map(list),
                st.tuples(st.just("+c"), e, NUM).map(list),
                st.tuples(st.just("+f"), e, st.sampled_from(gen.FN_NAMES)).map(list),
                st.tuples(st.just("*f"), e, st.sampled_from(gen.FN_NAMES)).map(list),
                st.tuples(st.just("shift"), e, NUM).map(list),
                st.tuples(
                    st.just("stretch"), e, st.sampled_from([0.5, 0.75, 1.0, 2.0, -1.0])
                ).map(list),
            ]
        )

    return st.recursive(leaf, extend, max_leaves=5)


def strategy_rewrites():
    return gen.d(
        d=st.integers(1, 2),
        base=st.lists(gen.op_gp(special=False, delta=False), min_size=1, max_size=3),
        e=expr(),
        where=st.lists(st.integers(0, 99), min_size=1, max_size=6),
        obs=st.one_of(
            st.none(), gen.op_cond(max_pairs=2, hi=3, m=0), gen.op_pseudo(hi=3, m=0)
        ),
        early=st.booleans(),
        x=gen.points(1, 4),
        y=gen.points(1, 3),
    )


def rewrites(e):
    """All expressions that are equal to `e` by one identity applied at the root."""
    out = []
    t = e[0]
    zero = ["*", 1.0, e]
    out += [zero, ["neg", ["neg", e]], ["-", ["+", e, ["p", 0]], ["p", 0]]]
    out += [["/", ["+", e, e], 2.0], ["-", ["*", 2.0, e], e], ["+c", ["+c", e, 2.0], -2.0]]
    out += [["shift", ["shift", e, 0.5], -0.5], ["stretch", ["stretch", e, 2.0], 0.5]]
    out += [["-", ["+f", e, "sin"], ["-", ["+f", e, "sin"], e]]]
    if t == "+":
        a, b = e[1:]
        out += [["+", b, a], ["-", a, ["neg", b]], ["-", b, ["*", -1.0, a]]] * 2
        for k in (1, 2):
            if e[k][0] == "+":
                x, y, z = e[3 - k], *e[k][1:]
                out += [["+", ["+", x, y], z], ["+", y, ["+", z, x]]] * 2
    if t == "-":
        a, b = e[1:]
        out += [["+", a, ["neg", b]], ["neg", ["-", b, a]], ["+", ["*", -1.0, b], a]] * 2
    if t in ("*", "neg", "/"):
        c, a = {
            "*": lambda: (e[1], e[2]),
            "neg": lambda: (-1.0, e[1]),
            "/": lambda: (1 / e[2], e[1]),
        }[t]()
        out += [["*", c, a], ["/", a, 1 / c], ["neg", ["*", -c, a]]] * 2
        out += [["*", c / 2, ["*", 2.0, a]]]
        if a[0] in ("+", "-"):
            out += [[a[0], ["*", c, a[1]], ["*", c, a[2]]]] * 4
        if a[0] in ("shift", "stretch"):
            out += [[a[0], ["*", c, a[1]], a[2]]] * 4
        if a[0] == "+c":
            out += [["+c", ["*", c, a[1]], c * a[2]]] * 4
        if a[0] == "*f":
            out += [["*f", ["*", c, a[1]], a[2]]] * 4
    if t == "+c":
        a, c = e[1:]
        out += [["neg", ["+c", ["neg", a], -c]], ["+c", ["+c", a, c / 2], c / 2]] * 2
    if t == "*f":
        a, f = e[1:]
        if a[0] in ("+", "-"):
            out += [[a[0], ["*f", a[1], f], ["*f", a[2], f]]] * 4
        out += [["neg", ["*f", ["neg", a], f]]]
    if t == "+f":
        a, f = e[1:]
        out += [["neg", ["-", ["neg", a], ["-", ["+f", a, f], a]]]] * 2
        out += [["+", ["-", ["+f", ["p", 0], f], ["p", 0]], a]] * 2
    if t in ("shift", "stretch"):
        a, c = e[1:]
        if a[0] in ("+", "-"):
            out += [[a[0], [t, a[1], c], [t, a[2], c]]] * 4
        if a[0] == t:
            out += [[t, a[1], c + a[2] if t == "shift" else c * a[2]]] * 4
        if a[0] in ("*", "neg"):
            out += [a[:-1] + [[t, a[-1], c]]] * 4
        if t == "shift" and a[0] == "stretch":
            out += [["stretch", ["shift", a[1], c / a[2]], a[2]]] * 4
        if t == "stretch" and a[0] == "shift":
            out += [["shift", ["stretch", a[1], c], c * a[2]]] * 4
    return out


def positions(e, path=()):
    yield path
    for i, s in enumerate(e):
        if i and isinstance(s, list):
            yield from positions(s, path + (i,))


def rewrite(e, k):
    """Apply an identity somewhere."""
    ps = list(positions(e))
    path = ps[k % len(ps)]

    def go(e, path):
        if not path:
            out = rewrites(e)
            return out[(k // len(ps)) % len(out)] if out else e
        e = list(e)
        e[path[0]] = go(e[path[0]], path[1:])
        return e

    return go(e, path)


def size(e):
    return 1 + sum(size(s) for s in e[1:] if isinstance(s, list))


def evaluate(e, ps, memo=None):
    from ..interp import FN

    t = e[0]
    if t == "p":
        return ps[e[1] % len(ps)]
    if t == "*":
        return e[1] * evaluate(e[2], ps)
    a = evaluate(e[1], ps)
    if t == "+":
        return a + evaluate(e[2], ps)
    if t == "-":
        return a - evaluate(e[2], ps)
    if t == "neg":
        return -a
    if t == "/":
        return a / e[2]
    if t == "+c":
        return a + e[2]
    if t == "+f":
        return a + FN[e[2]]
    if t == "*f":
        return a * FN[e[2]]
    if t == "shift":
        return a.shift(e[2])
    return a.stretch(e[2])


def check_rewrites(ctx, case):
    import numpy as np

    from ..core import close, ok_cond, to_np
    from ..interp import World, wide, x_arg

    w = World(ctx, d=case["d"])
    need = min(case["base"][0]["dim"], case["d"])
    ops = [dict(op, dim=need) for op in case["base"]]
    if case["obs"] is not None:
        # Only the processes of the prior.
        case["obs"]["how"] %= 6
        ops = ops + [case["obs"]] if not case["early"] else ops
    w.run(ops)
    ps = [p.gp for p in w.P]
    e1, e2 = case["e"], case["e"]
    for k in case["where"]:
        new = rewrite(e2, k)
        if size(new) <= 40:
            e2 = new
    a, b = evaluate(e1, ps), evaluate(e2, ps)
    d = a - b
    if case["early"] and case["obs"] is not None:
        w.run([case["obs"]])
    if not ok_cond(ctx):
        return
    X = wide(case["x"], need) / 4
    Y = wide(case["y"], need) / 4
    x, y = x_arg(X, 1, w.bk), x_arg(Y, 2, w.bk)
    if len(w.M) > 1 and a.measure is w.M[0].m and len(w.M[0].m.ps) != len(w.M[1].m.ps):
        # Processes that were made after conditioning do not belong to the posterior.
        ms = w.M[:1]
    else:
        ms = w.M
    if len(w.M) > 1:
        ctx.label("posterior" if len(ms) > 1 else "composed after conditioning")
    for m in ms:
        k = m.m.kernels
        prior = w.M[0].m.kernels
        s = max(
            1.0,
            float(np.max(np.abs(to_np(prior[a](x))))),
            float(np.max(np.abs(to_np(prior[a](y))))),
            float(np.max(np.abs(to_np(w.M[0].m.means[a](x))))),
            *[float(np.max(np.abs(to_np(prior[q](x))))) for q in ps],
        )
        # Cancellation in the sums that make up the expressions.
        kw = dict(scale=s * max(size(e1), size(e2)) * 100, rtol=0.0, atol=1e-12)
        zero = np.zeros
        nx, ny = len(X), len(Y)
        close(ctx, "mean of difference", m.m.means[d](x), zero((nx, 1)), **kw)
        close(ctx, "variance of difference", k[d](x), zero((nx, nx)), **kw)
        close(ctx, "covariance of difference", k[d](x, y), zero((nx, ny)), **kw)
        close(ctx, "elementwise", k[d].elwise(x), zero((nx, 1)), **kw)
        for q in ps + [a, b]:
            close(
                ctx, "cross-covariance of difference", k[d, q](x, y), zero((nx, ny)), **kw
            )
            close(
                ctx, "cross-covariance of difference", k[q, d](y, x), zero((ny, nx)), **kw
            )
        for q in ps + [a]:
            close(ctx, "cross-covariance", k[a, q](x, y), to_np(k[b, q](x, y)), **kw)
        close(ctx, "means", m.m.means[a](x), to_np(m.m.means[b](x)), **kw)
        if s > 0 and e1 != e2 and np.max(np.abs(to_np(k[a](x)))) > 1e-6:
            ctx.mark()
    ctx.label(f"size {min(size(e2) // 10 * 10, 30)}+")


PARTS = {
    "orders": {
        "strategy": strategy_orders,
        "check": check_orders,
        "quick": 240,
        "thorough": 15000,
    },
    "forms": {
        "strategy": strategy_forms,
        "check": check_forms,
        "quick": 500,
        "thorough": 20000,
    },
    "rewrites": {
        "strategy": strategy_rewrites,
        "check": check_rewrites,
        "quick": 300,
        "thorough": 20000,
    },
}
