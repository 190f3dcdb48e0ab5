"""Batched computation."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "A case is a generated program (1-3 base GPs, composing operations of which scales, "
    "additive constants, shifts and stretches may be batches of values, possibly a "
    "Cartesian product), a batch shape of rank one or two, and one or two observations "
    "and a test location, where inputs, noise and values are batches or not in any "
    "combination. Moments, marginals, log-probabilities, posteriors (exact, sequential "
    "and with inducing points), ELBOs, entropies, divergences, transformed distributions "
    "and samples are compared with the dense reference for every element of the batch by "
    "itself. Non-trivial: the batch has at least two elements, for which the results "
    "differ, and the problem is well conditioned (< 1e7)."
)
ASSUMPTIONS = [
    "Missing values in batches are excluded (documented as unsupported).",
    "A result may lack batch dimensions that no argument it depends on has; it is compared "
    "after broadcasting.",
    "Hyperparameters in batches: scales, constants, shifts and stretches of processes, with "
    "two trailing dimensions of size one.",
    "Moments of samples are tested within eight standard deviations.",
    "Kernels of full rank only: the matrix library adds batches of low-rank matrices wrongly.",
]

BATCHES = [[2], [3], [2], [3], [1], [2, 2], [2, 1], [1, 3], [2, 3]]


def item(noises, lo=1, hi=4):
    return gen.d(
        p=gen.idx,
        x=gen.points(lo, hi),
        r=st.integers(0, 2),
        xb=st.sampled_from([True, True, False]),
        yb=st.sampled_from([True, True, False]),
        y=gen.ys(),
        n=gen.d(
            t=st.sampled_from(noises),
            v=st.lists(st.integers(1, 12), min_size=2, max_size=4),
        ),
    )


DENSE = ["none", "scal", "scal", "vec", "mat", "bmat", "bdiag", "bdiag"]
DIAG = ["scal", "vec", "bdiag", "bdiag"]


def extra(kind):
    pos = kind == "post"
    kw = dict(
        batch=st.sampled_from(BATCHES),
        db=st.lists(st.integers(-4, 4), min_size=3, max_size=8),
        hyp=st.lists(st.booleans(), min_size=6, max_size=6),
        items=st.lists(item(DENSE), min_size=1, max_size=2),
        z=item(DENSE, hi=3),
        lhow=gen.how,
        split=st.booleans(),
    )
    if pos:
        kw["items"] = st.lists(item(DIAG + ["mat"]), min_size=1, max_size=2)
        kw["u"] = item(["none", "none", "scal"], hi=3)
        kw["method"] = st.sampled_from(["exact", "exact", "vfe", "fitc", "dtc"])
    return gen.d(**kw)


def strategy(kind):
    lin = gen.ops_linear(zero_ok=False)
    lin = lin + [o for o in lin[3:9]]
    stages = [
        (lin, 0, 4),
        ([gen.op_cross()], 0, 1),
        (lin[:5], 0, 1),
    ]
    # The matrix library adds low-rank matrices in batches wrongly (`align`).
    prog = gen.program(stages, query=1, delta=False, special=False)
    return st.tuples(prog, extra(kind)).map(lambda t: dict(t[0], qs=[], **t[1]))


class Batch:
    """A program with batched hyperparameters, and the program of every element."""

    def __init__(self, ctx, case):
        import itertools

        import numpy as np

        from ..interp import World

        self.np, self.ctx = np, ctx
        self.shape = tuple(case["batch"])
        self.index = list(itertools.product(*[range(n) for n in self.shape]))
        self.size = len(self.index)
        self.db = [
            1 + i * (v or 1) / 32
            for i, v in enumerate(np.resize(case["db"], max(self.size, 1)))
        ]
        self.hyper, self.several = False, False
        self.all = case["split"] or case["lhow"] % 3 > 0
        ops, k = [], 0
        each = [[] for _ in self.index]
        for op in case["ops"]:
            use = False
            if op["op"] in ("mul", "shiftval", "shift", "stretch"):
                use = case["hyp"][k % len(case["hyp"])]
                k += 1
            if use:
                if op["op"] in ("shift", "stretch"):
                    op = dict(op, how=0)
                cs = [op["c"] * d for d in self.db]
                ops.append(dict(op, c=np.array(cs).reshape(*self.shape, 1, 1)))
                for i, c in enumerate(cs):
                    each[i].append(dict(op, c=c))
                self.hyper = True
            else:
                ops.append(op)
                for e in each:
                    e.append(op)
        self.w = World(ctx, d=case["d"]).run(ops)
        # The programs of the elements only provide references.
        self.each = [World(type(ctx)(), d=case["d"]).run(e) for e in each]
        self.fragile = self.w.degenerate and self.w.summed
        if self.hyper:
            ctx.label("batched hyperparameters")

    def stack(self, xs):
        np = self.np
        xs = [np.asarray(x, float) for x in xs]
        return np.stack(xs).reshape(*self.shape, *xs[0].shape)

    def index_of(self, p):
        return self.w.P.index(p)

    def inputs(self, p, it):
        """The argument, and the points of every element."""
        from ..interp import grid, x_arg

        X = grid(it["x"], p.ref.need)
        # The outputs of a Cartesian product must all be batched or all not.
        batched = it["xb"]
        if p.D > 1 or self.several:
            batched = self.all or self.hyper
        if not batched:
            # With batched hyperparameters, inputs must be columns.
            return x_arg(X, 2 if self.hyper else it["r"], self.w.bk), [X] * self.size
        Xs = [X * d + (d - 1) for d in self.db]
        return self.stack(Xs), Xs

    def noise(self, spec, n):
        import matrix

        from ..interp import noise_arg, noise_matrix

        np, t = self.np, spec["t"]
        if self.w.degenerate and t == "none":
            t = "scal"
        if self.fragile:
            t = {"scal": "mat", "vec": "mat", "bdiag": "bmat"}.get(t, t)
        self.ctx.label(f"noise {t}")
        if t not in ("bmat", "bdiag"):
            spec = dict(spec, t=t)
            return noise_arg(spec, n, self.w.bk), [noise_matrix(spec, n)] * self.size
        N = noise_matrix(dict(spec, t="diag" if t == "bdiag" else "dense"), n)
        Ns = [N * d for d in self.db]
        if t == "bmat":
            return self.stack(Ns), Ns
        return matrix.Diagonal(self.stack([np.diag(K) for K in Ns])), Ns

    def fdd(self, it, ok=lambda p: True, none=False, p=None):
        """Distribution, and the form and noise matrix of every element."""
        if p is None:
            p = self.w.pick(it["p"], ok)
        if p is None:
            return None
        arg, Xs = self.inputs(p, it)
        n = len(Xs[0]) * p.D
        noise, Ns = self.noise(dict(it["n"], t="none") if none else it["n"], n)
        f = p.gp(arg, noise)
        i = self.index_of(p)
        forms = []
        for w, X in zip(self.each, Xs):
            q = w.P[i].ref
            forms.append(lambda m, q=q, X=X: q.form(m, X))
        return f, forms, Ns, n, p

    def values(self, it, n, offset=0):
        from ..interp import values

        y = values(it["y"], n, offset)
        if self.all if self.several else it["yb"]:
            ys = [y * d + (d - 1) for d in self.db]
            return self.stack([v[:, None] for v in ys]), ys
        return (y[:, None] if it["r"] else y), [y] * self.size

    def same(self, what, got, wants, scale=1.0):
        """Compare with the results per element."""
        from ..core import Violation, close, to_np

        np = self.np
        want = self.stack(wants)
        got = to_np(got)
        try:
            g = np.broadcast_to(got, want.shape)
        except ValueError:
            raise Violation(f"{what}: shape {got.shape}, expected {want.shape}.")
        close(self.ctx, what, g, want, scale=scale)
        w0 = want.reshape(self.size, -1)
        if self.size > 1 and np.max(np.abs(w0 - w0[0]), initial=0) > 1e-6:
            self.ctx.mark()


def checks_of(ctx, b, m, refs, f, forms, Ns, scales, how, label):
    """Everything about a distribution under a measure."""
    np = b.np
    mean = [r.mean(F(r)) for r, F in zip(refs, forms)]
    var = [r.cov(F(r), F(r)) + N for r, F, N in zip(refs, forms, Ns)]
    vd = [np.diag(V) for V in var]
    s = scales

    def get():
        return m(f)

    d = get()

    def q_mean():
        b.same(f"{label}: mean", d.mean, [v[:, None] for v in mean], s)

    def q_var():
        b.same(f"{label}: var", d.var, var, s)

    def q_diag():
        b.same(f"{label}: var_diag", d.var_diag, vd, s)

    def q_marg():
        mm, mv = get().marginals()
        b.same(f"{label}: marginal means", mm, mean, s)
        b.same(f"{label}: marginal variances", mv, [np.maximum(v, 0) for v in vd], s)

    def q_bounds():
        mm, lo, up = get().marginal_credible_bounds()
        if min(v.min() for v in vd) < 1e-6 * s:
            return
        b.same(f"{label}: credible mean", mm, mean, s)
        e = [1.96 * np.sqrt(v) for v in vd]
        b.same(f"{label}: lower bounds", lo, [a - c for a, c in zip(mean, e)], s)
        b.same(f"{label}: upper bounds", up, [a + c for a, c in zip(mean, e)], s)

    def q_mean_var():
        mm, V = get().mean_var
        b.same(f"{label}: mean_var", mm, [v[:, None] for v in mean], s)
        b.same(f"{label}: mean_var", V, var, s)

    def q_m2():
        want = [V + np.outer(u, u) for V, u in zip(var, mean)]
        s2 = max(s, max(float(np.max(np.abs(w), initial=0)) for w in want))
        b.same(f"{label}: m2", d.m2, want, s2)

    qs = [q_mean, q_var, q_diag, q_marg, q_bounds, q_mean_var, q_m2]
    k = how % len(qs)
    for q in qs[k:] + qs[:k]:
        q()
    return mean, var


def scale_of(b, refs, formss):
    from ..interp import Meas
    from ..query import prior_scale

    return max(
        1.0,
        *(
            prior_scale(Meas(None, r), [F[i](r) for F in formss])
            for i, r in enumerate(refs)
        ),
    )


def check_prior(ctx, case):
    import lab as B

    from .. import ref
    from ..core import close, ok_cond, require, to_np
    from ..interp import S

    b = Batch(ctx, case)
    np = b.np
    m = b.w.M[0].m
    refs = [w.M[0].ref for w in b.each]
    how = case["lhow"]
    first = b.fdd(case["items"][0])
    f, forms, Ns, n, p = first
    s = scale_of(b, refs, [forms])
    ctx.label(f"batch rank {len(b.shape)}")
    mean, var = checks_of(ctx, b, m, refs, f, forms, Ns, s, how, "f")

    # Kernels between different inputs.
    z = b.fdd(case["z"])
    sz = max(s, scale_of(b, refs, [z[1]]))
    want = [r.cov(F(r), G(r)) for r, F, G in zip(refs, forms, z[1])]
    b.same("cross-covariance", m.kernels[p.gp, z[4].gp](f.x, z[0].x), want, sz)

    for V in var:
        ctx.note_cond(ref._cond(V + 1e-12 * np.eye(n)))
    if not ok_cond(ctx):
        return
    # Log-probabilities.
    yarg, ys = b.values(case["items"][0], n)
    wants = [ref.gauss_logpdf(V, y - u) for V, y, u in zip(var, ys, mean)]
    sl = max(1.0, n, s, max(abs(v) for v in wants))
    quads = [r @ np.linalg.solve(V, r) for V, r in zip(var, np.subtract(ys, mean))]
    sl = max(sl, *quads)
    if how % 3 == 0:
        b.same("logpdf", m.logpdf(f, yarg), wants, sl)
    elif how % 3 == 1:
        b.same("logpdf", m(f).logpdf(yarg), wants, sl)
    else:
        b.same("logpdf", m.logpdf(S.Observations(f, yarg)), wants, sl)
    if yarg.ndim >= 2:
        Y = np.concatenate([yarg, 2 * yarg + 1, -yarg], axis=-1)
        wants = [
            [ref.gauss_logpdf(V, v - u) for v in (y, 2 * y + 1, -y)]
            for V, y, u in zip(var, ys, mean)
        ]
        b.same("logpdf of columns", m(f).logpdf(Y), wants, 16 * sl)

    # Entropies and divergences.
    lds = [np.linalg.slogdet(V)[1] for V in var]
    c = n * (1 + np.log(2 * np.pi))
    b.same("entropy", m(f).entropy(), [(v + c) / 2 for v in lds], s + n)
    it = dict(case["items"][0], x=case["items"][0]["x"], n=case["z"]["n"])
    it["xb"] = case["z"]["xb"]
    g, forms2, Ns2, n2, _ = b.fdd(it, p=p)
    mean2 = [r.mean(F(r)) for r, F in zip(refs, forms2)]
    var2 = [r.cov(F(r), F(r)) + N + 0.5 * np.eye(n) for r, F, N in zip(refs, forms2, Ns2)]
    mean2 = [u + 0.25 for u in mean2]
    g = S.Normal(B.add(m(g).mean, 0.25), B.add(m(g).var, B.fill_diag(0.5, n)))
    wants, dist = [], []
    for V, u, W, v in zip(var, mean, var2, mean2):
        r = u - v
        iW = np.linalg.inv(W)
        kl = np.trace(iW @ V) + r @ iW @ r - n
        wants.append((kl + np.linalg.slogdet(W)[1] - np.linalg.slogdet(V)[1]) / 2)
        e, Q = np.linalg.eigh(V)
        R = (Q * np.sqrt(np.maximum(e, 0))) @ Q.T
        tr = np.sqrt(np.maximum(np.linalg.eigvalsh(R @ W @ R), 0)).sum()
        dist.append(r @ r + np.trace(V) + np.trace(W) - 2 * tr)
    sk = n * max(s, *map(abs, wants))
    b.same("kl", m(f).kl(g), wants, sk)
    # Squared, because of the square root at zero.
    b.same("w2", to_np(m(f).w2(g)) ** 2, dist, sk * n)

    # Transformed distributions.
    A = (np.arange(2 * n).reshape(2, n) % 3 - 1.0) / 2 + 0.25
    k = how % 6
    if k == 0:
        h = m(f).lmatmul(A)
        b.same("lmatmul", h.mean, [A @ u[:, None] for u in mean], n * s)
        b.same("lmatmul", h.var, [A @ V @ A.T for V in var], n * s)
    elif k == 1:
        h = m(f).rmatmul(A.T)
        b.same("rmatmul", h.mean, [A @ u[:, None] for u in mean], n * s)
        b.same("rmatmul", h.var, [A @ V @ A.T for V in var], n * s)
    elif k == 2:
        As = [A * d for d in b.db]
        h = m(f).lmatmul(b.stack(As))
        b.same("lmatmul", h.mean, [a @ u[:, None] for a, u in zip(As, mean)], n * s)
        b.same("lmatmul", h.var, [a @ V @ a.T for a, V in zip(As, var)], n * s)
    elif k == 3:
        h = m(f).diagonalise()
        b.same("diagonalise", h.mean, [u[:, None] for u in mean], s)
        b.same("diagonalise", h.var, [np.diag(np.diag(V)) for V in var], s)
    elif k == 4:
        h = 2 * m(f) + 1
        b.same("2 * f + 1", h.mean, [2 * u[:, None] + 1 for u in mean], s)
        b.same("2 * f + 1", h.var, [4 * V for V in var], 4 * s)
    else:
        h = m(f) - g
        b.same("f - g", h.mean, [(u - v)[:, None] for u, v in zip(mean, mean2)], s)
        b.same("f - g", h.var, [V + W for V, W in zip(var, var2)], 2 * s)

    # Samples.
    num = 400
    st_ = B.create_random_state(np.float64, seed=how)
    full = np.broadcast_shapes(b.shape, np.shape(to_np(m(f).var))[:-2])
    st_, x = m(f).sample(st_, num)
    x = to_np(x)
    require(
        x.ndim >= 2 and x.shape[-2:] == (n, num) and len(x.shape) <= 2 + len(b.shape),
        f"Samples have shape {x.shape}: expected {(*full, n, num)}.",
    )
    batched = x.shape[:-2] == b.shape
    # Shared randomness is only fine when nothing that is random is batched.
    needs = np.shape(to_np(m(f).var))[:-2] == b.shape
    require(batched or not needs, f"Samples of shape {x.shape} for batch {b.shape}.")
    zs = []
    for i, V, u in zip(b.index, var, mean):
        xi = np.broadcast_to(x, (*b.shape, n, num))[i]
        L = np.linalg.cholesky(V + 1e-12 * np.eye(n))
        zi = np.linalg.solve(L, xi - u[:, None])
        zs.append(zi)
    ctx.compared += 1
    for zi in zs:
        e = np.max(np.abs(zi.mean(axis=1))) * np.sqrt(num)
        require(e < 8, f"Sample: the mean is {e} standard errors off.")
        C = zi @ zi.T / num - np.eye(n)
        e = np.max(np.abs(C)) * np.sqrt(num / 2)
        require(e < 8, f"Sample: the covariance is {e} standard errors off.")
    if needs and b.size > 1:
        C = zs[0] @ zs[-1].T / num
        e = np.max(np.abs(C)) * np.sqrt(num)
        require(e < 8, "Samples of different elements of the batch are dependent.")
    close(ctx, "one sample", to_np(m(f).sample()).shape[-2:], (n, 1))


def check_post(ctx, case):
    from .. import ref
    from ..core import ok_cond
    from ..interp import S

    b = Batch(ctx, case)
    np = b.np
    m = b.w.M[0].m
    refs = [w.M[0].ref for w in b.each]
    how = case["lhow"]
    method = case["method"]
    if method != "exact" and b.fragile:
        return
    pairs, formss, Nss, yss = [], [], [], []
    seq = case["split"] and method == "exact" and not b.fragile
    b.several = len(case["items"]) > 1 and not seq
    for it in case["items"]:
        if method != "exact" and it["n"]["t"] == "mat":
            it = dict(it, n=dict(it["n"], t="bdiag"))
        f, forms, Ns, n, p = b.fdd(it)
        yarg, ys = b.values(it, n)
        pairs.append((f, yarg))
        formss.append(forms), Nss.append(Ns), yss.append(ys)
    b.several = False
    ctx.label(f"{len(pairs)} pair(s), {method}")
    ctx.label(f"batch rank {len(b.shape)}")

    def joint(i, ks):
        """Reference of element `i`: form, noise and values of some of the pairs."""
        N = np.zeros((0, 0))
        for k in ks:
            M, n = Nss[k][i], len(N)
            Z = np.zeros((n + len(M), n + len(M)))
            Z[:n, :n], Z[n:, n:] = N, M
            N = Z
        y = np.concatenate([yss[k][i] for k in ks])
        return (lambda r: ref.stack([formss[k][i](r) for k in ks])), N, y

    posts, elbos, exact = [], [], []
    if method == "exact":
        seq = seq and len(pairs) > 1
        for i, r in enumerate(refs):
            for ks in [[k] for k in range(len(pairs))] if seq else [range(len(pairs))]:
                form, N, y = joint(i, ks)
                ro = ref.RefObs(form(r), N, y, ctx)
                r = r.condition(ro)
            posts.append(r)
            if not seq:
                elbos.append(ro.logpdf())
                q = y - ro.measure.mean(ro.form)
                exact.append(q @ np.linalg.solve(ro.K, q))
        if not ok_cond(ctx):
            return
        if seq:
            post = (m | pairs[0]) | pairs[1]
            ctx.label("sequential")
        else:
            post = m.condition(*pairs) if how % 2 else m | S.Obs(*pairs)
            s = max(1.0, *map(abs, elbos), *exact)
            got = m.logpdf(*pairs)
            b.same("joint logpdf", got, elbos, s)
    else:
        u, uforms, uNs, _, _ = b.fdd(case["u"])
        for i, r in enumerate(refs):
            form, N, y = joint(i, range(len(pairs)))
            ro = ref.RefPseudo(method, uforms[i](r), uNs[i], form(r), np.diag(N), y, ctx)
            posts.append(r.condition(ro))
            if not ok_cond(ctx):
                return
            from .C05 import elbo_scale

            exact.append(elbo_scale(ro))
            elbos.append(ro.elbo)
        cls = {"vfe": S.PseudoObs, "fitc": S.PseudoObsFITC, "dtc": S.PseudoObsDTC}[method]
        obs = cls(u, *pairs)
        if how % 2:
            b.same("ELBO", obs.elbo(m), elbos, max(exact))
        post = m | obs
        b.same("ELBO", obs.elbo(m), elbos, max(exact))
    z, zforms, zNs, zn, zp = b.fdd(case["z"])
    s = scale_of(b, posts, [zforms])
    checks_of(ctx, b, post, posts, z, zforms, zNs, s, how, "posterior")
    # Cross-covariance of the posterior.
    f, p = pairs[0][0], pairs[0][0].p
    want = [r.cov(F(r), G(r)) for r, F, G in zip(posts, formss[0], zforms)]
    s = max(s, scale_of(b, posts, [formss[0]]))
    b.same("posterior cross-covariance", post.kernels[p, zp.gp](f.x, z.x), want, s)


PARTS = {
    "prior": {
        "strategy": lambda: strategy("prior"),
        "check": check_prior,
        "quick": 900,
        "thorough": 16000,
    },
    "posterior": {
        "strategy": lambda: strategy("post"),
        "check": check_post,
        "quick": 900,
        "thorough": 16000,
    },
}
