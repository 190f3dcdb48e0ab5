"""Sampling."""

from hypothesis import strategies as st

from .. import gen

gen.BIG = True

RULE = (
    "A case is a generated program (composed processes, Cartesian products, posteriors) "
    "and a joint sample of 1-3 finite-dimensional distributions under one of its "
    "measures, with or without noise. Every linear relation that holds almost surely (the "
    "null space of the reference covariance) must hold in every joint sample; the law of "
    "2000 samples, whitened by the reference, must have mean zero and unit covariance "
    "within eight standard errors; shapes, splitting over the distributions, and "
    "reproducibility from a state and from the global seed are checked. Part `backends`: "
    "sequences of samples with the global random state of NumPy, PyTorch, JAX, or TensorFlow "
    "are reproducible from the seed, consist of different numbers, and follow the law. "
    "Non-trivial: the joint sample has at least two dimensions."
)
ASSUMPTIONS = [
    "The law is tested through first and second moments only, loosely, so as never to "
    "raise an alarm by chance.",
    "Relations hold up to the jitter added to covariances (tolerance 2e-4 times scale).",
]


def strategy():
    lin = gen.ops_linear()
    stages = [
        (lin, 0, 4),
        ([gen.op_cross(nest=True)], 0, 1),
        ([gen.op_cond(max_pairs=2, hi=3), gen.op_pseudo(max_pairs=1, hi=3)], 0, 1),
        (lin[:4] + [gen.op_post()] * 3, 0, 2),
    ]
    ex = gen.d(
        lm=st.integers(0, 3),
        items=st.lists(
            gen.d(
                p=gen.idx,
                **gen.loc(1, 3, True),
                n=gen.noise(("none", "none", "none", "none", "scal", "vec", "mat", "diag")),
            ),
            min_size=1,
            max_size=3,
        ),
        seed=st.integers(0, 10**6),
        form=st.integers(0, 3),
        extra=st.sampled_from([None, None, 0.25, 1.0]),
    )
    prog = gen.program(stages, query=1)
    return st.tuples(prog, ex).map(lambda t: dict(t[0], qs=[], **t[1]))


NUM = 2000


def check(ctx, case):
    import numpy as np

    from .. import ref
    from ..core import close, ok_cond, require, to_np
    from ..interp import B, S, World
    from ..query import prior_scale

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    m = w.meas(-1 - case["lm"])
    home = None
    fdds, forms, Ns = [], [], []
    for it in case["items"]:
        p = w.pick(it["p"], w._together(m.ref, home, lambda p: True))
        if p is None:
            continue
        home = p.ref.home
        f, form, N, n = w.fdd(p, it, it["n"])
        fdds.append(f)
        forms.append(form(m.ref))
        Ns.append(N)
    if not fdds or not ok_cond(ctx):
        return
    F = ref.stack(forms)
    n = F.n
    N = np.zeros((n, n))
    i = 0
    for K in Ns:
        N[i : i + len(K), i : i + len(K)] = K
        i += len(K)
    mean, K = m.ref.mean(F), m.ref.cov(F, F) + N
    sizes = [f.n for f in forms]
    s = max(1.0, prior_scale(m, [F]))
    if n > 1:
        ctx.mark()

    def state(seed=case["seed"]):
        return B.create_random_state(np.float64, seed=seed)

    def sample(st_, num):
        """Joint sample: `(size of joint, num)`."""
        if len(fdds) == 1 and case["form"] % 2 == 0:
            f = fdds[0] if m.ref is home and case["form"] == 0 else m.m(fdds[0])
            st_, x = f.sample(st_, num)
            xs = (x,)
        else:
            res = m.m.sample(st_, num, *fdds)
            st_, xs = res[0], res[1:]
        require(len(xs) == len(sizes), f"{len(xs)} samples for {len(sizes)} distributions.")
        xs = [to_np(x) for x in xs]
        for x, k in zip(xs, sizes):
            require(x.shape == (k, num), f"Sample of shape {x.shape}: expected {(k, num)}.")
        return np.concatenate(xs, axis=0)

    x = sample(state(), NUM)
    # Reproducible.
    y = sample(state(), NUM)
    ctx.compared += 1
    require(np.array_equal(x, y), "The same state gives a different sample.")
    law(ctx, x, mean, K, s, "sample")
    st_ = state()
    a, b = sample(st_, 2), sample(st_, 2)
    if np.max(np.diag(K)) > 1e-3:
        require(not np.allclose(a, b), "Two consecutive samples are the same.")

    # The other spellings.
    k = case["form"]
    B.set_global_random_state(state())
    if k == 0:
        z = m.m.sample(3, *fdds)
        num = 3
    elif k == 1:
        z = m.m.sample(*fdds)
        num = 1
    elif k == 2:
        z = m.m.sample(state(), *fdds)
        z, num = z[1:], 1
        z = z[0] if len(z) == 1 else z
    else:
        z = m.m(S.combine(*fdds)).sample(3)
        num = 3
    if k != 3 and len(fdds) > 1:
        require(isinstance(z, (tuple, list)), f"Joint sample is a {type(z)}.")
        require(len(z) == len(fdds), f"{len(z)} samples for {len(fdds)} distributions.")
        for u, size in zip(z, sizes):
            require(to_np(u).shape == (size, num), f"Sample of shape {to_np(u).shape}.")
        z = np.concatenate([to_np(u) for u in z], axis=0)
    z = to_np(z)
    require(z.shape == (n, num), f"Sample of shape {z.shape}: expected {(n, num)}.")
    relations(ctx, z, mean, K, s, f"sample, spelling {k}")
    # The same random numbers as with an explicit state.
    full = m.m.sample(state(), num, *fdds)[1:]
    full = np.concatenate([to_np(u) for u in full], axis=0)
    close(ctx, f"sample, spelling {k}", z, full, rtol=1e-6, atol=1e-6, scale=10 * s)

    # Additional noise.
    if case["extra"]:
        f = m.m(S.combine(*fdds))
        _, u = f.sample(state(), NUM, noise=case["extra"])
        law(ctx, to_np(u), mean, K + case["extra"] * np.eye(n), s, "sample with noise")
        ctx.label("additional noise")


def relations(ctx, x, mean, K, s, what):
    """Linear relations that hold almost surely."""
    import numpy as np

    from ..core import require

    w, V = np.linalg.eigh(K)
    null = V[:, w < 1e-10 * s]
    if null.shape[1]:
        ctx.label("relations between components")
        e = np.max(np.abs(null.T @ (x - mean[:, None])))
        ctx.compared += 1
        require(
            e < 2e-4 * np.sqrt(s) * len(K),
            f"{what}: a relation that holds almost surely is violated by {e}.",
        )
    return w, V


def law(ctx, x, mean, K, s, what):
    import numpy as np

    from ..core import require

    w, V = relations(ctx, x, mean, K, s, what)
    a = w > 1e-6 * s
    if not a.any():
        return
    z = (V[:, a] / np.sqrt(w[a])).T @ (x - mean[:, None])
    num = x.shape[1]
    ctx.compared += 1
    e = np.max(np.abs(z.mean(axis=1))) * np.sqrt(num)
    require(e < 8, f"{what}: whitened mean is {e} standard errors off.")
    C = z @ z.T / num - np.eye(len(z))
    e = np.max(np.abs(C)) * np.sqrt(num / 2)
    require(e < 8, f"{what}: whitened covariance is {e} standard errors off.")


# ------------------------------------------------------------------------------
# Other backends, and the global random state.


def backend_strategy():
    lin = gen.ops_linear()
    stages = [
        (lin, 0, 3),
        ([gen.op_cross(nest=True)], 0, 1),
        ([gen.op_cond(max_pairs=1, hi=2)], 0, 1),
    ]
    ex = gen.d(
        bk=st.sampled_from(["numpy", "torch", "jax", "jax", "tensorflow"]),
        lm=st.integers(0, 3),
        items=st.lists(
            gen.d(p=gen.idx, **gen.loc(1, 3), n=gen.noise(("scal", "vec", "mat"), lo=4)),
            min_size=1,
            max_size=2,
        ),
        seed=st.integers(0, 10**6),
        form=st.lists(st.integers(0, 4), min_size=2, max_size=4),
        num=st.integers(1, 3),
    )
    prog = gen.program(stages, query=1, special=False)
    return st.tuples(prog, ex).map(lambda t: dict(t[0], qs=[], **t[1]))


def check_backend(ctx, case):
    import numpy as np

    from .. import backends, ref
    from ..core import ok_cond, require, to_np
    from ..interp import B, NumPy, S, World

    bk = NumPy if case["bk"] == "numpy" else backends.get(case["bk"])
    w = World(ctx, d=case["d"], bk=bk, unique=case["unique"]).run(case["ops"])
    m = w.meas(-1 - case["lm"])
    home = None
    fdds, forms, Ns = [], [], []
    for it in case["items"]:
        p = w.pick(it["p"], w._together(m.ref, home, lambda p: True))
        if p is None:
            continue
        home = p.ref.home
        f, form, N, _ = w.fdd(p, it, it["n"])
        fdds.append(f), forms.append(form(m.ref)), Ns.append(N)
    if not fdds or not ok_cond(ctx):
        return
    F = ref.stack(forms)
    mean, K = m.ref.mean(F), m.ref.cov(F, F)
    i = 0
    for N in Ns:
        K[i : i + len(N), i : i + len(N)] += N
        i += len(N)
    sizes = [f.n for f in forms]
    num = case["num"]

    def ask(form):
        """A sample, with the global random state."""
        if form == 0:
            return m.m.sample(num, *fdds)
        if form == 1:
            return m.m(S.combine(*fdds)).sample(num)
        if form == 2:
            return m.m(fdds[0]).sample(num)
        if form == 3:
            return m.m(fdds[-1]).sample()
        return m.m.sample(*fdds)

    def run():
        B.set_random_seed(case["seed"])
        out = []
        for form in case["form"]:
            x = ask(form)
            xs = x if isinstance(x, (tuple, list)) else [x]
            if bk is not NumPy:
                require(all(bk.is_mine(u) for u in xs), f"Sample of type {type(xs[0])}.")
            xs = [to_np(u) for u in xs]
            want = {1: [sum(sizes)], 2: sizes[:1], 3: sizes[-1:]}.get(form, sizes)
            k = 1 if form > 2 else num
            for u, size in zip(xs, want):
                require(u.shape == (size, k), f"Sample of shape {u.shape}: {(size, k)}.")
            out.append(np.concatenate([u.ravel() for u in xs]))
        return out

    a, b = run(), run()
    ctx.compared += len(a)
    ctx.label(case["bk"])
    for u, v in zip(a, b):
        require(np.array_equal(u, v), "The same seed gives other samples.")
    for i in range(len(a)):
        for j in range(i):
            k = min(len(a[i]), len(a[j]))
            u, v = np.sort(a[i])[:k], np.sort(a[j])[:k]
            require(not np.allclose(u, v), f"Samples {j} and {i} are the same.")
            # Also not the same numbers for some of the distributions.
            require(
                abs(a[i][-1] - a[j][-1]) > 1e-12 and abs(a[i][0] - a[j][0]) > 1e-12,
                f"Samples {j} and {i} agree in part.",
            )
    # The law, with an explicit state.
    state = B.create_random_state(B.dtype(bk.arr(0.0)), seed=case["seed"])
    res = m.m.sample(state, NUM, *fdds)
    x = np.concatenate([to_np(u) for u in res[1:]], axis=0)
    require(x.shape == (F.n, NUM), f"Sample of shape {x.shape}.")
    law(ctx, x, mean, K, max(1.0, float(np.max(np.abs(K)))), "sample")
    _, *again = m.m.sample(res[0], NUM, *fdds)
    again = np.concatenate([to_np(u) for u in again], axis=0)
    require(
        not np.allclose(x, again), "The random state that is returned does not advance."
    )
    ctx.mark()


PARTS = {
    "joint": {"strategy": strategy, "check": check, "quick": 900, "thorough": 16000},
    "backends": {
        "strategy": backend_strategy,
        "check": check_backend,
        "quick": 200,
        "thorough": 6000,
    },
}
