"""All array backends give the same answers, and can be differentiated and compiled."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "Part agree: a generated program (composition, Cartesian products, conditioning, "
    "inducing points) is executed with PyTorch, TensorFlow, or JAX arrays and all moments, "
    "log-probabilities, and ELBOs are compared with the NumPy reference; the answers must "
    "be arrays of that backend. Part differentiate: a generated model whose variances, "
    "length scales, weights, shifts, noise, inputs and data are arguments, and one of six "
    "objectives (log-probability, posterior mean/variance, ELBO, KL divergence, entropy) "
    "of it. The objective must agree between NumPy, PyTorch, TensorFlow, JAX and AutoGrad, "
    "its gradients with central finite differences, and the compiled with the plain "
    "objective, also at arguments other than those it was compiled at. Part single: "
    "programs with arrays of single precision and plain numbers give the reference's moments, "
    "log-probabilities and ELBOs up to single precision, of single precision where PyTorch or "
    "TensorFlow is used. Non-trivial: agree and single "
    "if moments of a conditioned or composed process were compared; differentiate if at "
    "least three gradients are not zero."
)
ASSUMPTIONS = [
    "Floating point numbers of 64 bits (part single: 32 bits, compared to 1e-3 where the "
    "condition number is at most 200) on the CPU.",
    "Constant and linear kernels are left out: the structured matrix library cannot add "
    "their low-rank matrices with PyTorch.",
    "Cases with condition number above 1e7 are counted, not compared.",
    "Gradients only of kernels that are differentiable everywhere.",
    "Compilation is by LAB's `B.jit` of JAX, and no data are missing. (Tracing by PyTorch "
    "turns sizes into tensors, and TensorFlow graphs refuse Python integers as scales, "
    "both in the libraries that stheno builds on.)",
]


def agree_strategy():
    lin = gen.ops_linear()
    cond = gen.op_cond(max_pairs=2, hi=3, parts=True, missing=False)
    missing = gen.op_cond(max_pairs=2, hi=3, parts=True, missing=True)
    stages = [
        (lin, 0, 3),
        ([gen.op_cross(nest=True)], 0, 1),
        ([cond, cond, missing, gen.op_pseudo(max_pairs=1, hi=3, missing=True)], 0, 2),
        (lin[:5] + [gen.op_post()] * 2, 0, 1),
    ]
    prog = gen.program(stages, query=1, parts=True, qhi=3, special=False)
    ex = gen.d(
        bk=st.sampled_from(["torch", "torch", "tensorflow", "tensorflow", "jax"]),
        lm=st.integers(0, 3),
        items=st.lists(gen.obs_item(1, 3, True), min_size=1, max_size=2),
        y=gen.ys(),
    )
    return st.tuples(prog, ex).map(lambda t: dict(t[0], **t[1]))


def check_agree(ctx, case):
    import numpy as np

    from .. import backends, ref
    from ..core import close, ok_cond, require
    from ..interp import World
    from ..query import check_pair, process_pair, specs
    from .C05 import elbo_scale

    bk = backends.get(case["bk"])
    ctx.label(bk.name)
    w = World(ctx, d=case["d"], bk=bk, unique=case["unique"]).run(case["ops"])
    if getattr(w, "last_pseudo", None) is not None:
        m, real, ro = w.last_pseudo
        # LAB casts constants through single precision with TensorFlow.
        kw = dict(scale=elbo_scale(ro), atol=1e-6 if bk.name == "tensorflow" else 1e-8)
        close(ctx, "ELBO", real.elbo(m.m), ro.elbo, **kw)
        require(bk.is_mine(real.elbo(m.m)), "The ELBO is not of the right backend.")
        ctx.label("ELBO")
    for qs in case["qs"]:
        m, p, q = process_pair(w, qs, latest=True)
        if check_pair(ctx, w, m, p, q, qs):
            x, _, n = w.inputs(p, specs(qs)[0])
            mean, var = m.m(p.gp(x)).marginals()
            if n:
                require(
                    bk.is_mine(mean) and bk.is_mine(var),
                    f"Marginals are {type(mean)} and {type(var)}.",
                )
            if m.ref.parent is not None or len(case["ops"]) > 2:
                ctx.mark()
    m = w.meas(-1 - case["lm"])
    obs = w.observe(m, case["items"], case["y"], lambda p: True)
    if obs is not None:
        pairs, form, N, y, ps = obs
        ro = ref.RefObs(form(m.ref), N, y, ctx)
        ro.bind(m.ref)
        if ok_cond(ctx) and len(y):
            r = y - m.ref.mean(ro.form)
            s = max(1.0, float(r @ np.linalg.solve(ro.K, r)), float(np.abs(y).max()))
            got = m.m.logpdf(*pairs)
            close(ctx, "log-probability", got, ro.logpdf(), scale=s)
            require(bk.is_mine(got), "The log-probability is not of the right backend.")


# ------------------------------------------------------------------------------
# Single precision.


def single_strategy():
    lin = gen.ops_linear()
    noisy = ("scal", "vec", "diag", "mat")
    cond = gen.op_cond(max_pairs=2, hi=3, parts=True, missing=True, noises=noisy)
    stages = [
        (lin, 0, 2),
        ([gen.op_cross(nest=True)], 0, 1),
        ([cond, gen.op_pseudo(max_pairs=1, hi=3, parts=True)], 0, 1),
        (lin[:5] + [gen.op_post()] * 2, 0, 1),
    ]
    prog = gen.program(stages, query=1, qhi=3, special=False, delta=False)
    ex = gen.d(
        bk=st.sampled_from(["numpy", "torch", "torch", "tensorflow", "jax"]),
        lm=st.integers(0, 3),
        items=st.lists(gen.obs_item(1, 3, True, noisy), min_size=1, max_size=2),
        y=gen.ys(),
    )
    return st.tuples(prog, ex).map(lambda t: dict(t[0], **t[1]))


class Single:
    """A backend that makes arrays of single precision."""

    def __init__(self, bk):
        self.bk = bk
        self.name = bk.name

    def arr(self, x):
        y = self.bk.arr(x)
        if self.name == "torch":
            import torch

            return y.to(torch.float32)
        if self.name == "tensorflow":
            import tensorflow as tf

            return tf.cast(y, tf.float32)
        return y.astype("float32")


def check_single(ctx, case):
    import numpy as np

    from .. import backends, ref
    from ..core import close, require
    from ..interp import NumPy, World
    from ..query import check_pair, process_pair
    from .C05 import elbo_scale

    bk = Single(NumPy if case["bk"] == "numpy" else backends.get(case["bk"]))
    ctx.label(f"single precision, {bk.name}")
    w = World(ctx, d=case["d"], bk=bk, unique=case["unique"]).run(case["ops"])
    if ctx.cond > 200:
        ctx.label("ill-conditioned for single precision (not compared)")
        return
    tol = dict(rtol=1e-3, atol=1e-3)
    if getattr(w, "last_pseudo", None) is not None:
        m, real, ro = w.last_pseudo
        close(ctx, "ELBO", real.elbo(m.m), ro.elbo, scale=elbo_scale(ro), **tol)
        ctx.label("ELBO")
    for qs in case["qs"]:
        m, p, q = process_pair(w, qs, latest=True)
        if check_pair(ctx, w, m, p, q, qs, **tol):
            ctx.mark()
    m = w.meas(-1 - case["lm"])
    obs = w.observe(m, case["items"], case["y"], lambda p: True)
    if obs is not None:
        pairs, form, N, y, ps = obs
        ro = ref.RefObs(form(m.ref), N, y, ctx)
        ro.bind(m.ref)
        if ctx.cond < 200 and len(y):
            r = y - m.ref.mean(ro.form)
            s = max(1.0, float(r @ np.linalg.solve(ro.K, r)), float(np.abs(y).max()))
            got = m.m.logpdf(*pairs)
            close(ctx, "log-probability", got, ro.logpdf(), scale=s, **tol)
            if bk.name in ("torch", "tensorflow"):
                ctx.label("data type")
                require("float32" in str(got.dtype), f"The data type is {got.dtype}.")


# ------------------------------------------------------------------------------

OBJECTIVES = ["logpdf", "logpdf", "mean", "var", "elbo", "kl", "entropy", "joint"]


def diff_strategy():
    i = gen.idx
    d, j = gen.d, st.just
    base = d(
        op=j("gp"),
        k=st.sampled_from(["EQ", "M32", "M52", "RQ"]),
        v=i,
        l=i,
        c=st.one_of(st.none(), i),
    )
    op = gen.either(
        [
            d(op=j("add"), p=i, q=i),
            d(op=j("scale"), p=i, c=i),
            d(op=j("shiftval"), p=i, c=i),
            d(op=j("shift"), p=i, c=i),
            d(op=j("stretch"), p=i, c=i),
            d(op=j("mulf"), p=i, c=i),
            d(op=j("addf"), p=i, c=i),
            d(op=j("cross"), p=i, q=i),
        ]
    )
    tenths = st.integers(5, 20)
    return d(
        bk=st.sampled_from(
            ["torch", "torch", "tensorflow", "tensorflow", "jax", "autograd", "autograd"]
        ),
        gps=st.lists(base, min_size=1, max_size=2),
        ops=st.lists(op, min_size=0, max_size=3),
        theta=st.lists(tenths, min_size=3, max_size=3),
        x=st.lists(st.integers(-12, 12), min_size=2, max_size=4, unique=True),
        z=st.lists(st.integers(-12, 12), min_size=1, max_size=3, unique=True),
        y=st.lists(st.integers(-9, 9), min_size=4, max_size=4),
        noise=st.sampled_from(["scal", "vec"]),
        obj=st.sampled_from(OBJECTIVES),
        method=st.sampled_from(["PseudoObs", "PseudoObsFITC", "PseudoObsDTC"]),
        p=i,
        q=i,
        jit=st.integers(0, 4),
    )


def objective(case):
    """A function of the parameters, the inputs, the data and the noise."""
    from ..interp import B, S

    def f(theta, x, y, noise):
        T = lambda i: theta[i % 3]  # noqa: E731
        m = S.Measure()
        P, D = [], []
        for g in case["gps"]:
            k = {
                "EQ": S.EQ,
                "M32": S.Matern32,
                "M52": S.Matern52,
                "RQ": lambda: S.RQ(0.5),
            }[g["k"]]()
            k = T(g["v"]) * k.stretch(T(g["l"]))
            if g["c"] is None:
                P.append(S.GP(k, measure=m))
            else:
                P.append(S.GP(T(g["c"]) * S.OneMean(), k, measure=m))
            D.append(1)
        for op in case["ops"]:
            one = [k for k in range(len(P)) if D[k] == 1]
            p = P[one[op["p"] % len(one)]]
            t = op["op"]
            D.append(1)
            if t == "add":
                P.append(p + P[one[op["q"] % len(one)]])
            elif t == "scale":
                P.append(T(op["c"]) * p)
            elif t == "shiftval":
                P.append(p - T(op["c"]))
            elif t == "shift":
                P.append(p.shift(T(op["c"])))
            elif t == "stretch":
                P.append(p.stretch(T(op["c"])))
            elif t == "mulf":
                P.append(p * (lambda x, c=T(op["c"]): 1 + c * x))
            elif t == "addf":
                P.append(p + (lambda x, c=T(op["c"]): B.sin(c * x)))
            elif t == "cross":
                P.append(S.cross(p, P[one[op["q"] % len(one)]]))
                D[-1] = 2
        p, q = P[-1 - case["p"] % len(P)], P[-1 - case["q"] % len(P)]
        Dp = D[-1 - case["p"] % len(P)]
        y = B.concat(*([y] * Dp), axis=0)
        e = noise[0] if case["noise"] == "scal" else B.concat(*([noise] * Dp), axis=0)
        z = x[: len(case["z"])] + 0.125
        o = case["obj"]
        w = lambda a: B.range(B.dtype(a), 1, 1 + B.shape(a, 0))  # noqa: E731
        if o == "logpdf":
            return p(x, e).logpdf(y)
        if o == "joint":
            return m.logpdf((p(x, e), y), (q(z, 0.5), B.concat(*_times(q, P, D, z * z))))
        if o == "elbo":
            # Inducing points of a base process, away from each other.
            u = P[0](B.cast(B.dtype(x), B.linspace(-2.0, 2.0, 3)))
            obs = getattr(S, case["method"])(u, p(x, e), y)
            return obs.elbo(m)
        if o == "entropy":
            return p(x, e).entropy()
        if o == "kl":
            post = m | (p(x, e), y)
            return post(q(z, 0.5)).kl(q(z, 0.75))
        post = m | (p(x, e), y)
        mean, var = post(q(z)).marginals()
        if o == "mean":
            return B.sum(w(mean) * mean)
        return B.sum(w(var) * var)

    return f


def _times(q, P, D, v):
    return [v] * D[[k for k in range(len(P)) if P[k] is q][0]]


def check_diff(ctx, case):
    import numpy as np

    from .. import backends
    from ..core import close, require, to_np
    from ..interp import B

    bk = backends.get(case["bk"])
    f = objective(case)
    n = len(case["x"])
    args = [
        np.array(case["theta"]) / 10,
        np.array(case["x"]) / 4 + 0.01 * np.arange(n),
        np.array(case["y"][:n]) / 4,
        np.resize([0.5, 0.25, 1.0], n),
    ]
    case["z"] = case["z"][:n]
    want = float(to_np(f(*args)))
    require(np.isfinite(want), f"The objective is {want}.")
    s = max(1.0, abs(want))
    ctx.label(f"{bk.name}: {case['obj']}")
    theirs = [bk.arr(a) for a in args]
    got = f(*theirs)
    require(bk.is_mine(got), f"The objective is of type {type(got)}.")
    close(ctx, f"objective {case['obj']} with {bk.name}", got, want, rtol=1e-7, atol=1e-6)
    try:
        grads = bk.grad(f, theirs)
    except NotImplementedError:
        # AutoGrad does not implement the derivatives of everything.
        require(bk.name == "autograd", f"{bk.name} cannot differentiate the objective.")
        ctx.label("not implemented by AutoGrad")
        return
    nonzero = 0
    for i, g in enumerate(grads):
        fd = np.zeros(args[i].shape)
        for k in range(args[i].size):
            h = 1e-5
            a, b = [x.copy() for x in args], [x.copy() for x in args]
            a[i][k] += h
            b[i][k] -= h
            fd[k] = (float(to_np(f(*a))) - float(to_np(f(*b)))) / (2 * h)
        nonzero += int(np.sum(np.abs(fd) > 1e-4))
        close(
            ctx,
            f"gradient {i} of {case['obj']} with {bk.name}",
            g,
            fd,
            rtol=1e-4,
            atol=2e-6,
            scale=s,
        )
    if nonzero >= 3:
        ctx.mark()
    if case["jit"] <= 2 and bk.name == "jax":
        ctx.label("compiled")
        fj = B.jit(f)
        close(ctx, "compiled objective", fj(*theirs), want, rtol=1e-7, atol=1e-7)
        other = [a * 1.25 for a in args]
        want = float(to_np(f(*other)))
        got = fj(*[bk.arr(a) for a in other])
        close(ctx, "compiled objective elsewhere", got, want, rtol=1e-7, atol=1e-7)


PARTS = {
    "single": {
        "strategy": single_strategy,
        "check": check_single,
        "quick": 160,
        "thorough": 4000,
    },
    "agree": {
        "strategy": agree_strategy,
        "check": check_agree,
        "quick": 240,
        "thorough": 6000,
    },
    "differentiate": {
        "strategy": diff_strategy,
        "check": check_diff,
        "quick": 240,
        "thorough": 6000,
    },
}
