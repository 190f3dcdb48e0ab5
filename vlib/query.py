"""Comparing what a measure says about its processes with the reference."""

import numpy as np

from . import ref
from .core import close, ok_cond, require, to_np
from .interp import S, noise_arg, noise_matrix, x_arg


def root(m):
    while m.parent is not None:
        m = m.parent
    return m


def prior_scale(m, forms):
    """Magnitude of the prior, at which cancellation happens."""
    s = 0.0
    r = root(m.ref)
    for f in forms:
        if f.n:
            own = [t for t in f.terms if t[1].measure is r]
            g = ref.Form(f.const, own)
            s = max(s, float(np.max(np.abs(np.diag(r.cov(g, g))))))
            s = max(s, float(np.max(np.abs(r.mean(g)))))
    return s


def process_pair(w, qs, latest=False):
    """A measure and two processes that it knows."""
    m = w.meas(-1 - qs["m"] if latest else qs["m"])
    p = w.pick(-1 - qs["p"], lambda p: m.ref in p.ref.measures)
    q = w.pick(-1 - qs["q"], lambda q: m.ref in q.ref.measures)
    return m, p, q


def specs(qs):
    return (
        {"x": qs["x"], "r": qs["r"], "t": qs.get("t"), "single": qs.get("single")},
        {"x": qs["x2"], "r": qs["r2"], "t": qs.get("t2")},
    )


def check_pair(ctx, w, m, p, q, qs, rtol=1e-8, atol=1e-9):
    """Check means, covariances and cross-covariances of `p` and `q` under `m`."""
    s1, s2 = specs(qs)
    x, fx, n = w.inputs(p, s1)
    y, gy, _ = w.inputs(q, s2)
    fX, gY = fx(m.ref), gy(m.ref)
    if not ok_cond(ctx):
        return False
    Kff, Kfg = m.ref.cov(fX, fX), m.ref.cov(fX, gY)
    kw = dict(rtol=rtol, atol=atol, scale=prior_scale(m, [fX, gY]))
    how = qs["how"]
    name = f"process {w.P.index(p)} (and {w.P.index(q)}), measure {w.M.index(m)}"

    def moments():
        # Mean and variance.
        if how % 4 == 0:
            mean, var = m.m.means[p.gp](x), m.m.kernels[p.gp](x)
        elif how % 4 == 1:
            post = m.m(p.gp)
            mean, var = post.mean(x), post.kernel(x)
        elif how % 4 == 2:
            mean, var = m.m(p.gp(x)).mean_var
        else:
            f = p.gp(x) if m.ref is p.ref.home else m.m(p.gp)(x)
            mean, var = f.mean, f.var
        close(ctx, f"mean of {name}", mean, m.ref.mean(fX)[:, None], **kw)
        close(ctx, f"variance of {name}", var, Kff, **kw)

    def two_inputs():
        # Variance as a function of two inputs.
        y2, fy2, _ = w.inputs(p, s2)
        kern = m.m.kernels[p.gp] if how % 2 == 0 else m.m(p.gp).kernel
        fY = fy2(m.ref)
        K = m.ref.cov(fX, fY)
        kw2 = dict(kw, scale=max(kw["scale"], prior_scale(m, [fY])))
        close(ctx, f"kernel (x, y) of {name}", kern(x, y2), K, **kw2)

    def cross():
        # Cross-covariances in both orders.
        K = m.m.kernels[p.gp, q.gp](x, y)
        close(ctx, f"cross-covariance of {name}", K, Kfg, **kw)

    def cross_rev():
        K = m.m.kernels[q.gp, p.gp](y, x)
        close(ctx, f"reversed cross-covariance of {name}", K, Kfg.T, **kw)

    def elementwise():
        if p.D == 1 and q.D == 1 and "multi-output" not in p.ref.tags | q.ref.tags:
            X, Y = w.points(p, qs["x"]), w.points(q, qs["x2"])
            k = min(len(X), len(Y))
            if k:
                xs = x_arg(X[:k], max(qs["r"], 1), w.bk)
                ys = x_arg(Y[:k], max(qs["r2"], 1), w.bk)
                got = m.m.kernels[p.gp, q.gp].elwise(xs, ys)
                want = np.diag(Kfg[:k, :k])[:, None]
                close(ctx, f"elementwise cross-covariance of {name}", got, want, **kw)
        got = m.m.kernels[p.gp].elwise(x, x)
        want = np.diag(Kff)[:, None]
        close(ctx, f"elementwise variance of {name}", got, want, **kw)

    def noisy():
        # With noise, as a finite-dimensional distribution.
        N = noise_matrix(qs["n"], n)
        f = m.m(p.gp(x, noise_arg(qs["n"], n, w.bk)))
        close(ctx, f"variance with noise of {name}", f.var, Kff + N, **kw)
        vd = np.diag(Kff + N)
        close(ctx, f"marginal variances with noise of {name}", f.var_diag, vd, **kw)
        f = m.m(p.gp(x, noise_arg(qs["n"], n, w.bk)))
        mm, mv = f.marginals()
        close(ctx, f"marginal mean of {name}", mm, m.ref.mean(fX), **kw)
        close(ctx, f"marginal variance of {name}", mv, np.maximum(vd, 0), **kw)

    def joint():
        # The joint law through a Cartesian product.
        if p.ref.home is not q.ref.home:
            return
        f = ref.stack([fX, gY])
        d = m.m(S.combine(p.gp(x), q.gp(y)))
        K = m.ref.cov(f, f)
        close(ctx, f"joint mean of {name}", d.mean, m.ref.mean(f)[:, None], **kw)
        close(ctx, f"joint variance of {name}", d.var, K, **kw)
        close(ctx, f"joint marginal variances of {name}", d.var_diag, np.diag(K), **kw)

    checks = [moments, two_inputs, cross, cross_rev, elementwise, noisy, joint]
    # The order in which things are asked for may matter: vary it.
    k = how % len(checks)
    for f in checks[k:] + checks[:k]:
        f()
    return True


def check_posterior_shape(ctx, w, m, p, qs):
    """A posterior covariance is symmetric, positive semi-definite, and never larger than
    the prior covariance."""
    s1, _ = specs(qs)
    x, fx, n = w.inputs(p, s1)
    if not ok_cond(ctx) or n == 0:
        return
    parent = w.find(m.ref.parent)
    V = to_np(m.m(p.gp(x)).var)
    P = to_np(parent.m(p.gp(x)).var)
    s = max(1.0, prior_scale(m, [fx(m.ref)]))
    t = (1e-9 + 1e-12 * ctx.cond) * s * max(n, 1)
    require(np.all(np.abs(V - V.T) <= t), f"Posterior variance not symmetric:\n{V}")
    require(
        np.min(np.linalg.eigvalsh((V + V.T) / 2)) >= -t,
        f"Posterior variance not positive semi-definite:\n{V}",
    )
    D = P - V
    require(
        np.min(np.linalg.eigvalsh((D + D.T) / 2)) >= -t,
        f"Posterior variance exceeds prior variance:\n{V}\n{P}",
    )
