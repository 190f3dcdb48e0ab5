"""Reference model: jointly Gaussian processes as explicit linear forms.

Independent of stheno, mlkernels, lab and matrix: plain NumPy in double precision.

A process, evaluated at a stack of points `X` of shape `(n, d)`, is

    const(X) + sum_t coef_t(X) * base_t(points_t(X)),

where the bases are the independent Gaussian processes that were put into a measure.
Everything a measure says about its processes follows from these forms: the prior mean
and covariance directly, and the posterior by conditioning the joint Gaussian. Nothing
is ever expressed in terms of kernels of composed processes, which is how the code under
test does it.
"""

import numpy as np

from .core import HarnessError

EPS = 1e-12


# ---------------------------------------------------------------------------
# Kernels and means of base processes.


def _d2(X, Y):
    return ((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1)


def _feat(X, period):
    Z = 2 * np.pi * X / period
    return np.concatenate([np.sin(Z), np.cos(Z)], axis=-1)


def kern_atom(name, X, Y):
    if name == "EQ":
        return np.exp(-0.5 * _d2(X, Y))
    if name == "M12":
        return np.exp(-np.sqrt(_d2(X, Y)))
    if name == "M32":
        r = np.sqrt(3) * np.sqrt(_d2(X, Y))
        return (1 + r) * np.exp(-r)
    if name == "M52":
        r = np.sqrt(5) * np.sqrt(_d2(X, Y))
        return (1 + r + r**2 / 3) * np.exp(-r)
    if name == "RQ":
        return (1 + _d2(X, Y) / (2 * 0.5)) ** (-0.5)
    if name == "Lin":
        return X @ Y.T
    if name == "One":
        return np.ones((len(X), len(Y)))
    if name == "Zero":
        return np.zeros((len(X), len(Y)))
    if name == "Delta":
        return (_d2(X, Y) < 1e-12).astype(float)
    if name == "Fn":  # `GP(lambda x: ...)`: the kernel f(x) f(y).
        return fn("sin", X)[:, None] * fn("sin", Y)[None, :]
    raise HarnessError(f"Unknown kernel {name}.")


def kernel(spec, X, Y):
    """Kernel from a specification: a list of summands
    `{"k": name, "v": variance, "l": stretch or None, "p": period or None}`."""
    K = np.zeros((len(X), len(Y)))
    for s in spec:
        A, C = X, Y
        if s.get("l"):
            A, C = A / s["l"], C / s["l"]
        if s.get("p"):
            A, C = _feat(A, s["p"]), _feat(C, s["p"])
        K = K + s["v"] * kern_atom(s["k"], A, C)
    return K


def fn(name, X):
    """Scalar functions of an input, `(n, d) -> (n,)`."""
    x = X[:, 0]
    if name == "lin":
        return x.copy()
    if name == "sq":
        return x**2
    if name == "sin":
        return np.sin(x)
    if name == "exp":
        return np.exp(-0.125 * (x - 1) ** 2)
    if name == "aff":
        return 1 + 0.5 * x
    raise HarnessError(f"Unknown function {name}.")


def tf_fn(name, X):
    """Input transforms, `(n, d) -> (n, d)`."""
    if name == "dbl":
        return 2 * X
    if name == "neg":
        return -X
    if name == "inc":
        return X + 0.5
    if name == "cube":
        return X**3 / 16
    if name == "sinx":
        return X + np.sin(X)
    if name == "sqx":
        return X**2 / 4
    raise HarnessError(f"Unknown transform {name}.")


# ---------------------------------------------------------------------------
# Forms.


class Form:
    """`const + sum_t coef_t * base_t(points_t)`, evaluated at particular points."""

    def __init__(self, const, terms):
        self.const = np.asarray(const, float)
        self.terms = terms
        self.n = len(self.const)

    def __add__(self, other):
        return Form(self.const + other.const, self.terms + other.terms)

    def scale(self, c):
        c = np.broadcast_to(np.asarray(c, float), (self.n,))
        return Form(self.const * c, [(w * c, b, p) for w, b, p in self.terms])

    def shift(self, c):
        return Form(self.const + c, self.terms)


def stack(forms):
    """Stack forms vertically."""
    n = sum(f.n for f in forms)
    const = np.concatenate([f.const for f in forms]) if forms else np.zeros(0)
    terms, i = [], 0
    for f in forms:
        for w, b, p in f.terms:
            terms.append((w, b, p, i, f.n))
        i += f.n
    out = []
    # Pad with zero coefficients: points of the padding are arbitrary.
    for w, b, p, i, k in terms:
        ww = np.zeros(n)
        ww[i : i + k] = w
        pp = np.zeros((n, p.shape[1]))
        pp[i : i + k] = p
        out.append((ww, b, pp))
    return Form(const, out)


class Base:
    def __init__(self, measure, mean, kern):
        self.measure = measure
        self.mean = mean
        self.kern = kern


class RefProcess:
    """A process.

    Attributes:
        measures (list[RefMeasure]): Measures in which the process lives. First one is
            the one it was constructed with.
        D (int): Number of outputs.
        need (int): Dimensionality of the input.
        comps (list or None): Components of a Cartesian product.
    """

    def __init__(self, D=1, need=1, comps=None):
        self.measures = []
        self.forms = {}
        self.D = D
        self.need = need
        self.comps = comps
        self.tags = set()

    def add(self, measure, form):
        self.measures.append(measure)
        self.forms[id(measure)] = form
        measure.ps.append(self)

    def form(self, measure, X):
        """Form at numeric inputs."""
        return self.forms[id(measure)](X)

    @property
    def home(self):
        return self.measures[0]


class RefMeasure:
    def __init__(self, parent=None, obs=None, bases_from=None):
        self.parent = parent
        self.obs = obs
        self.ps = []

    # ---- prior part -----------------------------------------------------

    def _own(self, f):
        return [t for t in f.terms if t[1].measure is self]

    def _rest(self, f, const):
        return Form(const, [t for t in f.terms if t[1].measure is not self])

    def mean(self, f):
        m = f.const.copy()
        for w, b, p in self._own(f):
            m = m + w * b.mean(p)
        if self.parent is not None:
            m = m + self.obs.post_mean(self._rest(f, np.zeros(f.n)))
        return m

    def cov(self, f, g):
        K = np.zeros((f.n, g.n))
        for w, b, p in self._own(f):
            for v, c, q in self._own(g):
                if b is c:
                    K = K + w[:, None] * b.kern(p, q) * v[None, :]
        if self.parent is not None:
            z = np.zeros
            K = K + self.obs.post_cov(self._rest(f, z(f.n)), self._rest(g, z(g.n)))
        return K

    def condition(self, obs):
        post = RefMeasure(parent=self, obs=obs)
        obs.bind(self)
        for p in list(self.ps):
            p.add(post, p.forms[id(self)])
        return post


def _safe(f):
    def g(*args):
        try:
            return f(*args)
        except np.linalg.LinAlgError as e:
            raise HarnessError(f"Reference linear algebra failed: {e}")

    return g


class RefObs:
    """Exact observations: a form, the noise covariance, and the values."""

    def __init__(self, form, noise, y, ctx):
        self.form, self.noise, self.y, self.ctx = form, noise, y, ctx

    def bind(self, measure):
        self.measure = measure
        self.n = self.form.n
        if self.n:
            K = measure.cov(self.form, self.form) + self.noise
            K = K + EPS * np.eye(self.n)
            self.ctx.note_cond(_cond(K))
            self.K = K
            self.alpha = _solve(K, self.y - measure.mean(self.form))

    def post_mean(self, f):
        m = self.measure.mean(f)
        if self.n:
            m = m + self.measure.cov(f, self.form) @ self.alpha
        return m

    def post_cov(self, f, g):
        K = self.measure.cov(f, g)
        if self.n:
            Kf = self.measure.cov(self.form, f)
            Kg = self.measure.cov(self.form, g)
            K = K - Kf.T @ _solve(self.K, Kg)
        return K

    def logpdf(self):
        r = self.y - self.measure.mean(self.form)
        return gauss_logpdf(self.K, r) if self.n else 0.0


class RefPseudo:
    """Pseudo-point observations: VFE, FITC and DTC.

    All three are exact inference in the model `u ~ p(u)`,
    `y | u ~ N(m_x + K_xz K_z^{-1} (u - m_z), K_n)`, where `K_n` is the noise for VFE and
    DTC and the noise plus `diag(K_x - Q_x)` for FITC, followed by `p(f | u)`.
    """

    def __init__(self, method, u_form, u_noise, form, noise_diag, y, ctx):
        self.method = method
        self.u, self.un = u_form, u_noise
        self.form, self.nd, self.y, self.ctx = form, noise_diag, y, ctx

    def bind(self, measure):
        self.measure = measure
        Kz = measure.cov(self.u, self.u) + self.un + EPS * np.eye(self.u.n)
        self.ctx.note_cond(_cond(Kz))
        self.Kz = Kz
        Kzx = measure.cov(self.u, self.form)
        Kx = measure.cov(self.form, self.form)
        Q = Kzx.T @ _solve(Kz, Kzx)
        corr = np.diag(Kx) - np.diag(Q)
        Kn = np.diag(self.nd + (corr if self.method == "fitc" else 0))
        S = Q + Kn
        self.ctx.note_cond(_cond(S))
        # The noise may be inverted by itself.
        self.ctx.note_cond(_cond(Kn))
        r = self.y - measure.mean(self.form)
        # Moments of q(u).
        G = _solve(S, Kzx.T).T
        self.m_u = measure.mean(self.u) + G @ r
        self.S_u = Kz - G @ Kzx.T
        self.elbo = gauss_logpdf(S, r)
        if self.method == "vfe":
            self.elbo -= 0.5 * np.sum(corr / self.nd)
        self.exact = gauss_logpdf(Kx + np.diag(self.nd), r)
        self.alpha = _solve(Kz, self.m_u - measure.mean(self.u))

    def post_mean(self, f):
        return self.measure.mean(f) + self.measure.cov(f, self.u) @ self.alpha

    def post_cov(self, f, g):
        Kf = self.measure.cov(self.u, f)
        Kg = self.measure.cov(self.u, g)
        A, C = _solve(self.Kz, Kf), _solve(self.Kz, Kg)
        return self.measure.cov(f, g) - Kf.T @ C + A.T @ self.S_u @ C


@_safe
def _solve(K, b):
    return np.linalg.solve(K, b)


@_safe
def _cond(K):
    if K.size == 0:
        return 1.0
    s = np.linalg.svd(K, compute_uv=False)
    # Small relative to one also counts as badly conditioned: the code under test adds a
    # fixed amount of jitter.
    return max(1.0, s[0]) / s[-1] if s[-1] > 0 else np.inf


@_safe
def gauss_logpdf(K, r):
    if len(r) == 0:
        return 0.0
    s, ld = np.linalg.slogdet(K)
    return -0.5 * (ld + r @ np.linalg.solve(K, r) + len(r) * np.log(2 * np.pi))


# ---------------------------------------------------------------------------
# Operations on processes.


def base_gp(measure, mean, kern, need=1):
    p = RefProcess(need=need)
    b = Base(measure, mean, kern)
    p.add(measure, lambda X: Form(np.zeros(len(X)), [(np.ones(len(X)), b, X)]))
    p.base = b
    return p


def unary(p, g, need=None, D=None):
    """New process in all measures of `p`; `g(form function, measure)` gives its form."""
    q = RefProcess(D=p.D if D is None else D, need=p.need if need is None else need)
    q.tags = set(p.tags)
    for m in p.measures:
        q.add(m, g(p.forms[id(m)], m))
    return q


def common(ps):
    """Measures that all processes share, in order of association."""
    return [m for m in ps[0].measures if all(m in p.measures for p in ps[1:])]


def same_home(ps):
    return all(p.home is ps[0].home for p in ps)


def add(p, q):
    r = RefProcess(D=p.D, need=max(p.need, q.need))
    r.tags = p.tags | q.tags
    for m in common([p, q]):
        f, g = p.forms[id(m)], q.forms[id(m)]
        r.add(m, lambda X, f=f, g=g: f(X) + g(X))
    return r


def product(p, q):
    """Moment matching: the mean and covariance function of the actual product, and the
    covariance of the product with everything else, under each measure."""
    r = RefProcess(need=max(p.need, q.need))
    r.tags = p.tags | q.tags | {"product"}
    for m in common([p, q]):
        f, g = p.forms[id(m)], q.forms[id(m)]

        def mean(X, m=m, f=f, g=g):
            k = np.diag(m.cov(f(X), g(X))) if len(X) else np.zeros(0)
            return -m.mean(f(X)) * m.mean(g(X)) + k

        def kern(X, Y, m=m, f=f, g=g):
            fX, gX, fY, gY = f(X), g(X), f(Y), g(Y)
            return m.cov(fX, fY) * m.cov(gX, gY) + m.cov(fX, gY) * m.cov(gX, fY)

        b = Base(m, mean, kern)

        def form(X, m=m, f=f, g=g, b=b):
            fX, gX = f(X), g(X)
            t = fX.scale(m.mean(gX)) + gX.scale(m.mean(fX))
            return t + Form(np.zeros(len(X)), [(np.ones(len(X)), b, X)])

        r.add(m, form)
    return r


def cross(ps):
    r = RefProcess(D=sum(p.D for p in ps), need=max(p.need for p in ps), comps=list(ps))
    r.tags.add("multi-output")
    for p in ps:
        r.tags |= p.tags
    for m in common(ps):
        fs = [p.forms[id(m)] for p in ps]
        r.add(m, lambda X, fs=fs: stack([f(X) for f in fs]))
    return r


def posterior_copy(measure, p):
    """`measure(p)`."""
    q = RefProcess(D=p.D, need=p.need, comps=None)
    q.tags = set(p.tags)
    q.add(measure, p.forms[id(measure)])
    return q
