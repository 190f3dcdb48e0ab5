"""Interpreter of model programs.

A program is plain JSON: a list of operations that build processes, condition measures
and so on. It is executed simultaneously against stheno and against the reference model.
Operands are indices, resolved modulo what is available at that point, so every program
is valid by construction; operations for which no operand qualifies are skipped.
"""

import numpy as np

from . import env, ref
from .core import HarnessError, Skip, ok_cond

env.load_stheno()

import lab as B  # noqa: E402
import matrix  # noqa: E402
import stheno as S  # noqa: E402

X_UNIT = 0.25


# -----------------------------------------------------------------------------
# Backends.


class NumPy:
    name = "numpy"

    @staticmethod
    def arr(x):
        return np.array(x, dtype=float)


# -----------------------------------------------------------------------------
# Values.


def _col0(x):
    """First input dimension as a column, or as is for scalars and vectors."""
    return x[..., :1] if B.rank(x) >= 2 else x


FN = {
    "lin": lambda x: _col0(x),
    "sq": lambda x: _col0(x) ** 2,
    "sin": lambda x: B.sin(_col0(x)),
    "exp": lambda x: B.exp(-0.125 * (_col0(x) - 1) ** 2),
    "aff": lambda x: 1 + 0.5 * _col0(x),
}
FNS = sorted(FN)

TF = {
    "dbl": lambda x: 2 * x,
    "neg": lambda x: -x,
    "inc": lambda x: x + 0.5,
    "cube": lambda x: x**3 / 16,
    "sinx": lambda x: x + B.sin(x),
    "sqx": lambda x: x**2 / 4,
}
TFS = sorted(TF)
INJECTIVE = ["cube", "dbl", "inc", "neg", "sinx"]

FULL_RANK = {"EQ", "M12", "M32", "M52", "RQ", "Delta"}
STATIONARY = {"EQ", "M12", "M32", "M52", "RQ", "One", "Zero", "Delta"}


def make_kernel(spec):
    k = None
    for s in spec:
        t = {
            "EQ": S.EQ,
            "M12": S.Matern12,
            "M32": S.Matern32,
            "M52": S.Matern52,
            "RQ": lambda: S.RQ(0.5),
            "Lin": S.Linear,
            "One": S.OneKernel,
            "Zero": S.ZeroKernel,
            "Delta": S.Delta,
        }[s["k"]]()
        # Innermost first: `kernel` in the reference first stretches the inputs and then
        # computes periodic features.
        if s.get("p"):
            t = t.periodic(s["p"])
        if s.get("l"):
            t = t.stretch(s["l"])
        t = s["v"] * t
        k = t if k is None else k + t
    return k


def make_mean(m):
    """Positional arguments for the mean of a GP, and the reference mean function."""
    t = m["t"]
    if t == "zero":
        return (), lambda X: np.zeros(len(X))
    if t == "const":
        return (m["v"],), lambda X: np.full(len(X), float(m["v"]))
    if t == "fn":
        return (FN[m["f"]],), lambda X: ref.fn(m["f"], X)
    if t == "Mean":
        # An explicit mean object.
        mean = m["v"] * S.OneMean() + S.TensorProductMean(FN[m["f"]])
        return (mean,), lambda X: m["v"] + ref.fn(m["f"], X)
    raise HarnessError(t)


def wide(rows, d):
    """The first `d` coordinates of points. `rows` is a list of lists of two numbers. A
    third coordinate follows from these."""
    rows = [[*r, (2 * r[0] + 3 * r[1]) % 7 - 3][:d] for r in rows]
    return np.array(rows, dtype=float).reshape(len(rows), d)


def grid(rows, d, unique=False):
    """Points from integers."""
    X = wide(rows, d) * X_UNIT
    if unique and len(X):
        _, i = np.unique(X, axis=0, return_index=True)
        X = X[np.sort(i)]
    return X


def noise_matrix(spec, n):
    """Reference noise matrix."""
    t = spec["t"]
    if n == 0 or t == "none" or t == "zero":
        return np.zeros((n, n))
    unit = 10.0 ** spec.get("e", 0) / 8
    v = np.resize(np.array(spec["v"], float) * unit, n)
    if t in ("scal", "sscal", "int"):
        return np.eye(n) * v[0]
    if t in ("vec", "diag", "svec", "sdiag"):
        return np.diag(v)
    # Dense: positive definite with strictly positive diagonal part.
    w = np.resize(np.array(spec["v"][::-1], float) / 2 * unit**0.5 / 8**0.5, n)
    w = w * (-1.0) ** np.arange(n)
    return np.diag(v) + np.outer(w, w)


def noise_arg(spec, n, bk):
    """Noise as given to the code under test."""
    t = spec["t"]
    if t == "none":
        return None
    N = noise_matrix(spec, n)
    if t == "scal":
        return float(N[0, 0] if n else spec["v"][0] / 8)
    if t == "vec":
        return bk.arr(np.diag(N))
    if t in ("mat", "sscal", "svec", "sdiag"):
        return bk.arr(N)
    if t == "diag":
        return matrix.Diagonal(bk.arr(np.diag(N)))
    if t == "dense":
        return matrix.Dense(bk.arr(N))
    if t == "zero":
        return matrix.Zero(float, n, n)
    raise HarnessError(t)


def values(ys, n, offset=0):
    """Observed values: `None` means missing."""
    if n == 0:
        return np.zeros(0)
    v = [ys[(i + offset) % len(ys)] for i in range(n)]
    return np.array([np.nan if u is None else u / 4 for u in v], float)


def x_arg(X, rank, bk):
    """Inputs as given to the code under test."""
    n, d = X.shape
    if d == 1 and rank == 0 and n == 1:
        return bk.arr(X[0, 0])
    if d == 1 and rank == 1:
        return bk.arr(X[:, 0])
    return bk.arr(X)


class Proc:
    """A process: the one of stheno and the one of the reference."""

    def __init__(self, gp, rp, D=1, comps=None):
        self.gp, self.ref, self.comps = gp, rp, comps
        self.D = D


def plain(p):
    """Whether a process is an ordinary one, and not a Cartesian product."""
    return "multi-output" not in p.ref.tags


class Meas:
    def __init__(self, m, r):
        self.m, self.ref = m, r


class World:
    """State of an execution."""

    def __init__(self, ctx, d=1, bk=NumPy, unique=False):
        self.ctx, self.d, self.bk, self.unique = ctx, d, bk, unique
        self.P = []
        self.M = [Meas(S.Measure(), ref.RefMeasure())]
        self.O = []
        self.custom = []
        self.has_mo = False
        self.degenerate = False
        self.summed = False

    def fragile(self, m):
        """Whether sums of low-rank structured matrices can occur. The matrix library
        loses digits in inverting those, because it inverts singular middle factors."""
        return self.degenerate and (self.summed or m.ref.parent is not None)

    def data_noise(self, spec, m):
        """Noise for observations. Noiseless observations of processes whose covariance
        has finite rank are not invertible (structured matrices insist on it), so those
        always get some noise."""
        if self.degenerate and spec["t"] in ("none", "zero"):
            spec = dict(spec, t="scal")
        if self.fragile(m) and spec["t"] in ("scal", "vec", "diag"):
            spec = dict(spec, t="s" + spec["t"])
        return spec

    # -- operands -------------------------------------------------------------

    def pick(self, i, ok=lambda p: True):
        cand = [p for p in self.P if ok(p)]
        return cand[i % len(cand)] if cand else None

    def pick_pair(self, i, j, ok=lambda p: True):
        p = self.pick(i, ok)
        if p is None:
            return None, None
        q = self.pick(
            j,
            lambda q: (
                ok(q)
                and q.ref.home is p.ref.home
                and q.D == p.D
                and q.ref.need == p.ref.need
            ),
        )
        return p, q

    def meas(self, i):
        return self.M[i % len(self.M)]

    def find(self, refm):
        return next(m for m in self.M if m.ref is refm)

    def new(self, gp, rp, comps=None):
        p = Proc(gp, rp, rp.D, comps)
        self.P.append(p)
        return p

    # -- inputs ---------------------------------------------------------------

    def points(self, p, rows):
        """Points in the domain of process `p`."""
        return grid(rows, p.ref.need, unique=self.unique)

    def inputs(self, p, spec):
        """Inputs for process `p`: returns the argument for stheno and a function that
        gives the reference's form under a measure, and the total size.

        `spec`: {"x": rows, "r": rank, "t": optional list of [component, rows]}.
        """
        if p.comps is not None and spec.get("t"):
            parts = []
            for c, rows in spec["t"]:
                c = c % len(p.comps)
                parts.append((c, self.points(p.comps[c], rows)))
            arg = tuple(p.comps[c].gp(x_arg(X, spec["r"], self.bk)) for c, X in parts)
            if spec.get("single") and len(arg) >= 1:
                arg, parts = arg[0], parts[:1]

            def form(m):
                return ref.stack([p.comps[c].ref.form(m, X) for c, X in parts])

            n = sum(len(X) * p.comps[c].D for c, X in parts)
            return arg, form, n
        X = self.points(p, spec["x"])
        if len(X) >= 20:
            self.ctx.label("many points")
        arg = x_arg(X, spec["r"], self.bk)
        return arg, (lambda m: p.ref.form(m, X)), len(X) * p.D

    def fdd(self, p, spec, noise=None):
        """An FDD, and what the reference needs to know about it."""
        arg, form, n = self.inputs(p, spec)
        noise = noise or {"t": "none"}
        return p.gp(arg, noise_arg(noise, n, self.bk)), form, noise_matrix(noise, n), n

    # -- operations -----------------------------------------------------------

    def run(self, ops):
        for op in ops:
            if not ok_cond(self.ctx):
                # stheno may do linear algebra as soon as this model is extended.
                raise Skip("ill-conditioned")
            f = getattr(self, "op_" + op["op"])
            done = f(op)
            self.ctx.label(f"op {op['op']}" + ("" if done is not False else " (skipped)"))
        if not ok_cond(self.ctx):
            raise Skip("ill-conditioned")
        return self

    def op_gp(self, op):
        m = self.meas(op.get("m", 0))
        args, mean = make_mean(op["mean"])
        dim = min(op.get("dim", 1), self.d)
        # Distances in more than one dimension are only accurate to the square root of
        # the machine precision, which Matern--1/2 is sensitive to.
        spec = [
            dict(s, k="M32") if s["k"] == "M12" and (dim > 1 or s.get("p")) else s
            for s in op["kern"]
        ]
        if spec and spec[0]["k"] == "Fn":
            # `GP(lambda x: ...)`: a function as kernel.
            kern = FN["sin"]
            spec = [dict(spec[0], v=1.0, l=None, p=None)]
        elif spec and spec[0]["k"] == "Num":
            # `GP(number)`: a constant process.
            kern = spec[0]["v"]
            spec = [dict(spec[0], k="One", l=None, p=None)]
        else:
            kern = make_kernel(spec)
        if any(s["k"] not in FULL_RANK for s in spec):
            self.degenerate = True
        how = op.get("how", 0) % 2
        if how == 1:
            with m.m:
                gp = S.GP(*args, kern)
        else:
            gp = S.GP(*args, kern, measure=m.m)
        self.new(
            gp,
            ref.base_gp(
                m.ref,
                mean,
                lambda X, Y, spec=spec: ref.kernel(spec, X, Y),
                need=dim,
            ),
        )

    def op_add(self, op):
        p, q = self.pick_pair(op["p"], op["q"], plain)
        if p is None:
            return False
        self.summed = True
        self.new(p.gp + q.gp, ref.add(p.ref, q.ref))

    def op_sub(self, op):
        p, q = self.pick_pair(op["p"], op["q"], plain)
        if p is None:
            return False
        neg = ref.unary(q.ref, lambda f, m: lambda X: f(X).scale(-1.0))
        self.summed = True
        self.new(p.gp - q.gp, ref.add(p.ref, neg))

    def _scale(self, p, gp, c):
        self.new(gp, ref.unary(p.ref, lambda f, m: lambda X: f(X).scale(c)))

    def op_mul(self, op):
        # Scaling also works for multi-output processes.
        p = self.pick(op["p"])
        if p is None:
            return False
        c = op["c"]
        how = op.get("how", 0) % 5
        if how == 0:
            self._scale(p, c * p.gp, c)
        elif how == 1:
            self._scale(p, p.gp * c, c)
        elif how == 2:
            self._scale(p, -p.gp, -1.0)
        elif how == 3 and np.all(np.asarray(c) != 0):
            self._scale(p, p.gp / c, 1 / c)
        else:
            self._scale(p, p.gp * (np.float64(c) if np.ndim(c) == 0 else c), c)

    def op_shiftval(self, op):
        p = self.pick(op["p"], plain)
        if p is None:
            return False
        c = op["c"]
        how = op.get("how", 0) % 4
        if how == 0:
            gp, s, t = p.gp + c, 1.0, c
        elif how == 1:
            gp, s, t = c + p.gp, 1.0, c
        elif how == 2:
            gp, s, t = p.gp - c, 1.0, -c
        else:
            gp, s, t = c - p.gp, -1.0, c
        self.new(gp, ref.unary(p.ref, lambda f, m: lambda X: f(X).scale(s).shift(t)))

    def op_addf(self, op):
        p = self.pick(op["p"], plain)
        if p is None:
            return False
        g = FN[op["f"]]
        gp = p.gp + g if op.get("how", 0) % 2 == 0 else g + p.gp
        self.new(
            gp,
            ref.unary(p.ref, lambda f, m: lambda X: f(X).shift(ref.fn(op["f"], X))),
        )

    def op_mulf(self, op):
        p = self.pick(op["p"], plain)
        if p is None:
            return False
        g = FN[op["f"]]
        gp = p.gp * g if op.get("how", 0) % 2 == 0 else g * p.gp
        self.new(
            gp,
            ref.unary(p.ref, lambda f, m: lambda X: f(X).scale(ref.fn(op["f"], X))),
        )

    def op_mulgp(self, op):
        p, q = self.pick_pair(
            op["p"],
            op["q"],
            lambda p: plain(p) and (op.get("nest") or "product" not in p.ref.tags),
        )
        if p is None:
            return False
        self.new(p.gp * q.gp, ref.product(p.ref, q.ref))

    def op_shift(self, op):
        p = self.pick(op["p"], plain)
        if p is None:
            return False
        c = op["c"]
        if p.ref.need > 1 and op.get("how", 0) % 2:
            # A shift per input dimension.
            v = np.resize(np.array([c, -2 * c, c + 0.5]), p.ref.need)
            arg = self.bk.arr(v)
        else:
            arg, v = c, c
        self.new(
            p.gp.shift(arg),
            ref.unary(p.ref, lambda f, m: lambda X: f(X - v)),
        )

    def op_stretch(self, op):
        p = self.pick(op["p"], plain)
        if p is None:
            return False
        c = op["c"]
        if p.ref.need > 1 and op.get("how", 0) % 2:
            v = np.resize(np.array([c, 2 * c, 0.5]), p.ref.need)
            arg = self.bk.arr(v)
        else:
            arg, v = c, c
        self.new(
            p.gp.stretch(arg),
            ref.unary(p.ref, lambda f, m: lambda X: f(X / v)),
        )

    def op_transform(self, op):
        p = self.pick(op["p"], plain)
        if p is None:
            return False
        name = op["f"]
        if self.unique and name not in INJECTIVE:
            name = "inc"
        self.new(
            p.gp.transform(TF[name]),
            ref.unary(p.ref, lambda f, m: lambda X: f(ref.tf_fn(name, X))),
        )

    def op_select(self, op):
        p = self.pick(op["p"], plain)
        if p is None:
            return False
        # All input dimensions that `p` needs, in some order.
        dims = [i % self.d for i in op["dims"]][: p.ref.need]
        if not (len(dims) == p.ref.need == 2 and not self.unique):
            # Dimensions may be repeated only if that is all that is asked for.
            dims = list(dict.fromkeys(dims))
        dims += [i for i in range(self.d) if i not in dims][: p.ref.need - len(dims)]
        q = ref.unary(p.ref, lambda f, m: lambda X: f(X[:, dims]), need=self.d)
        self.new(p.gp.select(*dims), q)

    def op_custom(self, op):
        """A process `a * p + b * q`, added with rules of the user."""
        m = self.meas(op["m"])
        ok = lambda p: plain(p) and m.ref in p.ref.measures  # noqa: E731
        p = self.pick(op["p"], ok)
        if p is None:
            return False
        q = self.pick(op["q"], lambda q: ok(q) and q.ref.need == p.ref.need)
        a, b = op["a"], op["b"]
        ks, ms = m.m.kernels, m.m.means
        f, g = p.gp, q.gp
        left, right = [], []

        def left_rule(j):
            left.append(j)
            return a * ks[f, j] + b * ks[g, j]

        def right_rule(i):
            right.append(i)
            return a * ks[i, f] + b * ks[i, g]

        gp = m.m.add_gp(
            a * ms[f] + b * ms[g],
            a * a * ks[f] + b * b * ks[g] + a * b * ks[f, g] + a * b * ks[g, f],
            left_rule,
            *([right_rule] if op["right"] else []),
        )
        r = ref.RefProcess(need=p.ref.need)
        r.tags = p.ref.tags | q.ref.tags
        fp, fq = p.ref.forms[id(m.ref)], q.ref.forms[id(m.ref)]
        others = [(x, None) for x in self.P if m.ref in x.ref.measures]
        r.add(m.ref, lambda X: fp(X).scale(a) + fq(X).scale(b))
        self.summed = True
        new = self.new(gp, r)
        self.custom.append(
            dict(
                p=new,
                m=m,
                left=left,
                right=right,
                has_right=op["right"],
                others=others,
            )
        )

    def op_drop(self, op):
        """Forget about a process: only stheno may still refer to it."""
        if len(self.P) < 2:
            return False
        i = op["p"] % len(self.P)
        del self.P[i]

    def op_cross(self, op):
        ps = []
        for i in op["ps"]:
            p = self.pick(
                i,
                lambda p: (
                    (
                        not ps
                        or (p.ref.home is ps[0].ref.home and p.ref.need == ps[0].ref.need)
                    )
                    and (p.D == 1 or op.get("nest"))
                ),
            )
            if p is not None:
                ps.append(p)
        if not ps:
            return False
        if any(p.D > 1 for p in ps):
            self.ctx.label("nested cross")
        self.new(S.cross(*[p.gp for p in ps]), ref.cross([p.ref for p in ps]), comps=ps)
        self.has_mo = True

    # -- conditioning ---------------------------------------------------------

    def observe(self, m, items, ys, gather, missing=False):
        """Build observations. Returns pairs `(FDD, y)`, the stacked form and noise and
        values as the reference sees them."""
        pairs, forms, noises, vals, ps = [], [], [], [], []
        home = None
        off = 0
        for it in items:
            p = self.pick(it["p"], self._together(m.ref, home, gather))
            if p is None:
                continue
            home = p.ref.home
            fdd, form, N, n = self.fdd(p, it, self.data_noise(it["n"], m))
            y = values(ys, n, off)
            off += n
            if not missing:
                y = np.where(np.isnan(y), 0.5, y)
            yarg = self.bk.arr(y[:, None] if it.get("yc") or n == 0 else y)
            if "b" in it and n == 1 and it["b"]:
                yarg = self.bk.arr(y[0])
            pairs.append((fdd, yarg))
            ps.append(p)
            forms.append(form)
            noises.append(N)
            vals.append(y)
        if not pairs:
            return None
        n = sum(len(v) for v in vals)
        N = np.zeros((n, n))
        i = 0
        for K in noises:
            N[i : i + len(K), i : i + len(K)] = K
            i += len(K)
        return (
            pairs,
            (lambda m: ref.stack([f(m) for f in forms])),
            N,
            np.concatenate(vals),
            ps,
        )

    @staticmethod
    def _together(refm, home, gather):
        """Processes under a measure that were constructed with the same measure."""
        return lambda p: (
            refm in p.ref.measures and gather(p) and (home is None or p.ref.home is home)
        )

    def keep(self, form, N, y):
        """What missing data means: as if the points were never there."""
        a = ~np.isnan(y)
        if a.all():
            return form, N, y
        self.ctx.label("missing data")

        def sub(m):
            f = form(m)
            return ref.Form(f.const[a], [(w[a], b, q[a]) for w, b, q in f.terms])

        return sub, N[np.ix_(a, a)], y[a]

    def op_cond(self, op):
        m = self.meas(op["m"])
        obs = self.observe(
            m,
            op["obs"],
            op["y"],
            lambda p: op.get("any", False) or "product" not in p.ref.tags,
            missing=op.get("missing", False),
        )
        if obs is None:
            return False
        pairs, form, N, y, ps = obs
        if len(pairs) > 1 or any(isinstance(f.x, tuple) for f, _ in pairs):
            self.has_mo = True
        form, N, y = self.keep(form, N, y)
        how = op.get("how", 0)
        real = self.real_obs(pairs, how)
        gp = None
        if how // 6 % 2:
            # Through a process of the measure.
            gp = self.pick(how + len(self.P) // 2, lambda p: p.ref.home is m.ref)
        if gp is not None:
            args = real if isinstance(real, tuple) else (real,)
            if how % 2:
                gp_post = gp.gp.condition(*args)
            else:
                gp_post = gp.gp | (args[0] if len(args) == 1 else args)
            post = gp_post.measure
        elif isinstance(real, tuple):
            post = (
                m.m.condition(*real)
                if how % 2
                else m.m | (real[0] if len(real) == 1 else real)
            )
        else:
            post = m.m.condition(real) if how % 2 else m.m | real
        ro = ref.RefObs(form(m.ref), N, y, self.ctx)
        rpost = m.ref.condition(ro)
        self.M.append(Meas(post, rpost))
        if gp is not None:
            self.ctx.label("condition: through a process")
            self.new(gp_post, ref.posterior_copy(rpost, gp.ref), comps=gp.comps)
        if not isinstance(real, tuple):
            self.O.append((real, lambda r: ref.RefObs(form(r), N, y, self.ctx), ps))
        self.ctx.label(f"condition: {len(pairs)} pair(s)")
        self.ctx.label(f"condition: depth {depth(rpost)}")

    def real_obs(self, pairs, how):
        """Different spellings of the same observations."""
        k = (how // 2) % 3
        if k == 0:
            return tuple(pairs)
        if k == 1 and len(pairs) == 1:
            return S.Observations(*pairs[0])
        if k == 1:
            return S.Obs(*pairs)
        fdd, y = S.combine(*pairs) if len(pairs) > 1 else pairs[0]
        return S.Observations(fdd, y)

    def op_pseudo(self, op):
        m = self.meas(op["m"])
        if self.fragile(m):
            return False
        gather = lambda p: "product" not in p.ref.tags  # noqa: E731
        items = [
            dict(
                it,
                n={
                    "t": "vec"
                    if it["n"]["t"] in ("mat", "dense", "none", "zero")
                    else it["n"]["t"],
                    "v": it["n"]["v"],
                },
            )
            for it in op["obs"]
        ]
        obs = self.observe(m, items, op["y"], gather, op.get("missing", False))
        if obs is None:
            return False
        pairs, form, N, y, ps = obs
        us, uforms, uns, ups = [], [], [], []
        home = None
        for it in op["u"]:
            p = self.pick(it["p"], self._together(m.ref, home, gather))
            if p is None:
                continue
            home = p.ref.home
            u, uf, un, n = self.fdd(p, it, self.data_noise(it["n"], m))
            if n == 0:
                continue
            ups.append(p)
            us.append(u), uforms.append(uf), uns.append(un)
        if not us:
            return False
        if len(us) > 1 or len(pairs) > 1:
            self.has_mo = True
        form, N, y = self.keep(form, N, y)
        method = op["method"]
        cls = {
            "vfe": [S.PseudoObs, S.SparseObs, S.PseudoObservations][op.get("how", 0) % 3],
            "fitc": [S.PseudoObsFITC, S.PseudoObservationsFITC][op.get("how", 0) % 2],
            "dtc": [S.PseudoObsDTC, S.PseudoObservationsDTC][op.get("how", 0) % 2],
        }[method]
        u = us[0] if len(us) == 1 else tuple(us)
        if len(pairs) == 1:
            real = cls(u, *pairs[0]) if op.get("how", 0) % 2 else cls(u, pairs[0])
        else:
            real = cls(u, *pairs)
        n = sum(len(K) for K in uns)
        UN, i = np.zeros((n, n)), 0
        for K in uns:
            UN[i : i + len(K), i : i + len(K)] = K
            i += len(K)

        def make_ref(r):
            return ref.RefPseudo(
                method,
                ref.stack([f(r) for f in uforms]),
                UN,
                form(r),
                np.diag(N),
                y,
                self.ctx,
            )

        ro = make_ref(m.ref)
        self.last_pseudo = (m, real, ro)
        elbo_first = op.get("how", 0) % 4 >= 2
        rpost = m.ref.condition(ro)
        if not ok_cond(self.ctx):
            raise Skip("ill-conditioned")
        if elbo_first:
            real.elbo(m.m)
        post = m.m | real
        self.M.append(Meas(post, rpost))
        self.O.append((real, make_ref, ps + ups))

    def op_reuse(self, op):
        """Condition some other measure on an existing observations object."""
        m = self.meas(op["m"])
        ok = [o for o in self.O if all(m.ref in p.ref.measures for p in o[2])]
        if not ok or self.fragile(m):
            return False
        real, make_ref, _ = ok[op["o"] % len(ok)]
        rpost = m.ref.condition(make_ref(m.ref))
        if not ok_cond(self.ctx):
            raise Skip("ill-conditioned")
        self.M.append(Meas(m.m | real, rpost))
        self.ctx.label("observations object reused")

    def op_post(self, op):
        """`measure(p)`."""
        m = self.meas(op["m"])
        p = self.pick(op["p"], lambda p: m.ref in p.ref.measures)
        if p is None:
            return False
        q = ref.posterior_copy(m.ref, p.ref)
        self.new(m.m(p.gp), q, comps=p.comps)

    def op_query(self, op):
        """Ask for some means and covariances, so that later answers may come from what
        was computed here."""
        m = self.meas(op["m"])
        p = self.pick(op["p"], lambda p: m.ref in p.ref.measures)
        q = self.pick(op["q"], lambda q: m.ref in q.ref.measures)
        if p is None:
            return False
        m.m.kernels[p.gp, q.gp]
        m.m.means[p.gp]


def depth(m):
    return 0 if m.parent is None else 1 + depth(m.parent)
