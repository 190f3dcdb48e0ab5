"""Laziness and display: saying what a model is computes nothing, nor does printing it."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "Part `model`: a case is a generated program with instrumented kernels and functions "
    "(composing operations, products, Cartesian products, conditioning in every notation, "
    "also on missing data and through inducing points, posterior copies), in which names "
    "are given, finite-dimensional distributions are formed and combined, and processes, "
    "means, kernels, and distributions are displayed at random moments. No kernel and no "
    "function may be evaluated by any of this before the first conditioning, and none by "
    "conditioning of measures, naming, Cartesian products, and forming, combining, "
    "and displaying distributions later. Afterwards, moments must be exactly those of "
    "the same program without displaying anything; displaying must always give a string, "
    "the same one before and after computing, and a formatter must be applied to the numbers "
    "of all components. Part `normal`: sequences of requests to normal distributions given "
    "as functions, in between of which they are displayed: functions are called at most once "
    "and only if needed for what was asked. Non-trivial: something was displayed and there "
    "was conditioning or a composed process (`model`), at least two requests (`normal`)."
)
ASSUMPTIONS = [
    "Evaluations of kernels and mean functions of base processes, and of functions that "
    "processes are combined with, are counted.",
]


def model_strategy():
    lin = gen.ops_linear()
    first = [(lin, 1, 3), ([gen.op_cross(nest=True)] * 2 + lin, 1, 2)]
    cond = [
        gen.op_cond(max_pairs=2, hi=3, parts=True, missing=True),
        gen.op_pseudo(max_pairs=2, hi=3, parts=True),
    ]
    show = gen.d(
        op=st.just("show"),
        what=st.sampled_from(["process", "mean", "kernel", "cross", "fdd", "joint"]),
        m=st.integers(0, 3),
        p=gen.idx,
        q=gen.idx,
        r=st.booleans(),
        x=gen.points(1, 3),
        n=gen.noise(("none", "scal", "vec")),
    )
    name = gen.d(op=st.just("name"), m=st.integers(0, 3), p=gen.idx)
    second = lin + cond * 3 + [gen.op_cross(nest=True), gen.op_mulgp()]
    second = second + [gen.op_post()] * 3
    prog = gen.program(first, query=1, special=False, delta=False)
    ex = gen.d(
        second=st.lists(
            gen.either(second + [show] * 30 + [name] * 3), min_size=2, max_size=8
        )
    )
    return st.tuples(prog, ex).map(lambda t: dict(t[0], qs=[], **t[1]))


CALLS = []
LAZY = ("name", "cond", "pseudo", "gp", "cross")


def traced(name, f):
    def g(x):
        CALLS.append(name)
        return f(x)

    g.__name__ = "f" + name
    return g


def check_model(ctx, case):
    import numpy as np

    from .. import interp
    from ..core import close, ok_cond, require
    from .C19 import LOG, tracked

    T = tracked()
    texts = []

    def execute(display):
        w = interp.World(ctx, d=case["d"])

        def lazy(op, first):
            bad = LOG.pairs + LOG.elwise + CALLS
            what = op.get("what", "")
            # Given data, a process or a kernel may hold on to the covariance of the data.
            copy = op["op"] == "cond" and op["how"] // 6 % 2
            if not copy and (first or op["op"] in LAZY or what in ("fdd", "joint")):
                ctx.compared += 1
                require(not bad, f"{op['op']} {what}: evaluated {bad[:5]}.")
            LOG.pairs.clear(), LOG.elwise.clear(), CALLS.clear()

        for i, op in enumerate(case["ops"] + case["second"]):
            op, first = dict(op), len(w.M) == 1
            if op["op"] == "show":
                if display:
                    show(ctx, w, op, texts)
            elif op["op"] == "name":
                m = w.meas(op["m"])
                p = w.pick(op["p"], lambda p: m.ref in p.ref.measures)
                m.m.name(p.gp, f"name {i}")
            else:
                if op["op"] == "pseudo" and op["how"] % 4 >= 2:
                    # This would ask for the ELBO.
                    op["how"] -= 2
                w.run([op])
            lazy(op, first)
        return w

    plain_kernel, plain_fn = interp.make_kernel, dict(interp.FN)
    interp.make_kernel = lambda spec: T(plain_kernel(spec))
    interp.FN.update({k: traced(k, f) for k, f in plain_fn.items()})
    LOG.pairs.clear(), LOG.elwise.clear(), CALLS.clear()
    try:
        w1, w2 = execute(True), execute(False)
        if texts and (len(w1.M) > 1 or len(w1.P) > len(case["ops"])):
            ctx.mark()
        x = {1: np.array([0.25, 1.0]), 2: np.array([[0.25, 0.5], [1.0, -0.75]])}
        x[3] = np.array([[0.25, 0.5, 1.0], [1.0, -0.75, 0.5]])
        if ok_cond(ctx):
            for m1, m2 in zip(w1.M, w2.M):
                for p1, p2 in list(zip(w1.P, w2.P))[-4:]:
                    if m1.ref not in p1.ref.measures:
                        continue
                    z = x[p1.ref.need]
                    close(ctx, "mean", m1.m.means[p1.gp](z), to(m2.m.means[p2.gp](z)))
                    k1, k2 = m1.m.kernels[p1.gp], m2.m.kernels[p2.gp]
                    close(ctx, "variance", k1(z), to(k2(z)))
        # Computing does not change what is displayed.
        n = len(LOG.pairs), len(LOG.elwise), len(CALLS)
        for f, text in texts:
            require(f() == text, f"Displayed differently after computing: {text}, {f()}.")
        now = len(LOG.pairs), len(LOG.elwise), len(CALLS)
        require(n == now, "Displaying evaluated something.")
    finally:
        interp.make_kernel = plain_kernel
        interp.FN.update(plain_fn)


def to(x):
    from ..core import to_np

    return to_np(x)


def show(ctx, w, op, texts):
    """Display something."""
    from ..core import require
    from ..interp import S, noise_arg, grid

    m = w.meas(op["m"])
    many = op["p"] % 3 == 0 and any(p.comps and m.ref in p.ref.measures for p in w.P)
    p = w.pick(op["p"], lambda p: m.ref in p.ref.measures and (p.comps or not many))
    q = w.pick(op["q"], lambda p: m.ref in p.ref.measures)
    what = op["what"]
    ctx.label("display: " + what)
    fn = repr if op["r"] else str
    if what == "process":
        obj = p.gp
    elif what == "mean":
        obj = m.m.means[p.gp]
    elif what == "kernel":
        obj = m.m.kernels[p.gp]
    elif what == "cross":
        obj = m.m.kernels[p.gp, q.gp]
    else:

        def fdd(p):
            X = grid(op["x"], p.ref.need)
            z = noise_arg(op["n"], len(X) * p.D, w.bk)
            return p.gp(X, z)

        obj = fdd(p)
        if what == "joint" and q.ref.home is p.ref.home:
            obj = S.combine(obj, fdd(q))
    text = fn(obj)
    require(isinstance(text, str) and text, f"Displayed as {text!r}.")
    texts.append((lambda: fn(obj), text))
    if what not in ("fdd", "joint"):
        require(str(obj) == obj.display(), f"{obj} is not {obj.display()}.")
        marked = obj.display(lambda v: f"<<{v}>>")
        ctx.compared += 1
        require(
            marked.replace("<<", "").replace(">>", "") == text,
            f"The formatter changes more than numbers: {marked}, {text}.",
        )
        if what == "process" and p.comps:
            for c in p.comps:
                k = p.gp.measure.kernels[c.gp].display(lambda v: f"<<{v}>>")
                ctx.label("formatter of a Cartesian product")
                require(k in marked, f"{k} is not in {marked}.")


# ------------------------------------------------------------------------------
# Normal distributions.


def normal_strategy():
    asks = st.sampled_from(
        ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "m2", "entropy"]
        + ["logpdf", "sample", "mean_is_zero", "dim", "diagonalise"]
    )
    return gen.d(
        n=st.integers(1, 3),
        zero=st.booleans(),
        given=st.lists(st.booleans(), min_size=3, max_size=3),
        asks=st.lists(asks, min_size=1, max_size=6),
        r=st.booleans(),
    )


NEED = {
    "mean": {"mean", "var"},
    "mean_is_zero": {"mean"},
    "var": {"var"},
    "dim": {"var"},
    "var_diag": {"var", "var_diag"},
    "mean_var": {"mean", "var", "mean_var"},
    "marginals": {"mean", "var", "var_diag", "mean_var_diag"},
    "bounds": {"mean", "var", "var_diag", "mean_var_diag"},
    "diagonalise": {"mean", "var", "var_diag"},
}


def check_normal(ctx, case):
    import numpy as np

    from ..core import close, require
    from ..interp import S

    n = case["n"]
    A = np.eye(n) + np.arange(n * n).reshape(n, n) / 8
    var = A @ A.T
    mean = 0 if case["zero"] else np.linspace(-1, 2, n)[:, None]
    dense = np.zeros((n, 1)) if case["zero"] else mean
    calls = []

    def given(name, res):
        def f():
            calls.append(name)
            return res

        return f

    kw = {}
    names = ["var_diag", "mean_var", "mean_var_diag"]
    res = [np.diag(var), (mean, var), (mean, np.diag(var))]
    for name, r, g in zip(names, res, case["given"]):
        if g:
            kw[name] = given(name, r)
    d = S.Normal(given("mean", mean), given("var", var), **kw)
    fn = repr if case["r"] else str

    def show():
        before = list(calls)
        text = fn(d)
        require(calls == before, f"Displaying called {calls[len(before) :]}.")
        require(text.startswith("<Normal:"), text)
        # What was computed is displayed, and what was not is not.
        ctx.compared += 1
        known_var = "var" in calls or "mean_var" in calls
        known_mean = {"mean", "mean_var", "mean_var_diag"} & set(calls)
        want = (not known_mean) + (not known_var)
        require(text.count("unresolved") == want, f"{want} unresolved: {text}, {calls}.")

    require(not calls, "Constructing evaluated.")
    show()
    for a in case["asks"]:
        before = len(calls)
        if a == "bounds":
            m, lo, hi = d.marginal_credible_bounds()
            close(ctx, a, m, dense[:, 0])
        elif a == "marginals":
            m, v = d.marginals()
            close(ctx, a, m, dense[:, 0])
            close(ctx, a, v, np.diag(var))
        elif a == "diagonalise":
            close(ctx, a, d.diagonalise().var, np.diag(np.diag(var)))
        elif a == "logpdf":
            d.logpdf(np.ones((n, 1)))
        elif a in ("entropy", "sample"):
            getattr(d, a)()
        else:
            got = getattr(d, a)
            if a == "mean":
                close(ctx, a, got, dense)
            elif a == "var":
                close(ctx, a, got, var)
        new = calls[before:]
        ctx.label(a)
        for c in new:
            require(calls.count(c) == 1, f"{c} was computed repeatedly: {calls}.")
        if a in NEED:
            bad = set(new) - NEED[a]
            require(not bad, f"{a} computed {bad}.")
        show()
    if len(case["asks"]) > 1:
        ctx.mark()


PARTS = {
    "model": {
        "strategy": model_strategy,
        "check": check_model,
        "quick": 600,
        "thorough": 20000,
    },
    "normal": {
        "strategy": normal_strategy,
        "check": check_normal,
        "quick": 1500,
        "thorough": 30000,
    },
}
