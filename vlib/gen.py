"""Generators of model programs (see :mod:`.interp`)."""

from hypothesis import strategies as st

SCALES = [-2.0, -1.0, -0.5, 0.5, 1.0, 1.5, 2.0, 3.0]
STRETCH = [0.5, 0.75, 1.0, 1.5, 2.0]
SHIFTS = [-2.0, -1.25, -0.5, 0.25, 0.5, 1.0, 3.0]

idx = st.integers(0, 7)
how = st.integers(0, 11)
FN_NAMES = ["lin", "sq", "sin", "exp", "aff"]
TF_NAMES = ["dbl", "neg", "inc", "cube", "sinx", "sqx"]


def either(options):
    """Like `st.one_of`, but options that are repeated weigh more (`st.one_of` drops
    repetitions)."""
    return st.integers(0, len(options) - 1).flatmap(lambda i: options[i])


def d(**kw):
    return st.fixed_dictionaries(kw)


def just(x):
    return st.just(x)


# Whether numbers of points are sometimes large. Checks can set it.
BIG = False


def points(lo=1, hi=4, span=10):
    few = st.lists(
        st.lists(st.integers(-span, span), min_size=2, max_size=2),
        min_size=lo,
        max_size=hi,
    )
    if not BIG:
        return few
    # Distinct points, in no particular order, less dense than `few` if there are many.
    many = st.integers(20, 130).map(
        lambda n: [[(131 * i) % n - n // 2, (11 * i) % 41 - 20] for i in range(n)]
    )
    return st.integers(0, 39).flatmap(lambda i: many if i == 39 else few)


SMOOTH = ["EQ", "M12", "M32", "M52", "RQ"]


def atom(kinds):
    return d(
        k=st.sampled_from(kinds),
        v=st.sampled_from([0.25, 0.5, 1.0, 2.0]),
        l=st.sampled_from([None, None, 0.5, 0.75, 1.5, 2.0]),
        p=st.sampled_from([None, None, None, None, 1.5, 3.0]),
    )


def kern(special=True, delta=False):
    kinds = SMOOTH + SMOOTH + (["Lin", "One"] if special else [])
    kinds = kinds + (["Delta", "Delta"] if delta else [])
    base = st.lists(atom(kinds), min_size=1, max_size=2)
    if delta:
        base = base.map(
            lambda ks: [dict(k, p=None) if k["k"] == "Delta" else k for k in ks]
        )
    if not special:
        return base
    odd = [atom([k]).map(lambda a: [a]) for k in ("Fn", "Num", "Zero")]
    return either([base] * 4 + odd)


def mean():
    v = st.sampled_from([-1.5, -1.0, 0.5, 2.0])
    return either(
        [
            just({"t": "zero"}),
            just({"t": "zero"}),
            d(t=just("const"), v=v),
            d(t=just("fn"), f=st.sampled_from(FN_NAMES)),
            d(t=just("Mean"), v=v, f=st.sampled_from(FN_NAMES)),
        ]
    )


def op_gp(special=True, delta=False, m=0):
    return d(
        op=just("gp"),
        mean=mean(),
        kern=kern(special, delta),
        m=just(m),
        how=how,
        dim=st.sampled_from([1, 2, 2, 3]),
    )


def ops_linear(zero_ok=True):
    """Operations that build new processes from existing ones, without products of
    processes and without Cartesian products."""
    c = st.sampled_from(SCALES + ([0.0] if zero_ok else []))
    f = st.sampled_from(FN_NAMES)
    return [
        d(op=just("add"), p=idx, q=idx),
        d(op=just("add"), p=idx, q=idx),
        d(op=just("sub"), p=idx, q=idx),
        d(op=just("mul"), p=idx, c=c, how=how),
        d(op=just("shiftval"), p=idx, c=st.sampled_from(SCALES), how=how),
        d(op=just("addf"), p=idx, f=f, how=how),
        d(op=just("mulf"), p=idx, f=f, how=how),
        d(op=just("shift"), p=idx, c=st.sampled_from(SHIFTS), how=how),
        d(op=just("stretch"), p=idx, c=st.sampled_from(STRETCH), how=how),
        d(op=just("transform"), p=idx, f=st.sampled_from(TF_NAMES)),
        d(
            op=just("select"),
            p=idx,
            dims=st.lists(st.integers(0, 2), min_size=1, max_size=3),
        ),
        d(op=just("drop"), p=idx),
    ]


def op_mulgp():
    return d(op=just("mulgp"), p=idx, q=idx)


def op_cross(nest=False, hi=3):
    return d(
        op=just("cross"),
        ps=st.lists(idx, min_size=1 if nest else 2, max_size=hi),
        nest=just(nest) if not nest else st.booleans(),
    )


NOISES = ["none", "scal", "vec", "mat", "diag", "dense", "zero"]


def noise(kinds=("scal", "scal", "vec", "mat", "diag", "dense", "none"), lo=1):
    return d(
        t=st.sampled_from(list(kinds)),
        v=st.lists(st.integers(lo, 12), min_size=2, max_size=4),
        # Sometimes much smaller or larger than the variances of the processes.
        e=st.sampled_from([0] * 8 + [-3, 2]),
    )


def comps(hi=3):
    return st.one_of(
        just(None),
        st.lists(st.tuples(idx, points(1, 3)).map(list), min_size=1, max_size=hi),
    )


def loc(lo=1, hi=4, parts=False):
    kw = dict(x=points(lo, hi), r=st.integers(0, 2))
    if parts:
        kw["t"] = comps()
        kw["single"] = st.booleans()
    return kw


def located(lo=1, hi=4, parts=False, **kw):
    return d(p=idx, **loc(lo, hi, parts), **kw)


def ys(missing=False, n=6):
    v = st.integers(-12, 12)
    v = either([v] * 10 + [st.sampled_from([-4000, 900, 4000])])
    if missing:
        v = either([v, v, just(None)])
    return st.lists(v, min_size=1, max_size=n)


def obs_item(lo=1, hi=4, parts=False, noises=None):
    return d(
        p=idx,
        **loc(lo, hi, parts),
        n=noise() if noises is None else noise(noises),
        yc=st.booleans(),
        b=st.booleans(),
    )


def op_cond(max_pairs=3, lo=1, hi=4, parts=False, missing=False, noises=None, m=None):
    return d(
        op=just("cond"),
        m=st.integers(0, 3) if m is None else just(m),
        obs=st.lists(obs_item(lo, hi, parts, noises), min_size=1, max_size=max_pairs),
        y=ys(missing),
        how=how,
        missing=just(missing),
    )


DIAG_NOISE = ("scal", "vec", "diag")


def op_pseudo(max_pairs=2, hi=5, parts=False, missing=False, methods=None, m=None):
    return d(
        op=just("pseudo"),
        m=st.integers(0, 3) if m is None else just(m),
        obs=st.lists(obs_item(1, hi, parts, DIAG_NOISE), min_size=1, max_size=max_pairs),
        u=st.lists(
            d(
                p=idx,
                **loc(1, 4, parts),
                n=noise(("none", "none", "none", "scal", "vec", "diag")),
            ),
            min_size=1,
            max_size=2,
        ),
        y=ys(missing),
        method=st.sampled_from(methods or ["vfe", "fitc", "dtc"]),
        how=how,
        missing=just(missing),
    )


def op_reuse():
    return d(op=just("reuse"), m=st.integers(0, 3), o=idx)


def op_post():
    return d(op=just("post"), m=st.integers(0, 3), p=idx)


def op_query():
    return d(op=just("query"), m=st.integers(0, 3), p=idx, q=idx)


@st.composite
def program(
    draw,
    stages,
    base_hi=3,
    special=True,
    delta=None,
    query=2,
    parts=False,
    qhi=4,
    one_d=False,
):
    """A program: some base processes, and then a number of operations from every stage.

    Args:
        stages (list): Tuples `(strategies, lo, hi)`.
        delta (bool or None): Use Kronecker delta kernels. By default in a few cases.
    """
    use_delta = draw(st.integers(0, 5)) == 0 if delta is None else delta
    dim = 1 if use_delta or one_d else draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    # Kernels of finite rank only in some of the programs: they restrict the rest.
    special = special and draw(st.integers(0, 2)) == 0
    ops = draw(st.lists(op_gp(special, use_delta), min_size=1, max_size=base_hi))
    for tail, lo, hi in stages:
        ops = ops + draw(st.lists(either(tail), min_size=lo, max_size=hi))
    case = {"d": dim, "unique": use_delta, "ops": ops}
    case["qs"] = draw(
        st.lists(
            d(
                m=st.integers(0, 3),
                p=idx,
                q=idx,
                **loc(1, qhi, parts),
                x2=points(1, 3),
                r2=st.integers(0, 2),
                t2=comps() if parts else just(None),
                n=noise(NOISES),
                how=how,
            ),
            min_size=1,
            max_size=query,
        )
    )
    return case
