"""Lazy vectors and matrices."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "Parts `vector` and `matrix`: a case is a sequence of 2-16 assignments, additions of "
    "rules (universal, left, right; domains of any size, also changed afterwards by the "
    "caller), and look-ups with integers, objects, objects that are equal but not identical, "
    "tuples, and single indices for diagonals, where builders may look up other elements or "
    "raise. After every step, results and the calls of the builders are compared with a "
    "model of a dictionary and a list of rules. Part `add_gp`: programs with processes that "
    "are added to a measure with left (and right) rules of the user, under priors and "
    "posteriors, compared with the dense reference, and the calls of the rules recorded. "
    "Non-trivial: some element was built by a rule after another rule or an assignment had "
    "precedence somewhere (`vector`, `matrix`); a custom process was compared (`add_gp`)."
)
ASSUMPTIONS = ["Assignments replace elements, also those that were built."]


def strategy(rank):
    i = gen.either([st.integers(0, 2)] * 2 + [st.integers(0, 6)])
    d, j = gen.d, st.just
    dom = st.lists(i, min_size=0, max_size=8)
    # What a builder does: return a value, raise the first time, look up another element.
    act = st.sampled_from(["value", "value", "value", "value", "raise", "none", "look"])
    key = i if rank == 1 else st.tuples(i, i).map(list)
    get = d(op=j("get"), k=key, how=gen.how)
    ops = [
        get,
        get,
        get,
        d(op=j("set"), k=key, how=gen.how),
        d(op=j("rule"), dom=dom, act=act, to=key, how=gen.how),
        d(op=j("mutate"), r=gen.idx, i=i),
    ]
    if rank == 2:
        side = d(
            op=st.sampled_from(["left", "right"]),
            i=i,
            dom=dom,
            act=act,
            to=key,
            how=gen.how,
        )
        diag = d(op=j("get"), k=i.map(lambda x: [x, x]), how=gen.how)
        ops += [side, side, side, get, diag]
    return d(ops=st.lists(gen.either(ops), min_size=8, max_size=20))


class Same:
    """Equal to everything of its kind."""

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 0


class Refused(Exception):
    pass


def check(ctx, case, rank):
    from ..core import raises, require
    from ..interp import S  # noqa: F401  (imports stheno)

    from stheno.lazy import LazyMatrix, LazyVector

    lazy = LazyVector() if rank == 1 else LazyMatrix()
    # Indices: integers, equal but different objects, and others.
    keys = [0, 1, Same(), Same(), [], [], 10**6]
    name = {i: (k if isinstance(k, int) else id(k)) for i, k in enumerate(keys)}
    back = {v: i for i, v in name.items()}

    store, rules, domains = {}, [], []
    calls = []  # Of builders: tuples of rule and index.
    expect = []
    raised = set()
    overlap = [False]

    def full(k):
        return (k,) if rank == 1 else tuple(k)

    def find(k):
        """First applicable rule: universal ones, left ones, right ones."""
        hits = []
        for kind in ("rule", "left", "right"):
            for r in rules:
                if r["op"] == kind and applies(r, k):
                    hits.append(r)
        return hits

    def applies(r, k):
        if r["op"] == "rule":
            return all(i in r["dom"] for i in k)
        if r["op"] == "left":
            return k[0] == r["i"] and k[1] in r["dom"]
        return k[1] == r["i"] and k[0] in r["dom"]

    class Missing(Exception):
        pass

    class Loop(Exception):
        pass

    def model(k, stack=()):
        """Value of an element in the model."""
        if k in store:
            return store[k]
        if k in stack:
            raise Loop
        hits = find(k)
        if not hits:
            raise Missing
        if len(hits) > 1:
            overlap[0] = True
        r = hits[0]
        expect.append((r["n"], k))
        if r["act"] == "raise" and (r["n"], k) not in raised:
            raised.add((r["n"], k))
            raise Refused
        if r["act"] == "look":
            v = ("look", r["n"], k, model(full(r["to"]), stack + (k,)))
        else:
            v = None if r["act"] == "none" else (r["n"], k)
        store[k] = v
        return v

    def get(k, how):
        if rank == 1:
            return lazy[(keys[k[0]],)] if how % 2 else lazy[keys[k[0]]]
        if k[0] == k[1] and how % 2:
            return lazy[keys[k[0]]]
        return lazy[keys[k[0]], keys[k[1]]]

    real_raised = set()

    def builder(r):
        def build(*args):
            if r["op"] == "rule":
                k = tuple(back[a] for a in args)
                require(len(args) == rank, f"Builder called with {len(args)} indices.")
            elif r["op"] == "left":
                k = (r["i"], back[args[0]])
            else:
                k = (back[args[0]], r["i"])
            if r["op"] != "rule":
                require(len(args) == 1, f"Builder called with {len(args)} indices.")
            calls.append((r["n"], k))
            if r["act"] == "raise" and (r["n"], k) not in real_raised:
                real_raised.add((r["n"], k))
                raise Refused
            if r["act"] == "look":
                return ("look", r["n"], k, get(full(r["to"]), r["how"]))
            return None if r["act"] == "none" else (r["n"], k)

        return build

    built = 0
    for n, op in enumerate(case["ops"]):
        if op["op"] == "set":
            k = full(op["k"])
            v = ("set", n)
            if rank == 2 and k[0] == k[1] and op["how"] % 2:
                lazy[keys[k[0]]] = v
            elif rank == 2:
                lazy[keys[k[0]], keys[k[1]]] = v
            else:
                lazy[keys[k[0]]] = v
            store[k] = v
        elif op["op"] in ("rule", "left", "right"):
            r = dict(op, n=n)
            domain = {name[i] for i in op["dom"]}
            if op["op"] == "rule":
                lazy.add_rule(domain, builder(r))
            elif op["op"] == "left":
                lazy.add_left_rule(name[op["i"]], domain, builder(r))
            else:
                lazy.add_right_rule(name[op["i"]], domain, builder(r))
            rules.append(r)
            domains.append(domain)
        elif op["op"] == "mutate":
            # What the caller does to the set afterwards does not matter.
            if domains:
                domains[op["r"] % len(domains)].add(name[op["i"]])
        else:
            k = full(op["k"])
            before = len(store)
            calls.clear(), expect.clear()
            try:
                want = model(k)
            except Missing:
                raises(RuntimeError, lambda: get(k, op["how"]), f"Look-up of {k}")
            except Refused:
                raises(Refused, lambda: get(k, op["how"]), f"Look-up of {k}")
                ctx.label("builder raises")
            except Loop:
                # Elements that are defined in terms of themselves.
                ctx.label("circular")
                return
            else:
                got = get(k, op["how"])
                ctx.compared += 1
                require(got == want, f"Element {k}: got {got}, expected {want}.")
                built += len(store) > before
            require(
                calls == expect,
                f"Look-up of {k}: builders called {calls}, expected {expect}.",
            )
    # Look at everything once more: nothing is built again.
    calls.clear()
    for k, v in list(store.items()):
        got = get(k, 0)
        ctx.compared += 1
        require(got == v, f"Element {k}: got {got}, expected {v}.")
    require(not calls, f"Elements are built again: {calls}.")
    if overlap[0]:
        ctx.label("several rules apply")
    if built and (overlap[0] or len(store) > built):
        ctx.mark()


def gp_strategy():
    lin = gen.ops_linear(zero_ok=False)
    custom = gen.d(
        op=st.just("custom"),
        m=st.integers(0, 3),
        p=gen.idx,
        q=gen.idx,
        # Positive: if a rule of the user cancels to the zero kernel, then the size of the
        # covariance with a Cartesian product cannot be known.
        a=st.sampled_from([0.5, 1.0, 2.0]),
        b=st.sampled_from([0.0, 0.5, 1.0, 3.0]),
        right=st.booleans(),
    )
    stages = [
        (lin, 0, 3),
        ([gen.op_cross()], 0, 1),
        ([gen.op_cond(max_pairs=2, hi=3)], 0, 1),
        ([custom], 1, 1),
        (lin + [custom, gen.op_post(), gen.op_cross()], 0, 3),
        ([gen.op_cond(max_pairs=2, hi=3)], 0, 1),
        ([custom], 0, 1),
    ]
    return gen.program(stages, query=2)


def check_gp(ctx, case):
    from ..core import require
    from ..interp import World
    from ..query import check_pair, process_pair

    w = World(ctx, d=case["d"], unique=case["unique"]).run(case["ops"])
    if not w.custom:
        return
    # Which rule is used for which side.
    for c in w.custom:
        p, m = c["p"], c["m"]
        for q, was in c["others"]:
            n_left, n_right = len(c["left"]), len(c["right"])
            m.m.kernels[p.gp, q.gp]
            m.m.kernels[p.gp, q.gp]
            k = id(q.gp)
            ctx.compared += 1
            require(c["left"].count(k) == 1, f"Left rule used {c['left'].count(k)} times.")
            require(len(c["left"]) <= n_left + 1, "Left rule used for another process.")
            m.m.kernels[q.gp, p.gp]
            m.m.kernels[q.gp, p.gp]
            if c["has_right"]:
                count = c["right"].count(k)
                require(count == 1, f"Right rule used {count} times.")
                require(len(c["right"]) <= n_right + 1, "Right rule used for another one.")
            require(c["left"].count(k) == 1, f"Left rule used {c['left'].count(k)} times.")
    for c in w.custom:
        for qs in case["qs"]:
            q = w.pick(qs["q"], lambda q: c["m"].ref in q.ref.measures)
            if q is not None and c["p"] in w.P:
                if check_pair(ctx, w, c["m"], c["p"], q, qs):
                    ctx.mark()
    for qs in case["qs"]:
        m, p, q = process_pair(w, qs)
        if p is not None and q is not None:
            check_pair(ctx, w, m, p, q, qs)


PARTS = {
    "vector": {
        "strategy": lambda: strategy(1),
        "check": lambda ctx, case: check(ctx, case, 1),
        "quick": 2400,
        "thorough": 120000,
    },
    "matrix": {
        "strategy": lambda: strategy(2),
        "check": lambda ctx, case: check(ctx, case, 2),
        "quick": 6000,
        "thorough": 240000,
    },
    "add_gp": {
        "strategy": gp_strategy,
        "check": check_gp,
        "quick": 480,
        "thorough": 16000,
    },
}
