"""Names: per measure, a bijection between names and named processes."""

from hypothesis import strategies as st

from .. import gen

RULE = (
    "A case is a sequence of 2-14 operations on up to four measures and their processes: "
    "construct a process with or without a name, name or rename a process under one "
    "measure or under all of its measures, also to its own name, a freed name, or a taken "
    "name (which must be rejected), derive processes, condition, and copy processes to a "
    "posterior. After every operation, looking up every name and every process in every "
    "measure is compared with a dictionary model. Non-trivial: at least one process was "
    "renamed, or one name was rejected, with at least two names in use."
)
ASSUMPTIONS = [
    "If a name is taken in one of several measures of a process, then which of the other "
    "measures take the new name is left open.",
]

NAMES = ["a", "b", "c", "f + g"]


def strategy():
    i = gen.idx
    name = st.sampled_from(NAMES)
    d, j = gen.d, st.just
    ops = [
        d(op=j("gp"), m=i, name=st.one_of(st.none(), name), ctx=st.booleans()),
        d(op=j("gp"), m=i, name=name, ctx=st.booleans()),
        d(op=j("set"), p=i, name=name),
        d(op=j("set"), p=i, name=name),
        d(op=j("set"), p=i, name=name),
        d(op=j("name"), m=i, p=i, name=name),
        d(op=j("name"), m=i, p=i, name=name),
        d(op=j("own"), m=i, p=i),
        d(op=j("derive"), p=i, q=i, how=i),
        d(op=j("cond"), m=i, p=i),
        d(op=j("copy"), m=i, p=i),
    ]
    return d(ops=st.lists(gen.either(ops), min_size=2, max_size=14))


def check(ctx, case):
    import numpy as np

    from ..core import require, to_np
    from ..interp import S

    ms = [S.Measure()]
    P = []  # Tuples of a process and its measures.
    model = [{}]  # For every measure, names to indices of processes.
    renamed = False

    def gp_named(k, p):
        return next((n for n, q in model[k].items() if q == p), None)

    def assign(k, p, name):
        """Model of naming. Returns whether it is allowed."""
        if model[k].get(name, p) != p:
            return False
        old = gp_named(k, p)
        if old is not None:
            del model[k][old]
        model[k][name] = p
        return True

    x = np.array([0.0, 1.0])

    def size(p):
        return len(to_np(p.mean(x)))

    def lookup(f):
        try:
            return f()
        except (LookupError, RuntimeError):
            return None

    def audit(what):
        for k, m in enumerate(ms):
            for n in NAMES:
                got, want = lookup(lambda: m[n]), model[k].get(n)
                ctx.compared += 1
                if want is None:
                    require(got is None, f'{what}: name "{n}" should not be in use.')
                else:
                    require(got is P[want][0], f'{what}: name "{n}" gives the wrong GP.')
            for i, (p, mine) in enumerate(P):
                if k in mine:
                    got, want = lookup(lambda: m[p]), gp_named(k, i)
                    require(got == want, f"{what}: name is {got!r}, expected {want!r}.")
        for i, (p, mine) in enumerate(P):
            got, want = lookup(lambda: p.name), gp_named(mine[0], i)
            require(got == want, f"{what}: `.name` is {got!r}, expected {want!r}.")

    for op in case["ops"]:
        kind = op["op"]
        if kind == "gp":
            k = op["m"] % len(ms)
            name = op["name"]
            ok = name is None or name not in model[k]
            try:
                if op["ctx"]:
                    with ms[k]:
                        p = S.GP(S.EQ(), name=name)
                else:
                    p = S.GP(1, S.EQ(), measure=ms[k], name=name)
            except RuntimeError:
                require(not ok, f'Name "{name}" was free, but was rejected.')
                ctx.label("rejected")
                renamed = True
            else:
                require(ok, f'Name "{name}" was taken, but was accepted.')
                P.append((p, [k]))
                if name is not None:
                    model[k][name] = len(P) - 1
        elif not P:
            continue
        elif kind == "set":
            i = op["p"] % len(P)
            p, mine = P[i]
            before = {k: gp_named(k, i) for k in mine}
            name = op["name"]
            bad = [k for k in mine if model[k].get(name, i) != i]
            try:
                p.name = name
            except RuntimeError:
                require(bad, f'Name "{name}" was free, but was rejected.')
                ctx.label("rejected")
                for k in mine:
                    got = lookup(lambda: ms[k][p])
                    if k in bad:
                        require(
                            got == before[k],
                            f"Failed renaming changed the name to {got!r}.",
                        )
                    else:
                        require(
                            got in (before[k], name),
                            f"Failed renaming changed the name to {got!r}.",
                        )
                        if got == name:
                            assign(k, i, name)
            else:
                require(not bad, f'Name "{name}" was taken, but was accepted.')
                for k in mine:
                    assign(k, i, name)
                if any(b not in (None, name) for b in before.values()):
                    ctx.label("renamed")
            renamed = True
            if len(mine) > 1:
                ctx.label("several measures")
        elif kind in ("name", "own"):
            i = op["p"] % len(P)
            p, mine = P[i]
            k = mine[op["m"] % len(mine)]
            name = gp_named(k, i) if kind == "own" else op["name"]
            if name is None:
                continue
            ok = model[k].get(name, i) == i
            try:
                ms[k].name(p, name)
            except RuntimeError:
                require(not ok, f'Name "{name}" was free, but was rejected.')
                ctx.label("rejected")
            else:
                require(ok, f'Name "{name}" was taken, but was accepted.')
                assign(k, i, name)
            renamed = True
        elif kind == "derive":
            i = op["p"] % len(P)
            p, mine = P[i]
            same = [j for j in range(len(P)) if P[j][1][0] == mine[0]]
            q, theirs = P[same[op["q"] % len(same)]]
            h = op["how"] % 4
            if h == 0:
                new = p + q if size(p) == size(q) == 2 else p * 2
            elif h == 1:
                new = S.cross(p, q)
            elif h == 2:
                new, theirs = 2 * p, mine
            else:
                new, theirs = p.shift(1), mine
            P.append((new, [k for k in mine if k in theirs]))
        elif kind == "cond":
            if len(ms) > 3:
                continue
            k = op["m"] % len(ms)
            known = [j for j in range(len(P)) if k in P[j][1]]
            if not known:
                continue
            p = P[known[op["p"] % len(known)]][0]
            ms.append(ms[k] | (p(x, 1), np.ones(size(p))))
            for j in known:
                P[j][1].append(len(ms) - 1)
            model.append({})
            ctx.label("conditioned")
        elif kind == "copy":
            i = op["p"] % len(P)
            k = P[i][1][op["m"] % len(P[i][1])]
            P.append((ms[k](P[i][0]), [k]))
        audit(kind)
        if renamed and max(len(names) for names in model) >= 2:
            ctx.mark()


PARTS = {"names": {"strategy": strategy, "check": check, "quick": 8000, "thorough": 80000}}
