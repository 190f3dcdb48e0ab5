"""Property-based checks for stheno: generators, reference models and the runner."""


def load_check(pid):
    import importlib

    return importlib.import_module(f"vlib.checks.{pid}")


def exec_case(check, part, case):
    """Run one case. Returns the bookkeeping and the failure, if there was one."""
    import copy

    from .core import Ctx, Skip, classify_exception

    ctx = Ctx()
    try:
        check.PARTS[part]["check"](ctx, copy.deepcopy(case))
    except Skip as e:
        ctx.label(f"not judged: {e}")
        ctx.nontrivial = False
    except Exception as e:
        return ctx, classify_exception(e)
    return ctx, None
