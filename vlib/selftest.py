"""Check that the machinery is in working order: libraries, generators, runner."""

import glob
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vlib import env  # noqa: E402


def main():
    import hypothesis as hyp
    import numpy as np

    from vlib import exec_case, load_check
    from vlib.core import Ctx, HarnessError, Violation, close

    stheno = env.load_stheno()
    print(f"stheno from {os.path.dirname(stheno.__file__)}, Hypothesis {hyp.__version__}")
    try:
        close(Ctx(), "difference", np.ones(2), np.array([1.0, 1.1]))
    except Violation:
        pass
    else:
        raise RuntimeError("The comparison does not see differences.")
    rc = 0
    for f in sorted(glob.glob(os.path.join(HERE, "vlib", "checks", "C*.py"))):
        pid = os.path.basename(f)[:-3]
        check = load_check(pid)
        for part, spec in check.PARTS.items():
            cases = []

            @hyp.seed(1)
            @hyp.settings(
                max_examples=2,
                database=None,
                deadline=None,
                phases=[hyp.Phase.generate],
                suppress_health_check=list(hyp.HealthCheck),
            )
            @hyp.given(spec["strategy"]())
            def collect(case):
                cases.append(case)

            collect()
            if pid == "C14":
                # Do not load all backends here.
                continue
            for case in cases:
                ctx, failure = exec_case(check, part, case)
                if isinstance(failure, HarnessError):
                    print(f"{pid}/{part}: {failure}")
                    rc = 2
        print(f"{pid}: parts {', '.join(check.PARTS)}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
