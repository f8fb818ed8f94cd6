"""Set-up: compile the simulator and see that one simulated run is repeatable."""
from __future__ import annotations

import sys

from . import boot

if __name__ == "__main__":
    boot.ensure_env()
    from . import gen, main, work

    G = gen.Gen("C11", 1)
    P = work.Pool()

    def worker(w, nw, send):
        work.settle()
        G2 = gen.Gen("C09", 1)
        for i in range(4):
            p = G2.plan(i)
            a = main.run_plan(p)[1]["log"]
            b = main.run_plan(p)[1]["log"]
            send(("r", a == b))

    res = P.map(worker, nw=1)
    ok = bool(res) and all(m == ("r", True) for m in res)
    print("repeatable" if ok else f"NOT REPEATABLE: {res}")
    sys.exit(0 if ok else 1)
