"""Recorded value queries and the hints they are judged with."""
import numpy as np
import lib, oracle


def hint(log, am, h, kind, goal, live, to):
    """Record the exact values as a hint; returns (q, v) or None."""
    if kind.startswith("pr"):
        vals = oracle.pr(am, goal, live, kind[2:])
        sc = oracle.scale(vals, am["D"])
    else:
        vals = oracle.rew(am, live, kind[3:])
        sc = oracle.scale(vals, am["D"], base=4, top=10 ** 9, extra=max([4] + am["rew"]) // 4 + 1)
    if sc is None:
        return None
    q, v = sc
    log.note("hint", {"h": h, "kind": kind, "goal": sorted(goal), "live": sorted(live), "q": q, "v": v, "to": to}, {"z": 0})
    return q, v, vals


def rfhint(log, am, h, kind, to):
    """Hint on a whole reachability form with abstract system am."""
    n = am["n"]
    return hint(log, am, h, kind, [n - 2], range(n - 2), to)


def value(log, rf, h, kind, hq, hname, name, solver):
    q = hq[0]
    log.call("value", {"h": h, "hint": hname, "kind": kind, "query": name, "solver": solver},
             lambda: getattr(rf, name)(solver=solver), lambda o: {"q": q, "v": lib.fixv(o, q)})


def step(log, rf, h, hq, hname, solver):
    q = hq[0]
    log.call("step", {"h": h, "hint": hname, "solver": solver},
             lambda: rf.max_z_state_action(solver=solver), lambda o: {"q": q, "v": lib.fixv(o, q)})


def qy_for(vec, D, mult=1):
    tot = float(np.sum(np.abs(np.asarray(vec, dtype=float))))
    if not np.isfinite(tot):
        return 1000
    return max(1, min(1000, int(5e5 / (D * mult * max(1.0, tot))))) * 1000


def flow(log, rf, am, h, hname, solver, to="flow"):
    D = am["D"]
    mult = max([1] + [r for r in am["rew"]]) if am["rew"] else 1
    box = {}

    def proj(o):
        qy = qy_for(o, D, max(1, mult // D + 1))
        box["q"] = qy
        return {"q": qy, "v": lib.fixv(o, qy)}
    a = {"h": h, "hint": hname, "solver": solver, "to": to}
    if log.call("flow", a, lambda: rf.max_y_state_action(solver=solver), proj) is None:
        return
    log.call("flowstate", {"h": h, "flow": to, "solver": solver}, lambda: rf.max_y_state(solver=solver),
             lambda o: {"v": lib.fixv(o, box["q"])})
