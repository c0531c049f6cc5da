"""Untrusted exact solver for hints: extremal reachability probabilities and
expected rewards by policy iteration over fractions.  The specification accepts
its answers only after verifying them (spec/Values.tla)."""
from fractions import Fraction as F
from math import gcd, lcm


def rows_by_state(am):
    out = {s: [] for s in range(am["n"])}
    for i, r in enumerate(am["rows"]):
        out[r["s"]].append((i, [(d, F(k, am["D"])) for d, k in r["t"] if k > 0]))
    return out


def solve(A, b):
    n = len(b)
    M = [row[:] + [b[i]] for i, row in enumerate(A)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise ZeroDivisionError("singular")
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]
        M[c] = [x * iv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


def evaluate(states, pol, fixed, rew=None):
    """Solve v = rew + P_pol v on states, v = fixed elsewhere."""
    ix = {s: i for i, s in enumerate(states)}
    A, b = [], []
    for s in states:
        row = [F(0)] * len(states)
        row[ix[s]] += 1
        c = rew(pol[s][0]) if rew else F(0)
        for d, p in pol[s][1]:
            if d in ix:
                row[ix[d]] -= p
            else:
                c += p * fixed.get(d, 0)
        A.append(row)
        b.append(c)
    return dict(zip(states, solve(A, b)))


def pr(am, goal, live, mode):
    """Extremal probability of reaching goal through live states."""
    goal, live = set(goal), set(live)
    by = rows_by_state(am)
    fixed = {g: F(1) for g in goal}
    if mode == "max":
        pol, W = {}, set(goal)
        while True:
            new = {}
            for s in live - W:
                for row in by[s]:
                    if any(d in W for d, _ in row[1]):
                        new[s] = row
                        break
            if not new:
                break
            pol.update(new)
            W |= set(new)
        act = sorted(W - goal)
    else:
        B = set(live)
        dead = set(range(am["n"])) - live - goal
        while True:
            keep = {s for s in B if any(all(d in B or d in dead for d, _ in t) for _, t in by[s])}
            if keep == B:
                break
            B = keep
        act = sorted(live - B)
        pol = {s: by[s][0] for s in act}
    while True:
        if mode == "max":
            # states that reach the goal under pol
            R = set(goal)
            while True:
                add = {s for s in act if s not in R and any(d in R for d, _ in pol[s][1])}
                if not add:
                    break
                R |= add
            st = [s for s in act if s in R]
        else:
            st = act
        v = evaluate(st, pol, fixed)
        val = lambda d: fixed.get(d, v.get(d, F(0)))
        changed = False
        for s in act:
            cur = v.get(s, F(0))
            best, brow = cur, None
            for row in by[s]:
                x = sum((p * val(d) for d, p in row[1]), F(0))
                if (x > best) if mode == "max" else (x < best):
                    best, brow = x, row
            if brow is not None:
                pol[s] = brow
                changed = True
        if not changed:
            return [val(s) for s in range(am["n"])]


def rew(am, live, mode, scale=4):
    """Extremal expected reward collected while in live states (terminating)."""
    live = sorted(set(live))
    by = rows_by_state(am)
    pol = {s: by[s][0] for s in live}
    r = lambda i: F(am["rew"][i], scale)
    while True:
        v = evaluate(live, pol, {}, r)
        changed = False
        for s in live:
            best, brow = v[s], None
            for row in by[s]:
                x = r(row[0]) + sum((p * v.get(d, 0) for d, p in row[1]), F(0))
                if (x > best) if mode == "max" else (x < best):
                    best, brow = x, row
            if brow is not None:
                pol[s] = brow
                changed = True
        if not changed:
            return [v.get(s, F(0)) for s in range(am["n"])]


def scale(vals, D, base=1, want=10 ** 7, top=2 * 10 ** 9, extra=1):
    """Common denominator q (multiple of base) near `want` with D*q*max below 2^31;
    None when the exact denominators do not fit."""
    q = base
    for x in vals:
        q = lcm(q, x.denominator)
        if q > top:
            return None
    big = max([1, extra] + [abs(x) for x in vals])
    lim = int(top / (D * big))
    if q > lim:
        return None
    m = max(1, min(want, lim) // q)
    step = 1000 // gcd(q, 1000)          # multiples of 1000 convert exactly to thousandths
    q *= m - m % step if m >= step else m
    if q < 10 ** 6 // (1 if base == 1 else 4):
        return None
    return q, [int(x * q) for x in vals]
