"""Helpers shared by the circuit properties: alphabets and the judged execution."""

import itertools

from mc import harness, ref


def alphabet(dims, plus="few", tof="asc", max_controls=None, cx=True):
    """Built-in gate calls on a register, simplest first."""
    n = len(dims)
    ops = []
    for r in range(n):
        for p in increments(dims[r], plus):
            ops.append(["x", r, p])
        ops.append(["z", r])
        ops.append(["h", r])
    if cx:
        for c, t in itertools.permutations(range(n), 2):
            for p in increments(dims[t], plus):
                ops.append(["cx", [c, t], p])
    if tof:
        for t in range(n):
            others = [r for r in range(n) if r != t]
            top = max_controls or n - 1
            for k in range(2 if n > 2 else 1, top + 1):
                for cs in itertools.combinations(others, k):
                    orders = [cs] if tof == "asc" else itertools.permutations(cs)
                    for o in orders:
                        for p in increments(dims[t], plus):
                            ops.append(["tof", list(o), t, p])
    return ops


def increments(d, which):
    if which == "one":
        return [1]
    if which == "few":
        return [1] if d == 2 else [1, d - 1]
    return list(range(1, d))


def judge(ctx, dims, init, ops, expected, backend="default", matrices=None, counted=True):
    """Runs one circuit on the real code and compares it with the reference state."""
    case = {"dims": list(dims), "init": list(init) if init is not None else None, "ops": ops, "backend": backend}

    def scr():
        return harness.script(list(dims), init, ops, backend, matrices)

    def go():
        return harness.compare(harness.run_ops(dims, init, ops, backend, matrices), expected)

    bad = ctx.guarded(go, case, scr)
    if bad:
        ctx.violation(case, bad, script=scr())
    ctx.trace()
    if counted:
        ctx.outcome(ref.vkey(expected))
    ctx.sample(case)


def sequences(alpha, depth):
    """All sequences of exactly `depth` letters, in lexicographic order."""
    return itertools.product(alpha, repeat=depth)


def walk(ctx, dims, init, alpha, depth, visit, matrices=None, first=None, min_depth=0):
    """Depth-first over all sequences up to `depth`; visit(ops, expected) at every node.
    `first` restricts the first letter (so that a space can be split into units)."""
    v0 = ref.run(dims, init, [])

    def rec(ops, v):
        ctx.state(ref.vkey(v))
        if len(ops) >= min_depth:
            visit(ops, v)
        if len(ops) == depth:
            return
        for a in alpha if ops or first is None else first:
            ctx.transition()
            rec(ops + [a], ref.apply(v, a, matrices))

    rec([], v0)


def top(dims):
    return [d - 1 for d in dims]


def chunks(seq, k):
    return [seq[i : i + k] for i in range(0, len(seq), k)]
