"""C01: a run equals applying the gates one by one, in call order."""

import collections
import itertools

from mc import common, ref

ID = "C01"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "amplitudes are compared with tolerance 1e-9",
    "the reference model (mc/ref.py) is the meaning of the gates; it is checked gate by gate against the code in C02-C04",
)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every gate sequence over the X/Z/H/CX/Toffoli alphabet of each shape: one qudit d=2..5 up to length %d; "
        "two qudits (9 shapes) up to length %d; three qudits ({2,3}^3 and two shapes with d=4) up to length 2%s; "
        "four qudits (%d shapes) up to length 2; five and six qudits length %d; plus breadth-first search to the fixpoint of all "
        "reachable state vectors of four small gate sets, and every periodic word of period <= 2 up to total length %d, and on (2), (3) and (2,3) at lengths up to %d; every pair of gates after 3..%d layers of the same gate on three shapes; a selection of gates on seven to %d qudits up to length 2, and on registers of up to %d basis states up to length 3; "
        "default and dense backends" % ((5, 3, " (3 on two shapes)", 3, 1, 16, 300, 16, 9, 59049) if q else (7, 4, " (3 on all)", 8, 2, 48, 700, 33, 10, 177147))
    )


TWO = [(2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (3, 4), (5, 2), (2, 6)]
THREE = [tuple(s) for s in itertools.product((2, 3), repeat=3)] + [(2, 4, 3), (4, 2, 2)]
FOUR = [(2, 2, 2, 2), (2, 3, 2, 2), (3, 2, 2, 3), (2, 2, 3, 2), (3, 2, 3, 2), (2, 2, 2, 3), (4, 2, 2, 2), (2, 2, 4, 2)]
WIDE = [(2,) * 8, (2, 3, 2, 2, 3, 2, 2), (3, 2, 2, 2, 2, 2, 2, 2), (2,) * 9, (2, 2, 3, 2, 4, 2, 2, 2), (2,) * 10]
BIG = [(2,) * 11, (3,) * 7, (4,) * 6, (3, 2, 4, 5, 6, 7), (3,) * 10, (2,) * 12, (3,) * 8, (3,) * 11]
FIXPOINTS = [
    ("1 qubit, X Z H", (2,), [["x", 0, 1], ["z", 0], ["h", 0]]),
    ("1 qutrit, X Z H", (3,), [["x", 0, 1], ["z", 0], ["h", 0]]),
    ("qubit+qutrit, X and CX", (2, 3), [["x", 0, 1], ["x", 1, 1], ["cx", [0, 1], 1], ["cx", [1, 0], 1]]),
    ("2 qubits, H Z CX", (2, 2), [["h", 0], ["z", 1], ["h", 1], ["cx", [0, 1], 1], ["cx", [1, 0], 1]]),
]


def inits(dims, which):
    z = [0] * len(dims)
    if which == "all":
        return [list(s) for s in ref.all_digits(dims)]
    mixed = [i % d for i, d in enumerate(dims, start=1)]
    out = [z]
    for s in (common.top(dims), mixed)[: which - 1]:
        if s not in out:
            out.append(s)
    return out


def units(tier):
    q = tier == "quick"
    u = []
    # every first letter of a long search is its own unit; shallow searches come first
    for d in (2, 3, 4, 5):
        u.append({"k": "walk", "dims": [d], "init": "all", "depth": 3})
    for s in TWO:
        u.append({"k": "walk", "dims": s, "init": "all", "depth": 2})
    for s in THREE:
        u.append({"k": "walk", "dims": s, "init": 3, "depth": 1})
    for s in FOUR[: 3 if q else 8]:
        u.append({"k": "walk", "dims": s, "init": 2, "depth": 1})
    for name, s, ops in FIXPOINTS:
        u.append({"k": "fix", "name": name, "dims": s, "alpha": ops})
    for s in ((2,), (3,), (2, 2), (2, 3), (3, 2)):
        u += split("periodic", s, 1, 16 if q else 48, 8, tier)
    for d in (2, 3, 4, 5):
        u += split("walk", (d,), "all" if d < 4 or not q else 2, 5 if q else 7, 2, tier)
    for s in TWO:
        u += split("walk", s, 2, 3, 4, tier)
    for s in THREE:
        u += split("walk", s, 2 if q else 3, 2, 8, tier)
    for s in FOUR[: 3 if q else 8]:
        u += split("walk", s, 1 if q else 2, 2, 10, tier)
    for s in ((2, 2, 2, 2, 2), (2, 3, 2, 2, 2), (2, 2, 2, 2, 2, 2)):
        u += split("walk", s, 2, 1 if q else 2, 12, tier)
    for s in ((2, 3, 2), (3, 2, 2)) if q else THREE:
        u += split("walk", s, 1, 3, 3, tier)
    u += [{"k": "long", "dims": s, "init": 1, "depth": 300 if q else 700, "first": [i, i + 1]} for s in ((2,), (3,), (2, 3)) for i in range(len(letters(s)))]
    for s in ((2, 2), (2, 3), (3, 2)):
        m = len(letters(s))
        u += [{"k": "tail", "dims": s, "depth": 16 if q else 33, "first": [i, min(i + 2, m)]} for i in range(0, m, 2)]
    for s in WIDE[: 4 if q else 6]:
        m = len(wide_letters(s))
        u += [{"k": "wide", "dims": s, "init": 1, "first": [i, i + 4]} for i in range(0, m, 4)]
    for s in BIG[: 5 if q else 8]:
        m = len(big_letters(s))
        u += [{"k": "big", "dims": s, "first": [i, i + 3]} for i in range(0, m, 3)]
    if not q:
        for s in TWO[:6]:
            u += split("walk", s, 1, 4, 1, tier)
    return u


def letters(dims, kind="walk", tier="quick"):
    n = len(dims)
    if n <= 2:
        return common.alphabet(dims, plus="few", tof="perm")
    if n == 3:
        return common.alphabet(dims, plus="few", tof="perm")
    return common.alphabet(dims, plus="one", tof="asc", max_controls=2 if n < 6 else None)


def split(kind, dims, init, depth, per, tier):
    n = len(letters(dims, kind, tier))
    return [
        {"k": kind, "dims": dims, "init": init, "depth": depth, "first": [i, min(i + per, n)]}
        for i in range(0, n, per)
    ]


def explore(unit, ctx):
    dims = tuple(unit["dims"])
    if unit["k"] == "fix":
        return fixpoint(unit, ctx, dims)
    alpha = letters(dims)
    first = alpha[slice(*unit["first"])] if "first" in unit else None
    if unit["k"] == "big":
        return big(unit, ctx, dims)
    if unit["k"] == "tail":
        return tail(unit, ctx, dims, alpha, first)
    if unit["k"] == "wide":
        return wide(unit, ctx, dims)
    if unit["k"] == "long":
        return periodic(unit, ctx, dims, alpha, first, (100, 128, 255, 256, 300, 513, 700))
    if unit["k"] == "periodic":
        return periodic(unit, ctx, dims, alpha, first)
    for init in inits(dims, unit["init"]):

        def visit(ops, v):
            if first is not None and not ops:
                return
            common.judge(ctx, dims, init, ops, v)
            common.judge(ctx, dims, init, ops, v, backend="numpy", counted=False)

        common.walk(ctx, dims, init, alpha, unit["depth"], visit, first=first)


def wide_letters(dims):
    n = len(dims)
    ops = [["x", r, 1] for r in range(n)] + [["h", r] for r in (0, n // 2, n - 1)] + [["z", r] for r in (1, n - 2)]
    ops += [["cx", [r, r + 1], 1] for r in range(0, n - 1, 2)] + [["cx", [r + 1, r], 1] for r in range(1, n - 1, 2)]
    ops += [["tof", [0, 2], 1, 1], ["tof", [n - 1, n - 3], n - 2, 1], ["cx", [1, 5], 1], ["cx", [6, 3], 1]]
    ops += [["cx", [0, n - 1], 1], ["cx", [n - 1, 0], 1], ["tof", list(range(n - 1)), n - 1, 1], ["tof", [n - 1, 1], 0, 1]]
    return ops + [["tof", [r for r in range(n) if r != n // 2], n // 2, 1]]


def big_letters(dims):
    n = len(dims)
    ops = [[k, r] if k != "x" else ["x", r, dims[r] - 1] for r in (0, n // 2, n - 1) for k in "xhz"]
    return ops + [["cx", [0, 1], 1], ["cx", [n - 1, n - 3], 1], ["tof", [n // 2 + 1, n // 2 - 1], n // 2, 1]]


def big(unit, ctx, dims):
    """Thousands of basis states: every pair of letters, and a third on some (sparse backend)."""
    alpha = big_letters(dims)
    init = common.top(dims)
    for a in alpha[slice(*unit["first"])]:
        va = ref.run(dims, init, [a])
        for i, b in enumerate(alpha):
            vb = ref.apply(va, b)
            if max(dims) == 2 and len(ref.layers(len(dims), [a, b])) > 1:
                continue  # several layers of many qubits take minutes
            for c in [None] + (alpha[1::4] if i % 3 == 1 and max(dims) > 2 else []):
                ops = [a, b] + ([c] if c else [])
                ctx.transition()
                common.judge(ctx, dims, init, ops, ref.apply(vb, c) if c else vb)


def wide(unit, ctx, dims):
    """Seven qudits and more: every letter, and every pair of letters of which at most one spans the register."""
    alpha = wide_letters(dims)
    init = common.top(dims)
    for a in alpha[slice(*unit["first"])]:
        va = ref.run(dims, init, [a])
        ctx.transition()
        common.judge(ctx, dims, init, [a], va)
        for b in alpha:
            if max(len(ref.span(a)), len(ref.span(b))) > 3 and (len(ref.span(a)) > 1 or b[0] not in "hz") and (len(ref.span(b)) > 1 or a[0] not in "hz"):
                continue
            v = ref.apply(va, b)
            ctx.transition()
            ctx.state(ref.vkey(v))
            common.judge(ctx, dims, init, [a, b], v)


def tail(unit, ctx, dims, alpha, first):
    """a^k b c: every pair of letters after k layers of the same gate."""
    init = [0] * len(dims)
    for k in range(3, unit["depth"] + 1):
        ops = [["x", 0, 1]] * k
        v = ref.run(dims, init, ops)
        for b in first:
            vb = ref.apply(v, b)
            for c in alpha:
                w = ref.apply(vb, c)
                ctx.transition()
                ctx.state(ref.vkey(w))
                common.judge(ctx, dims, init, [*ops, b, c], w)


def periodic(unit, ctx, dims, alpha, first, lengths=(4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 24, 32, 33, 48)):
    """Long circuits: (a b)(a b)... for every pair of letters, judged at growing lengths."""
    init = [0] * len(dims)
    for a in first:
        for b in alpha:
            v = ref.run(dims, init, [])
            ops = []
            for n in range(1, unit["depth"] + 1):
                ops.append(b if n % 2 == 0 else a)
                v = ref.apply(v, ops[-1])
                ctx.transition()
                ctx.state(ref.vkey(v))
                if n in lengths:
                    common.judge(ctx, dims, init, list(ops), v)


def fixpoint(unit, ctx, dims):
    """Breadth-first over all reachable state vectors; every state is reached by its
    shortest call history and left by every letter, each judged on the real code."""
    alpha = unit["alpha"]
    todo = collections.deque()
    for init in ref.all_digits(dims):
        v = ref.run(dims, init, [])
        if ctx.is_new_state(ref.vkey(v)):
            todo.append((list(init), [], v))
    while todo:
        init, ops, v = todo.popleft()
        for a in alpha:
            w = ref.apply(v, a)
            ctx.transition()
            common.judge(ctx, dims, init, ops + [a], w)
            common.judge(ctx, dims, init, ops + [a], w, backend="numpy")
            if ctx.is_new_state(ref.vkey(w)):
                todo.append((init, ops + [a], w))
        ctx.counters["max_history"] = max(ctx.counters.get("max_history", 0), len(ops) + 1)
