"""C05: layering keeps every gate, keeps per-qudit order, and never overlaps qudits."""

import itertools

import numpy as np

from mc import common, harness, ref

ID = "C05"
LEVEL = "model_checking"
ASSUMPTIONS = ("layers are read through OperatorFlow.peek() and Moment.peek_list(), the documented way to look at them",)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every gate-call sequence over X Z H CX Toffoli and custom one- and two-register gates, judged after every call: "
        "one qudit up to length %d, two qudits up to length %d, three qudits up to length %d, four qudits up to length %d, "
        "single-qudit gates only on 3 and 4 qudits up to length %d, five qudits up to length %d, a selection of gates on twelve qudits up to length 2 and on 33 and 68 up to length %d, every two-letter periodic sequence of length %d on up to three qudits; then measured"
        % ((5, 4, 3, 2, 5, 2, 1, 31) if q else (8, 5, 4, 3, 6, 2, 2, 121))
    )


def letters(dims, which):
    n = len(dims)
    if which == "wide":
        ops = [["x", r, 1] for r in range(n)] + [["h", r] for r in range(0, n, 2)] + [["z", r] for r in range(1, n, 3)]
        ops += [["cx", [r, r + 1], 1] for r in range(n - 1)] + [["cx", [r + 1, r], 1] for r in range(0, n - 1, 3)]
        ops += [["tof", [r, r + 2], r + 1, 1] for r in range(0, n - 2, 2)] + [["cx", [0, 4], 1], ["cx", [n - 1, n - 5], 1]]
        ops += [["gate", f"I{dims[r]}", [r]] for r in (0, 5, n - 2, n - 1)]
        return ops + [["gate", f"I{dims[r] * dims[r + 1]}", [r, r + 1]] for r in (0, 3, n - 2)]
    if which == "single":
        return [["x", r, 1] for r in range(n)] + [["h", r] for r in range(n)]
    ops = []
    for r in range(n):
        ops += [["x", r, 1], ["z", r], ["h", r]]
    if which == "lean":
        ops = [["x", r, 1] for r in range(n)] + [["h", r] for r in range(n)]
    for c, t in itertools.permutations(range(n), 2):
        if which != "lean" or abs(c - t) != 1 or c < t:
            ops.append(["cx", [c, t], 1])
    for t in range(n):
        others = [r for r in range(n) if r != t]
        for k in range(2 if n > 2 else 1, n):
            for cs in itertools.combinations(others, k):
                if which != "lean" or k == 2:
                    ops.append(["tof", list(cs), t, 1])
    for r in range(n):
        ops.append(["gate", f"I{dims[r]}", [r]])
    for r in range(n - 1):
        ops.append(["gate", f"I{dims[r] * dims[r + 1]}", [r, r + 1]])
    return ops


def units(tier):
    q = tier == "quick"
    spaces = [((3,), "full", 5 if q else 8), ((2, 3), "full", 3), ((2, 2, 3), "full", 2), ((2, 3, 2, 2), "full", 2)]
    spaces += [((2, 2, 2), "single", 5 if q else 6), ((2, 2, 2, 2), "single", 4 if q else 6)]
    spaces += [((2, 3), "full", 4 if q else 5), ((3, 2, 2), "full", 3)]
    spaces += [((2,) * 5, "lean", 2)]
    spaces += [((2,) * 12, "wide", 2), ((2, 3, 2, 2) * 3, "wide", 1 if q else 2), ((2,) * 33, "wide", 1 if q else 2), ((2, 3) * 34, "wide", 1)]
    if not q:
        spaces += [((2, 2, 2), "full", 4), ((2, 2, 2, 2), "lean", 3)]
    u = []
    for dims, which, depth in spaces:
        alpha = letters(dims, which)
        per = max(1, len(alpha) // 8)
        for i in range(0, len(alpha), per):
            u.append({"dims": dims, "alpha": which, "depth": depth, "first": [i, i + per]})
    u += [{"dims": dims, "alpha": "full", "depth": 0, "first": [0, 0], "period": 30 if q else 120} for dims in ((2,), (2, 3), (2, 2, 3))]
    return u


_MATS = {}


def gate_class(name):
    if name not in _MATS:
        cls = harness.custom_gate(np.eye(int(name[1:])))
        cls.mc_name = name
        _MATS[name] = cls
    return _MATS[name]


def call(qc, op):
    if op[0] == "gate":
        return qc.gate(gate_class(op[1]), op[2][0] if len(op[2]) == 1 else list(op[2]))
    return harness.apply(qc, op)


def canon(layers):
    return [sorted(layer, key=lambda op: min(ref.registers(op))) for layer in layers]


def look(qc, dims, init, ops, measured):
    got = harness.contents(qc, dims)
    if got[0] != [["init", r, dims[r], init[r]] for r in range(len(dims))]:
        return f"the first layer is {got[0]}, not the initial states"
    if measured:
        if got[-1] != [["m", r] for r in range(len(dims))]:
            return f"the last layer of a measured circuit is {got[-1]}"
        got = got[:-1]
    want = canon(ref.layers(len(dims), ops))
    have = canon(got[1:])
    if have != want:
        return f"the layers are {have}, expected {want}"
    depth = qc.get_circuit_config()["depth"]
    if depth != len(want):
        return f"reported depth {depth}, expected {len(want)}"
    return None


def explore(unit, ctx):
    dims = tuple(unit["dims"])
    alpha = letters(dims, unit["alpha"])
    init = [i % d for i, d in enumerate(dims)]

    def visit(ops):
        case = {"dims": dims, "ops": ops}

        def go():
            qc = harness.build(list(dims), init)
            for i, op in enumerate(ops):
                if call(qc, op) is not True:
                    return f"{op} did not report success"
                if i + 1 == len(ops):  # shorter prefixes were judged as their own node
                    bad = look(qc, dims, init, ops, False)
                    if bad:
                        return bad
            qc.measure_all()
            return look(qc, dims, init, ops, True)

        bad = ctx.guarded(go, case)
        if bad:
            ctx.violation(case, bad)
        ctx.trace()
        key = canon(ref.layers(len(dims), ops))
        ctx.state((dims, key))
        ctx.outcome((dims, [[op[0] for op in layer] for layer in key]))
        ctx.sample(case)

    def rec(ops):
        if ops:
            visit(ops)
        if len(ops) < unit["depth"]:
            for a in alpha if ops else alpha[slice(*unit["first"])]:
                ctx.transition()
                rec(ops + [a])

    if "period" in unit:
        for a, b in itertools.product(alpha, repeat=2):
            ctx.transition(unit["period"])
            visit([a, b] * (unit["period"] // 2) + [b])
    else:
        rec([])
