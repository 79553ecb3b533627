"""C17: circuit statistics count exactly what was added."""

import itertools

import numpy as np

from mc import harness, ref

ID = "C17"
LEVEL = "model_checking"
ASSUMPTIONS = ()
MATS = {f"I{n}": np.eye(n) for n in (2, 3, 4, 6, 8, 9, 12, 18)}


# what user gate classes may happen to be called or to carry
LOOKS = [{"__name__": n} for n in ("XGate", "HGate", "ZGate", "IGate", "CXGate", "Toffoli", "Measurement", "InitState", "ArbitaryGate", "x", "toffoli")]
LOOKS += [{k: v} for k in ("name", "label", "kind", "_name", "symbol") for v in ("x", "h", "cx", "toffoli", "measurement", "arbitary", "i", "my gate", "", None, 7)]
LOOKS += [{k: v} for k in ("plus", "_plus", "count", "_control", "is_measurement", "is_identity") for v in (0, 1, 2, True, False, None)]


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every sequence of X Z H CX Toffoli and custom gates on one, two and three registers, judged after every call, each question asked twice, then measured and "
        "judged again: one qudit up to length %d, two qudits up to length %d, three qudits up to length %d, four qudits up to length %d, a selection of gates on twelve qudits up to length 2 and on 33 and 104 up to length %d; one-letter and two-letter "
        "periodic sequences up to length %d; user gate classes with each of %d names and attributes of the standard gates, alone and next to each gate" % ((6, 4, 3, 2, 1, 40, len(LOOKS)) if q else (8, 5, 4, 3, 2, 120, len(LOOKS)))
    )


def letters(dims, lean=False):
    n = len(dims)
    ops = []
    if n > 9:
        ops = [["x", r, 1] for r in range(n)] + [["h", r] for r in range(0, n, 2)] + [["z", r] for r in range(1, n, 3)]
        ops += [["cx", [r, r + 1], 1] for r in range(n - 1)] + [["cx", [r + 1, r], 1] for r in range(0, n - 1, 3)]
        ops += [["tof", [r, r + 2], r + 1, 1] for r in range(0, n - 2, 2)] + [["cx", [0, 4], 1], ["cx", [n - 1, n - 5], 1]]
        ops += [["gate", f"I{dims[r]}", [r]] for r in (0, 5, n - 2, n - 1)]
        return ops + [["gate", f"I{dims[r] * dims[r + 1]}", [r, r + 1]] for r in (0, 3, n - 2)]
    for r in range(n):
        ops += [["x", r, 1], ["z", r], ["h", r]] if not lean else [["x", r, 1], ["h", r]]
    for c, t in itertools.permutations(range(n), 2):
        if not lean or c < t:
            ops.append(["cx", [c, t], 1])
    for t in range(n):
        others = [r for r in range(n) if r != t]
        for k in range(1, n):
            for cs in itertools.combinations(others, k):
                if not lean or k == n - 1:
                    ops.append(["tof", list(cs), t, 1])
    for k in range(1, min(n, 3) + 1):
        for r in range(n - k + 1):
            regs = list(range(r, r + k))
            size = int(np.prod([dims[i] for i in regs]))
            if f"I{size}" in MATS and (not lean or r == 0):
                ops.append(["gate", f"I{size}", regs])
    return ops


def units(tier):
    q = tier == "quick"
    u = []
    spaces = [((2,), False, 6 if q else 8), ((2, 3), False, 2), ((2, 2, 3), False, 1), ((3, 2), False, 4 if q else 5), ((2, 3, 2), False, 3 if q else 4)]
    spaces += [((2, 2, 2, 2), True, 2 if q else 3), ((2,) * 12, True, 2), ((2, 3, 2, 2) * 3, True, 1 if q else 2), ((2,) * 33, True, 1 if q else 2), ((2, 3) * 52, True, 1)]
    for dims, lean, depth in spaces:
        n = len(letters(dims, lean))
        per = max(1, n // (8 if q else 30))
        u += [{"k": "walk", "dims": dims, "lean": lean, "depth": depth, "first": [i, i + per]} for i in range(0, n, per)]
    u += [{"k": "named", "dims": s} for s in ((2,), (3,), (2, 3), (2, 2, 2))]
    u += [{"k": "periodic", "dims": s, "len": 40 if q else 120} for s in ((2,), (2, 3), (2, 2, 2))]
    return u


NAMES = {"x": "x", "z": "z", "h": "h", "cx": "cx", "tof": "toffoli", "gate": "arbitary"}


def expected(dims, ops):
    details = {}
    for op in ops:
        details[NAMES[op[0]]] = details.get(NAMES[op[0]], 0) + 1
    depth = len(ref.layers(len(dims), ops))
    return (
        {"width": len(dims), "depth": depth},
        {"depth": depth, "gate_count": len(ops), "details": details, "qudit": len(dims)},
    )


def ask(qc, want, when):
    for again in ("", " (asked again)"):
        config = qc.get_circuit_config()
        if config != want[0]:
            return f"{when}{again} the configuration is {config}, expected {want[0]}"
        info = qc.get_circuit_info()
        if info != want[1]:
            return f"{when}{again} the summary is {info}, expected {want[1]}"
        # what the caller does with the answer is not the circuit's business
        info["details"]["x"] = 99
        config["depth"] = -1
    return None


def one(ctx, dims, ops, every):
    case = {"dims": dims, "ops": ops}

    def go():
        qc = harness.build(list(dims), [0] * len(dims))
        if not ops or every:
            bad = ask(qc, expected(dims, []), "before any gate")
            if bad:
                return bad
        for i, op in enumerate(ops, 1):
            harness.apply(qc, op, MATS)
            if every or i == len(ops):
                bad = ask(qc, expected(dims, ops[:i]), f"after {i} calls")
                if bad:
                    return bad
        before = harness.contents(qc, dims)
        str(qc)
        if harness.contents(qc, dims) != before:
            return "asking changed the circuit"
        qc.measure_all()
        bad = ask(qc, expected(dims, ops), "after measurement")
        if bad:
            return bad
        if harness.apply(qc, ["x", 0, 1]) is not False:
            return "a gate was accepted after measurement"
        return ask(qc, expected(dims, ops), "after a refused gate")

    bad = ctx.guarded(go, case)
    if bad:
        ctx.violation(case, bad)
    ctx.trace()
    e = expected(dims, ops)
    ctx.state((dims, str(ops)))
    ctx.outcome((dims, str(e)))
    ctx.sample(case)


def named_gate(size, look):
    look = dict(look)
    base = harness.custom_gate(np.eye(size))
    return type(look.pop("__name__", "Gate"), (base,), look)


def named(dims, ctx):
    """Gates of user classes that look like something else in name or attributes."""
    alpha = [op for op in letters(dims) if op[0] != "gate"] + [None]
    places = [[r] for r in range(len(dims))] + [[r, r + 1] for r in range(len(dims) - 1)]
    for i, look in enumerate(LOOKS):
        for regs in places:
            for other in alpha:
                for first in (True, False) if other else (True,):
                    case = {"dims": dims, "class attributes": sorted((k, repr(v)[:40]) for k, v in look.items()), "on": regs, "other gate": other, "custom first": first}

                    def go():
                        qc = harness.build(list(dims), [0] * len(dims))
                        ops = []
                        for turn in (first, not first, True):
                            if turn:
                                qc.gate(named_gate(int(np.prod([dims[r] for r in regs])), look), regs[0] if len(regs) == 1 else list(regs))
                                ops.append(["gate", "custom", regs])
                            elif other:
                                harness.apply(qc, other, MATS)
                                ops.append(other)
                        bad = ask(qc, expected(dims, ops), "after the calls")
                        qc.measure_all()
                        return bad or ask(qc, expected(dims, ops), "after measurement")

                    bad = ctx.guarded(go, case)
                    if bad:
                        ctx.violation(case, bad)
                    ctx.transition(3)
                    ctx.trace()
                    ctx.state((dims, i, regs, str(other), first))


def explore(unit, ctx):
    dims = tuple(unit["dims"])
    if unit["k"] == "named":
        return named(dims, ctx)
    if unit["k"] == "periodic":
        alpha = letters(dims)
        for a, b in itertools.product(alpha, repeat=2):
            ops = [a, b] * (unit["len"] // 2)
            ctx.transition(len(ops))
            one(ctx, dims, ops, True)
        return
    alpha = letters(dims, unit["lean"])

    def rec(ops):
        one(ctx, dims, ops, len(ops) < 3)
        if len(ops) < unit["depth"]:
            for a in alpha if ops else alpha[slice(*unit["first"])]:
                ctx.transition()
                rec(ops + [a])

    rec([])
