"""Circuits of one gate, one after another in one process: whatever is remembered under a key that does not tell two of them apart shows."""

import itertools

import numpy as np

from mc import harness, ref

KINDS = ("x", "z", "h", "cx", "tof", "gate")


def units(*kinds):
    """For the property of one kind of gate: its circuits only."""
    return [{"k": "family", "order": o, "b": b, "form": "list", "kinds": kinds} for o, b in (("forward", "default"), ("backward", "alternating"), ("strided", "numpy"))]


def members(form):
    """Every one-gate circuit of the family, as (dims, initial levels, operation, matrices)."""
    if form == "digits":
        # written without separators, or hashed, many of these read alike
        for dims in ((2,), (3,), (12,), (13,), (21,), (22,), (23,), (31,), (32,), (111,), (112,), (121,), (2, 2), (2, 3), (2, 12), (21, 2), (12, 2), (2, 21), (2, 22), (22, 2), (2, 23), (22, 3), (3, 12), (31, 2),
                     (2, 2, 2), (2, 2, 3), (2, 2, 12), (2, 21, 2), (2, 2, 22), (2, 22, 2), (22, 2, 2), (2, 2, 2, 2), (2, 2, 2, 3)):
            n, top = len(dims), [d - 1 for d in dims]
            ops = [["x", r, k] for r in range(n) for k in ((1, 2, 11, 12, 13, 21, 111, -1, -2, -12) if n < 3 else (1,))] + [[g, r] for r in range(n) for g in "zh" if n < 3]
            ops += [["cx", list(ct), k] for ct in itertools.permutations(range(n), 2) for k in ((1, 2, 12, -1, -2) if n < 3 else (1, -1))]
            ops += [["tof", [r for r in range(n) if r != t], t, k] for t in range(n) if n > 1 for k in (1, -1, -2)]
            ops += [["gate", f"P{dims[r]}-1", [r]] for r in range(n)] + [["gate", f"P{dims[r] * dims[r + 1]}-1", [r, r + 1]] for r in range(n - 1)]
            for op in ops:
                yield dims, top, op
        return
    shapes = [d for n in (1, 2, 3) for d in itertools.product((2, 3, 4), repeat=n)] + list(itertools.product((2, 3), repeat=4))
    if form == "tuple":
        shapes = [d for d in shapes if len(set(d)) == 1]
    for dims in shapes:
        n = len(dims)
        top = [d - 1 for d in dims]
        inits = [[0] * n, top] + [top[:i] + [0] + top[i + 1 :] for i in range(n)] + [[0] * i + [1] + [0] * (n - i - 1) for i in range(n)]
        inits = [list(x) for x in sorted(set(map(tuple, inits)))] if n < 4 else [top, top[:1] + [0] + top[2:]]
        ops = []
        if n < 4:
            for r in range(n):
                ops += [["x", r, k] for k in range(1, dims[r])] + [["z", r], ["h", r]]
                ops += [["gate", f"P{dims[r]}-{k}", [r]] for k in (1, 2)]
            ops += [["gate", f"P{dims[r] * dims[r + 1]}-1", [r, r + 1]] for r in range(n - 1)]
        for c, t in itertools.permutations(range(n), 2):
            ops += [["cx", [c, t], k] for k in ((1, 2, -1) if n < 4 else (1,))]
        for t in range(n):
            others = [r for r in range(n) if r != t]
            for size in range(1, n):
                for cs in itertools.combinations(others, size):
                    ops += [["tof", list(cs), t, k] for k in ((1, 2) if n < 4 else (1,))]
        for op in ops:
            for init in inits:
                yield dims, init, op


def permutation_matrix(name):
    size, k = map(int, name[1:].split("-"))
    return np.roll(np.diag(np.exp(1j * np.arange(size) * k)), k, axis=0)


def explore(unit, ctx):
    """One process, one circuit after another; nothing may be remembered wrongly."""
    chosen = [m for form in ([unit["form"]] if "kinds" not in unit else ["list", "digits"]) for m in members(form) if m[2][0] in unit.get("kinds", KINDS)]
    if unit["order"] == "backward":
        chosen.reverse()
    elif unit["order"] == "strided":
        chosen = [m for s in range(7) for m in chosen[s::7]]
    modes = [(t, m) for t in (harness.OutputType.print, harness.OutputType.state) for m in (harness.OutputMethod.amplitude, harness.OutputMethod.probability)]
    kept = []
    for i, (dims, init, op) in enumerate(chosen):
        backend = ("default", "numpy")[i % 2] if unit["b"] == "alternating" else unit["b"]
        mats = {op[1]: permutation_matrix(op[1])} if op[0] == "gate" else {}
        kind, method = modes[i % 4] if unit["form"] == "mode" else (None, harness.OutputMethod.amplitude)
        want = ref.run(dims, init, [op], mats)
        if method == harness.OutputMethod.probability:
            want = np.abs(want) ** 2

        def go():
            form = (len(dims), dims[0]) if unit["form"] == "tuple" else list(dims)
            extra = {"output": harness.Output(list(dims), kind, method)} if kind else {}
            qc = harness.build(form, init, backend, **extra)
            if harness.apply(qc, op, mats) is not True:
                return f"{op} did not report success"
            qc.measure_all()
            if i % 40 == 0:
                kept.append((qc, want, kind))
            return harness.compare_mode(qc.run(), want, kind)

        case = {"circuit": [dims, init, op], "backend": backend, "form": unit["form"], "after": i, "order": unit["order"]}
        bad = ctx.guarded(go, case)
        if bad:
            ctx.violation(case, f"after {i} other circuits: {bad}")
        ctx.transition()
        ctx.trace()
        ctx.state((dims, init, op, backend, unit["form"], unit["order"]))
    for qc, want, kind in kept:
        bad = ctx.guarded(lambda: harness.compare_mode(qc.run(), want, kind), unit)
        if bad:
            ctx.violation(unit, f"a circuit run again at the end: {bad}")
