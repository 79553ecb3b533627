"""C19: the graphical drawing shows every gate once, on its own lines and in order."""

import itertools

import numpy as np

from mc import common, harness, mpl, ref

ID = "C19"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "what is drawn is read from the matplotlib artists (texts, markers, lines, rectangles) at the moment the figures are shown, on the Agg canvas; "
    "artists less than 0.9 units apart horizontally form a column",
    "a CX between two qubits with an even increment (no effect) is not explored",
)
MATS = {f"I{n}": np.eye(n) for n in (2, 3, 4, 6, 8, 9, 12, 18, 32, 64, 128)}


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every sequence of X Z H CX Toffoli and custom gates up to %s on registers of 1 to 4 qudits, one gate on 5 and 6 qudits, unmeasured and measured, "
        "every initial level, compress 1 to 3; up to 24 qudits, custom gates on up to 7 and dimensions up to 1000; every length up to 25 layers (three figures) with compress 0 to 13; one- and two-letter periodic circuits of up to %d layers over several figures; every drawing made twice"
        % (("length 2 (3 on one qudit)", 40) if q else ("length 3 on one to three qudits and 2 on four", 80))
    )


# more qudits and higher dimensions than there are letters, digits or colours for
WIDE = ((2,) * 8, (2, 3, 2, 4, 2, 2, 3, 2, 2), (2,) * 11, (3, 2) * 6, (2,) * 16, (2,) * 24, (12, 2, 101), (1000,), (2, 17))


def letters(dims, mode):
    n = len(dims)
    ops = common.alphabet(dims, plus="few" if mode == "lean" else "all", tof="asc" if mode == "lean" else "any")
    if n == 2:
        ops += common.alphabet(dims, plus="few", tof="any", cx=False)[2 * len(dims):]
    for k in range(1, min(n, 3) + 1):
        for r in range(n - k + 1):
            regs = list(range(r, r + k))
            size = int(np.prod([dims[i] for i in regs]))
            if f"I{size}" in MATS:
                ops.append(["gate", f"I{size}", regs])
    if mode == "lean":
        ops = [o for o in ops if not (o[0] in ("x", "cx") and o[-1] != 1) and not (o[0] == "tof" and o[-1] != 1)]
    out = []
    for o in ops:
        if o[0] == "cx" and dims[o[1][0]] == dims[o[1][1]] == 2 and o[2] % 2 == 0:
            continue
        if o not in out:
            out.append(o)
    return out


def units(tier):
    q = tier == "quick"
    u = [{"k": "levels"}]
    u += [{"k": "periodic", "dims": d, "len": 40 if q else 80, "part": p} for d in ((2,), (2, 3), (2, 2, 2)) for p in range(8)]
    u += [{"k": "wide", "dims": d, "part": p} for d in WIDE for p in range(4)]
    u += [{"k": "figures", "dims": d, "compress": c} for d in ((2,), (3, 2), (2, 2, 2)) for c in (0, 0.5, 1, 4, 5, 8, 13)]
    spaces = [
        ((2,), "all", 3 if q else 4), ((3,), "all", 2 if q else 3), ((2, 2), "lean", 2 if q else 3), ((2, 3), "lean", 2 if q else 3), ((4, 2), "all", 1 if q else 2),
        ((2, 2, 2), "lean", 2 if q else 3), ((2, 3, 2), "all", 1 if q else 2), ((3, 2, 2, 3), "lean", 1 if q else 2), ((2, 2, 2, 2), "all", 1 if q else 2),
        ((2, 2, 2, 2, 2), "lean", 1), ((2, 3, 2, 2, 3, 2), "lean", 1), ((2, 3, 2), "lean", 2),
    ]
    for dims, mode, depth in spaces:
        n = len(letters(dims, mode))
        per = max(1, -(-n // (16 if depth > 1 else 4)))
        u += [{"k": "walk", "dims": dims, "mode": mode, "depth": depth, "first": [i, i + per]} for i in range(0, n, per)]
    return u


def wide_ops(dims):
    n = len(dims)
    ops = [[k, r] for k in "hz" for r in range(n)] + [["x", r, p] for r in range(n) for p in {1, dims[r] - 1, -1, 10, 123}]
    ops += [["cx", [c, t], p] for c in range(n) for t in range(n) if c != t and (n < 9 or abs(c - t) in (1, 7, n - 1)) for p in (1, dims[t] - 1)]
    if n > 2:
        at = [(list(range(n - 1)), n - 1), (list(range(1, n)), 0), ([0, n - 1], n // 2), ([0, 1], n - 1), ([n - 1, n - 2], 0), (list(range(0, n - 1, 2)), n - 1), (list(range(n // 2)) + list(range(n // 2 + 1, n)), n // 2)]
        if np.prod(dims) > 600:
            at = [([r + 2, r], r + 1) for r in range(0, n - 2, 3)] + [([r, r + 1], r + 3) for r in range(0, n - 3, 3)] + [([r + 3, r + 1, r + 2], r) for r in range(0, n - 3, 4)]
        ops += [["tof", cs, t, p] for cs, t in at for p in (1, -1) if np.prod(dims[min(cs + [t]):max(cs + [t]) + 1]) <= 600]
    for k in (1, 2, 3, 4, 5, 6, 7):
        for r in range(n - k + 1) if k < 5 else {0, n - k} if n >= k else ():
            size = int(np.prod(dims[r:r + k]))
            if f"I{size}" in MATS:
                ops.append(["gate", f"I{size}", list(range(r, r + k))])
    return [o for o in ops if not (o[0] == "cx" and dims[o[1][0]] == dims[o[1][1]] == 2 and o[2] % 2 == 0)]


def expected(dims, ops, measured):
    cols = []
    for layer in ref.layers(len(dims), ops):
        col = []
        for op in layer:
            kind = op[0]
            if kind in ("h", "z"):
                col.append(("text", op[1], kind.upper(), None, None))
            elif kind == "x":
                col.append(("text", op[1], "X", op[2] % dims[op[1]], dims[op[1]]))
            elif kind == "gate":
                regs = op[2]
                if len(regs) == 1:
                    col.append(("text", regs[0], "G", None, None))
                else:
                    col.append(("block", regs[0], regs[-1]))
                    col.append(("middle", (regs[0] + regs[-1]) / 2 + 1))
                    col += [("corner", r) for r in regs]
            else:
                cs, t, p = ([op[1][0]], op[1][1], op[2]) if kind == "cx" else (op[1], op[2], op[3])
                regs = list(cs) + [t]
                if kind == "cx" and dims[cs[0]] == dims[t] == 2:
                    col += [("ring", t), ("cross", t)]
                else:
                    col.append(("text", t, "X", p % dims[t], dims[t]))
                col += [("dot", c) for c in cs]
                col.append(("join", min(regs), max(regs)))
        cols.append(sorted(col, key=repr))
    if measured:
        cols.append(sorted((("text", r, "M", None, None) for r in range(len(dims))), key=repr))
    return cols


def reduced(col):
    """Increments modulo the dimension: X^{+p}_d may show p as given."""
    return sorted((e[:3] + (e[3] % e[4], e[4]) if e[0] == "text" and e[4] else e for e in col), key=repr)


def check(qc, dims, init, ops, measured, compress):
    style = {"style": "mpl"} if compress == 1 else {"style": "mpl", "compress": compress}
    labels, cols = mpl.read(lambda: qc.draw(**style), len(dims))
    want = {i: (i, d, s) for i, (d, s) in enumerate(zip(dims, init))}
    if labels != want:
        return f"the labels (line, dimension, level) are {labels}, expected {want}"
    exp = expected(dims, ops, measured)
    for j, (got, e) in enumerate(itertools.zip_longest(cols, exp)):
        if got is None or e is None or reduced(got) != e:
            return f"column {j} shows {got}, expected {e}"
    return None


def one(ctx, dims, init, ops, both=True, compress=1):
    case = {"dims": dims, "init": init, "ops": ops, "compress": compress}

    def go():
        qc = harness.build(list(dims), init)
        for op in ops:
            harness.apply(qc, op, MATS)
        for measured in ((False, True) if both and ops else (True,)):
            if measured:
                qc.measure_all()
            before = harness.contents(qc, dims), qc.get_circuit_info(), str(qc)
            for again in (False, True) if len(ops) < 2 or measured != both else (False,):
                bad = check(qc, dims, init, ops, measured, compress)
                if bad:
                    return ("drawn again, " if again else "") + bad
            if (harness.contents(qc, dims), qc.get_circuit_info(), str(qc)) != before:
                return "drawing changed the circuit"
        return harness.compare(qc.run(), ref.run(tuple(dims), init, ops, MATS)) if np.prod(dims) <= 64 else None

    scr = harness.script(list(dims), init, ops, matrices=MATS, tail="import matplotlib; matplotlib.use('Agg'); qc.draw(style='mpl')")
    bad = ctx.guarded(go, case, scr)
    if bad:
        ctx.violation(case, bad, script=scr)
    ctx.trace()
    ctx.state((dims, tuple(init), str(ops), compress))
    ctx.outcome((dims, str(expected(dims, ops, True))))
    ctx.sample(case)


def explore(unit, ctx):
    if unit["k"] == "levels":
        for dims in [(2,), (3,), (5,), (9,), (2, 3), (3, 2, 2)]:
            for init in ref.all_digits(dims):
                ctx.transition()
                one(ctx, dims, list(init), [["x", len(dims) - 1, 1]], both=False)
        one(ctx, (12,), [11], [["x", 0, 10]])
        return
    dims = tuple(unit["dims"])
    init = [(i + 1) % d for i, d in enumerate(dims)]
    if unit["k"] == "wide":
        ops = wide_ops(dims)
        for i, op in enumerate(ops):
            if i % 4 == unit["part"]:
                ctx.transition(3)
                one(ctx, dims, init, [op], both=False)
                if len(dims) < 9 or i % 3 == 0:
                    one(ctx, dims, init, [ops[i - 1], op, ops[i - 7]], both=False)
        return
    if unit["k"] == "figures":
        # every length up to the third figure's end, so that a figure ends after every layer
        for a, b in (((letters(dims, "lean")[0]), letters(dims, "lean")[-1]), (["h", 0], ["x", len(dims) - 1, 1])):
            for k in range(1, 26):
                ctx.transition(k)
                one(ctx, dims, init, ([a, b] * k)[:k], compress=unit["compress"])
        return
    if unit["k"] == "periodic":
        alpha = letters(dims, "lean")
        pairs = [(a, b) for a in alpha for b in alpha]
        for i, (a, b) in enumerate(pairs):
            # every letter alone, and every letter paired with its successor
            if i % 8 != unit["part"] or not (a == b or alpha.index(b) == (alpha.index(a) + 1) % len(alpha)):
                continue
            for compress in (1, 2, 3):
                ctx.transition(unit["len"])
                one(ctx, dims, init, [a, b] * (unit["len"] // 2), both=False, compress=compress)
        return
    alpha = letters(dims, unit["mode"])

    def rec(ops):
        one(ctx, dims, init, ops)
        if len(ops) < unit["depth"]:
            for a in alpha if ops else alpha[slice(*unit["first"])]:
                ctx.transition()
                rec(ops + [a])

    rec([])
