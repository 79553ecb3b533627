"""C02: X, Z and H are the generalised Pauli and Fourier gates in every dimension."""

import itertools

from mc import common, family, harness, ref

ID = "C02"
LEVEL = "model_checking"
ASSUMPTIONS = ("amplitudes are compared with tolerance 1e-9",)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "one qudit of every dimension 2..%d and %s: every basis state under Z, under H and under X with every increment "
        "in -2d-1..2d+1 and +-10d (d<=9) or -d-1..2d+1 (larger d); every word over {X, X^(d-1), Z, H} up to length %d for d<=%d; "
        "dimensions up to %d at the levels and increments 0..2, 127..129, 254..257, the highest two and far beyond the dimension (up to 2^70); "
        "the gate at every position of every 3-qudit register over dimensions {2,3%s}; explicit and default arguments; "
        "default and dense backends; its circuits of one gate over up to three qudits of dimension 2 to 4, four of 2 and 3, and 33 registers whose written forms coincide, one after another in one process in three orders" % ((16, "20, 25, 32, 64", 3, 9, 300, "") if q else (40, "48, 49, 64, 81, 100, 128", 5, 12, 513, ",4,5"))
    )


def units(tier):
    q = tier == "quick"
    u = [{"k": "gates", "d": d} for d in list(range(2, 17 if q else 41)) + ([20, 25, 32, 64] if q else [48, 49, 64, 81, 100, 128])]
    u += [{"k": "large", "d": d} for d in ((127, 128, 130, 256, 258, 300) if q else (127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 400, 513))]
    u += [{"k": "forms", "d": d} for d in range(2, 8)]
    u += [{"k": "words", "d": d, "depth": 3 if q else 5 if d < 8 else 4} for d in range(2, 10 if q else 13)]
    dims = (2, 3) if q else (2, 3, 4, 5)
    for s in itertools.product(dims, repeat=2):
        u.append({"k": "place", "dims": s})
    for s in itertools.product(dims, repeat=3):
        u.append({"k": "place", "dims": s})
    for s in ((7, 2), (2, 7), (9, 3), (3, 9), (2, 5, 2), (6, 2, 2), (2, 2, 8)):
        u.append({"k": "place", "dims": s})
    return u + family.units("x", "z", "h")


def explore(unit, ctx):
    if unit["k"] == "family":
        return family.explore(unit, ctx)
    if unit["k"] == "gates":
        return gates(unit["d"], ctx)
    if unit["k"] == "large":
        return large(unit["d"], ctx)
    if unit["k"] == "words":
        d = unit["d"]
        alpha = [["x", 0, 1]] + ([["x", 0, d - 1]] if d > 2 else []) + [["z", 0], ["h", 0]]
        for k in range(d) if d < 6 else (0, 1, d - 1):
            common.walk(ctx, (d,), [k], alpha, unit["depth"], lambda ops, v: both(ctx, (d,), [k], ops, v))
        return
    if unit["k"] == "forms":
        return forms(unit["d"], ctx)
    place(tuple(unit["dims"]), ctx)


def both(ctx, dims, init, ops, v):
    common.judge(ctx, dims, init, ops, v)
    common.judge(ctx, dims, init, ops, v, backend="numpy", counted=False)


def step(ctx, dims, init, ops):
    v = ref.run(dims, init, ops)
    ctx.state(ref.vkey(v))
    ctx.transition(len(ops))
    both(ctx, dims, init, ops, v)


def gates(d, ctx):
    if d <= 9:
        plus = list(range(-2 * d - 1, 2 * d + 2)) + [10 * d, -10 * d, 10 * d + 1, -10 * d - 1]
    elif d <= 32:
        plus = list(range(-d - 1, 2 * d + 2))
    else:
        plus = [-d - 1, -d, -1, 0, 1, 2, d - 1, d, d + 1, 2 * d + 1]
    states = range(d) if d <= 64 else (0, 1, 2, d // 2, d - 2, d - 1)
    for k in states:
        step(ctx, (d,), [k], [["z", 0]])
        step(ctx, (d,), [k], [["h", 0]])
        # phases made visible, and the order of the gate
        step(ctx, (d,), [k], [["h", 0], ["z", 0]])
        step(ctx, (d,), [k], [["h", 0], ["h", 0]])
        if d <= 32 or k < 3:
            for p in plus:
                step(ctx, (d,), [k], [["x", 0, p]])
    for p in plus:
        step(ctx, (d,), [0], [["h", 0], ["z", 0], ["x", 0, p]])
    step(ctx, (d,), [1], [["h", 0]] * 4)
    if d <= 16:
        step(ctx, (d,), [1], [["h", 0]] + [["z", 0]] * d + [["h", 0]])
        step(ctx, (d,), [0], [["x", 0, 1]] * d)


def large(d, ctx):
    """Levels and increments at the ends and where machine integers end."""
    edge = sorted({k for k in (0, 1, 2, 127, 128, 129, 254, 255, 256, 257, d // 2, d - 2, d - 1) if 0 <= k < d})
    for k in edge:
        for p in sorted(set(edge) | {-p for p in edge} | {d, d + 1, -d, 2 * d + 1, 1000, 32767, 32768, 65536, 2**31, 2**32 + 1, 2**63 - 1, 2**70 + 5, -(2**70)}):
            step(ctx, (d,), [k], [["x", 0, p]])
        step(ctx, (d,), [k], [["z", 0]])
        step(ctx, (d,), [k], [["h", 0]])
    step(ctx, (d,), [1], [["h", 0], ["z", 0], ["x", 0, d - 1]])


def forms(d, ctx):
    """Every way of passing the arguments: omitted, by position, by keyword."""

    def call(name, fn, op):
        for k in range(d):
            v = ref.run((d, 2), [k, 1], [op])
            case = {"dims": [d, 2], "init": [k, 1], "call": name}
            ctx.transition()
            ctx.state(ref.vkey(v))

            def go():
                qc = harness.build([d, 2], [k, 1])
                if fn(qc) is not True:
                    return "the call did not report success"
                qc.measure_all()
                return harness.compare(qc.run(), v)

            bad = ctx.guarded(go, case)
            if bad:
                ctx.violation(case, bad)
            ctx.trace()
            ctx.outcome(ref.vkey(v))
            ctx.sample(case)

    call("x(0)", lambda qc: qc.x(0), ["x", 0, 1])
    call("x(qreg=0)", lambda qc: qc.x(qreg=0), ["x", 0, 1])
    call("h(qreg=0)", lambda qc: qc.h(qreg=0), ["h", 0])
    call("z(qreg=0)", lambda qc: qc.z(qreg=0), ["z", 0])
    call("x(0, d)", lambda qc: qc.x(0, d), ["x", 0, 1])
    call("h(0, d)", lambda qc: qc.h(0, d), ["h", 0])
    call("z(0, d)", lambda qc: qc.z(0, d), ["z", 0])
    for p in range(-d, 2 * d + 1):
        call(f"x(0, plus={p})", lambda qc: qc.x(0, plus=p), ["x", 0, p])
        call(f"x(0, None, {p})", lambda qc: qc.x(0, None, p), ["x", 0, p])
        call(f"x(0, dims={d}, plus={p})", lambda qc: qc.x(0, dims=d, plus=p), ["x", 0, p])


def place(dims, ctx):
    for init in ref.all_digits(dims):
        for r in range(len(dims)):
            d = dims[r]
            for op in [["z", r], ["h", r]] + [["x", r, p] for p in (-1, 0, 1, 2, d - 1, d + 1)]:
                step(ctx, dims, list(init), [op])
    # the same gate kind on every qudit of a mixed register, in one layer
    for kind in ("h", "z", "x"):
        ops = [[kind, r] + ([r + 1] if kind == "x" else []) for r in range(len(dims))]
        for init in ref.all_digits(dims):
            step(ctx, dims, list(init), ops)
            step(ctx, dims, list(init), ops[::-1])
            step(ctx, dims, list(init), ops + ops)
