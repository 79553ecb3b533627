"""C03: CX adds its increment to the target exactly when the control is at its top level."""

import itertools

from mc import common, family, harness, ref

ID = "C03"
LEVEL = "model_checking"
ASSUMPTIONS = ("amplitudes are compared with tolerance 1e-9",)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every ordered control/target pair on every basis state: two qudits of dimension 2..%d with every increment in -d-1..2d+1 and 42 around powers of two up to 2^70; "
        "three qudits over {2,3%s} with increments -1,0,1,2,d-1,d,d+1; four qudits over {2,3} with increments 1%s and -1; "
        "five and six qudits on selected shapes; seven and eight%s qudits with the others all at the bottom and all at the top; dimensions up to %d at the levels 0, 1, 127..129, 255..257 and the two highest; superposed controls and targets, and pairs of CX on up to three qudits; "
        "default and dense backends; its circuits of one gate over up to three qudits of dimension 2 to 4, four of 2 and 3, and 33 registers whose written forms coincide, one after another in one process in three orders" % ((6, "", "", "", 258) if q else (8, ",4", ",2", " and nine", 300))
    )


def units(tier):
    q = tier == "quick"
    u = [{"k": "full", "dims": s, "plus": "wide"} for s in itertools.product(range(2, 7 if q else 9), repeat=2)]
    three = list(itertools.product((2, 3) if q else (2, 3, 4), repeat=3))
    u += [{"k": "full", "dims": s, "plus": "some"} for s in three]
    if q:
        u += [{"k": "full", "dims": s, "plus": "two"} for s in ((2, 4, 3), (4, 2, 2), (3, 2, 4))]
    u += [{"k": "super", "dims": s} for s in itertools.product((2, 3), repeat=2)]
    u += [{"k": "super", "dims": s} for s in (three if not q else three[:8])]
    four = list(itertools.product((2, 3), repeat=4))
    u += [{"k": "full", "dims": s, "plus": "two", "pair": list(p)} for s in four for p in itertools.permutations(range(4), 2)]
    for s in ((2, 4, 3, 2), (3, 2, 4, 2), (2, 3, 5, 2)):
        u += [{"k": "full", "dims": s, "plus": "one", "pair": list(p)} for p in itertools.permutations(range(4), 2)]
    five = [(2, 2, 2, 2, 2), (2, 3, 2, 2, 2), (2, 2, 2, 3, 2), (2, 3, 4, 2, 2)] + ([] if q else [(3, 2, 2, 2, 3), (2, 2, 3, 3, 2), (2, 2, 4, 2, 2)])
    for s in five:
        u += [{"k": "full", "dims": s, "plus": "one", "pair": list(p)} for p in itertools.permutations(range(5), 2)]
    six = [(2,) * 6] + ([] if q else [(2, 2, 3, 2, 2, 2), (2,) * 7])
    for s in six:
        for p in itertools.permutations(range(len(s)), 2):
            u.append({"k": "full", "dims": s, "plus": "one", "pair": list(p), "few": q or len(s) > 6})
    u += [{"k": "large", "dims": s} for s in ((2, 130), (130, 2), (2, 258), (129, 3), (2, 130, 2), (130, 2, 2)) + (() if q else ((300, 2), (2, 300), (17, 19), (40, 41)))]
    far = [(2,) * 8, (2, 2, 3, 2, 2, 2, 2), (3,) + (2,) * 6, (2,) * 6 + (3,)] + ([] if q else [(2,) * 9])
    u += [{"k": "far", "dims": s, "c": c} for s in far for c in range(len(s))]
    u += [{"k": "forms", "dims": s} for s in ((2, 3), (3, 2, 2), (2, 4))]
    return u + family.units("cx")


# where machine integers end, and beyond
HUGE = [s * (2**k + e) for k in (15, 31, 32, 53, 63, 64, 70) for e in (-1, 0, 1) for s in (1, -1)]


def increments(d, which):
    return {
        "wide": list(range(-d - 1, 2 * d + 2)) + [10 * d, -10 * d, 10 * d - 1] + HUGE,
        "some": sorted({-1, 0, 1, 2, d - 1, d, d + 1}),
        "two": [1, -1],
        "one": [1],
    }[which]


def explore(unit, ctx):
    if unit["k"] == "family":
        return family.explore(unit, ctx)
    dims = tuple(unit["dims"])
    n = len(dims)
    if unit["k"] == "super":
        return superposed(dims, ctx)
    if unit["k"] == "forms":
        return forms(dims, ctx)
    if unit["k"] == "large":
        return large(dims, ctx)
    if unit["k"] == "far":
        return far(dims, unit["c"], ctx)
    pairs = [unit["pair"]] if "pair" in unit else list(itertools.permutations(range(n), 2))
    for c, t in pairs:
        plus = increments(dims[t], unit["plus"])
        for p in plus:
            for init in ref.all_digits(dims):
                if unit.get("few") and any(x for r, x in enumerate(init) if r not in (c, t)) and not all(
                    x for r, x in enumerate(init) if r not in (c, t)
                ):
                    continue
                step(ctx, dims, list(init), [["cx", [c, t], p]])


def far(dims, c, ctx):
    """Long registers: every target, both sides of firing, the others at the bottom and at the top."""
    for t in range(len(dims)):
        for fire, rest, level in itertools.product((0, 1), (0, 1), range(dims[t])) if t != c else ():
            init = [(d - 1) * rest for d in dims]
            init[c], init[t] = dims[c] - 1 - (1 - fire), level
            step(ctx, dims, init, [["cx", [c, t], dims[t] - 1]], numpy=False)


def edges(d):
    """The levels of a large qudit worth telling apart: its ends, and where machine integers end."""
    return sorted({k for k in (0, 1, 127, 128, 129, 255, 256, 257, d - 2, d - 1) if 0 <= k < d})


def large(dims, ctx):
    for c, t in itertools.permutations(range(len(dims)), 2):
        for k in {0, dims[c] - 2, dims[c] - 1} & set(range(dims[c])):
            for j in edges(dims[t]):
                for p in (1, -1) if k < dims[c] - 1 else (1, -1, 128, dims[t] - 1):
                    init = [dims[r] - 1 for r in range(len(dims))]
                    init[c], init[t] = k, j
                    step(ctx, dims, init, [["cx", [c, t], p]], numpy=False)


def step(ctx, dims, init, ops, numpy=True):
    v = ref.run(dims, init, ops)
    ctx.state(ref.vkey(v))
    ctx.transition(len(ops))
    common.judge(ctx, dims, init, ops, v)
    if numpy:
        common.judge(ctx, dims, init, ops, v, backend="numpy", counted=False)


def superposed(dims, ctx):
    n = len(dims)
    cxs = [["cx", [c, t], p] for c, t in itertools.permutations(range(n), 2) for p in (1, dims[t] - 1)]
    z = [0] * n
    for a in cxs:
        c, t = a[1]
        for pre in ([["h", c]], [["h", c], ["h", t]], [["x", c, dims[c] - 1]], [["h", c], ["z", c], ["x", t, 1]]):
            for post in ([], [["h", c]], [["h", t]], [["z", t]]):
                step(ctx, dims, z, pre + [a] + post)
    for a, b in itertools.product(cxs, repeat=2):
        for r in range(n):
            step(ctx, dims, z, [["h", r], a, b], numpy=False)
        step(ctx, dims, common.top(dims), [a, b], numpy=False)


def forms(dims, ctx):
    """Tuple or list of registers, positional or keyword arguments."""
    n = len(dims)
    ways = {
        "cx((c,t), p)": lambda qc, c, t, p: qc.cx((c, t), p),
        "cx([c,t], p)": lambda qc, c, t, p: qc.cx([c, t], p),
        "cx(acting_on=(c,t), plus=p)": lambda qc, c, t, p: qc.cx(acting_on=(c, t), plus=p),
        "cx([c,t], plus=p)": lambda qc, c, t, p: qc.cx([c, t], plus=p),
        "cx((c,t), p, 2)": lambda qc, c, t, p: qc.cx((c, t), p, 2),
        "cx((c,t), p, dims=smaller dimension)": lambda qc, c, t, p: qc.cx((c, t), p, dims=min(dims[c], dims[t])),
    }
    for name, fn in ways.items():
        for c, t in itertools.permutations(range(n), 2):
            for p in (1, -1, 2):
                for init in ref.all_digits(dims):
                    v = ref.run(dims, init, [["cx", [c, t], p]])
                    case = {"dims": dims, "init": init, "call": name, "c": c, "t": t, "p": p}
                    ctx.transition()

                    def go():
                        qc = harness.build(list(dims), init)
                        if fn(qc, c, t, p) is not True:
                            return "the call did not report success"
                        qc.measure_all()
                        return harness.compare(qc.run(), v)

                    bad = ctx.guarded(go, case)
                    if bad:
                        ctx.violation(case, bad)
                    ctx.trace()
                    ctx.outcome(ref.vkey(v))
