"""C04: Toffoli fires exactly when every control is at its top level."""

import itertools

from mc import common, family, harness, ref

ID = "C04"
LEVEL = "model_checking"
ASSUMPTIONS = ("amplitudes are compared with tolerance 1e-9",)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every non-empty control set in every order (all permutations up to three controls; ascending, descending and one rotation above) "
        "and every target, on every basis state: two qudits over 2..%d, three qudits over {2,3%s} with increments -1,0,1,2,d-1,d,d+1 and, on selected shapes, 42 around powers of two up to 2^70; "
        "four qudits over {2,3} with increment 1; dimensions 130 and 258 at the levels 0, 127..129, 256 and the two highest; five qubits and selected shapes; six qubits%s; seven to %d qudits with every one, all but one, every second and the two outermost of the others as controls; Toffoli after superposition and pairs of "
        "Toffolis on three qudits; default and dense backends; its circuits of one gate over up to three qudits of dimension 2 to 4, four of 2 and 3, and 33 registers whose written forms coincide, one after another in one process in three orders" % ((5, "", " on a subset of basis states", 9) if q else (6, ",4", " and seven qubits on a subset of basis states", 10))
    )


def orders(cs):
    if len(cs) <= 3:
        return list(itertools.permutations(cs))
    return [cs, cs[::-1], cs[1:] + cs[:1]]


def all_ops(dims, t, plus):
    n = len(dims)
    others = [r for r in range(n) if r != t]
    for k in range(1, n):
        for cs in itertools.combinations(others, k):
            for o in orders(cs):
                for p in plus:
                    yield ["tof", list(o), t, p]


def units(tier):
    q = tier == "quick"
    u = []
    for s in itertools.product(range(2, 6 if q else 7), repeat=2):
        u.append({"k": "full", "dims": s, "plus": "some"})
    three = list(itertools.product((2, 3) if q else (2, 3, 4), repeat=3))
    if q:
        three += [(2, 4, 2), (4, 2, 3)]
    for s in three:
        u += [{"k": "full", "dims": s, "plus": "some" if max(s) < 4 else "two", "t": t} for t in range(3)]
    for s in itertools.product((2, 3), repeat=4):
        if q and sum(s) > 10:
            continue
        u += [{"k": "full", "dims": s, "plus": "one", "t": t, "solo": True} for t in range(4)]
    u += [{"k": "super", "dims": s, "t": t} for s in three[: 8 if q else 27] for t in range(3)]
    for s in [(2,) * 5, (2, 2, 3, 2, 2)] + ([] if q else [(3, 2, 2, 2, 2), (2, 2, 2, 2, 3), (2, 3, 2, 3, 2)]):
        u += [{"k": "full", "dims": s, "plus": "one", "t": t, "solo": True, "few": q} for t in range(5)]
    u += [{"k": "full", "dims": s, "plus": "huge"} for s in ((2, 3), (3, 2), (2, 5), (2, 2, 3), (2, 3, 2))]
    u += [{"k": "full", "dims": (2,) * 6, "plus": "one", "t": t, "solo": True, "few": True} for t in range(6)]
    if not q:
        u += [{"k": "full", "dims": (2,) * 7, "plus": "one", "t": t, "solo": True, "few": True, "asc": True} for t in range(7)]
    u += [{"k": "large", "dims": s} for s in ((2, 130), (130, 2), (2, 258), (2, 130, 2), (130, 2, 2), (2, 2, 130))]
    u += [{"k": "forms", "dims": s} for s in ((2, 2, 2), (2, 3, 2), (3, 2, 3))]
    many = [(2,) * 7, (2,) * 8] + [(2,) * i + (3,) + (2,) * (6 - i) for i in (0, 3, 6)] + ([] if q else [(2,) * i + (3,) + (2,) * (7 - i) for i in range(8)])
    u += [{"k": "many", "dims": s, "t": t} for s in many for t in range(len(s))]
    u += [{"k": "most", "dims": s, "t": t} for s in [(2,) * 9] + ([] if q else [(2,) * 10]) for t in range(len(s))]
    return u + family.units("tof")


# where machine integers end, and beyond
HUGE = [s * (2**k + e) for k in (15, 31, 32, 53, 63, 64, 70) for e in (-1, 0, 1) for s in (1, -1)]


def increments(d, which):
    return {"huge": HUGE, "some": sorted({-1, 0, 1, 2, d - 1, d, d + 1}), "two": [1, -1], "one": [1]}[which]


def explore(unit, ctx):
    if unit["k"] == "family":
        return family.explore(unit, ctx)
    dims = tuple(unit["dims"])
    n = len(dims)
    if unit["k"] == "super":
        return superposed(dims, unit["t"], ctx)
    if unit["k"] == "forms":
        return forms(dims, ctx)
    if unit["k"] == "large":
        return large(dims, ctx)
    if unit["k"] in ("many", "most"):
        return many(dims, unit["t"], unit["k"] == "most", ctx)
    for t in [unit["t"]] if "t" in unit else range(n):
        for op in all_ops(dims, t, increments(dims[t], unit["plus"])):
            if unit.get("asc") and op[1] != sorted(op[1]):
                continue
            for init in ref.all_digits(dims):
                if unit.get("few") and not interesting(dims, init, op):
                    continue
                step(ctx, dims, list(init), [op], numpy=not unit.get("solo"))


def many(dims, t, most, ctx):
    """Seven controls and more: all the others, all but one, the two ends and the neighbours."""
    n = len(dims)
    others = [r for r in range(n) if r != t]
    sets = [others, others[::-1]]
    if not most:
        sets += [[r for r in others if r != out] for out in others] + [[others[0], others[-1]], others[1::2], others[::2]]
        sets += [others[1:] + others[:1]]
    for cs in sets:
        for p in (1,) if dims[t] == 2 else (1, dims[t] - 1):
            op = ["tof", list(cs), t, p]
            tops = [d - 1 for d in dims]
            step(ctx, dims, tops, [op], numpy=False)
            for low in cs if not most else cs[:: len(cs) - 1]:
                init = list(tops)
                init[low] -= 1
                step(ctx, dims, init, [op], numpy=False)
            # what is no control does not matter
            step(ctx, dims, [dims[r] - 1 if r in cs else 0 for r in range(n)], [op], numpy=False)


def interesting(dims, init, op):
    """At most one control away from firing; the others all zero or all at top."""
    low = sum(1 for c in op[1] if init[c] != dims[c] - 1)
    rest = [init[r] == dims[r] - 1 for r in range(len(dims)) if r not in op[1] and r != op[2]]
    return low <= 1 and (all(rest) or not any(rest))


def step(ctx, dims, init, ops, numpy=True):
    v = ref.run(dims, init, ops)
    ctx.state(ref.vkey(v))
    ctx.transition(len(ops))
    common.judge(ctx, dims, init, ops, v)
    if numpy:
        common.judge(ctx, dims, init, ops, v, backend="numpy", counted=False)


def large(dims, ctx):
    for t in range(len(dims)):
        for op in all_ops(dims, t, [1]):
            for j in sorted({k for k in (0, 127, 128, 129, 256, dims[t] - 2, dims[t] - 1) if 0 <= k < dims[t]}):
                for low in [None] + list(op[1]):
                    init = [d - 1 for d in dims]
                    init[t] = j
                    if low is not None:
                        init[low] -= 1
                    step(ctx, dims, init, [op], numpy=False)


def superposed(dims, t, ctx):
    n = len(dims)
    z = [0] * n
    tofs = list(all_ops(dims, t, [1]))
    for a in tofs:
        for hs in range(1, n + 1):
            for regs in itertools.combinations(range(n), hs):
                step(ctx, dims, z, [["h", r] for r in regs] + [a], numpy=False)
                step(ctx, dims, z, [["h", r] for r in regs] + [["z", regs[0]], a, ["h", regs[0]]], numpy=False)
        step(ctx, dims, common.top(dims), [a] * dims[t], numpy=False)
    for b in (op for t2 in range(n) for op in all_ops(dims, t2, [1])):
        for a in tofs:
            if len(a[1]) == 2 and len(b[1]) == 2:
                step(ctx, dims, common.top(dims), [a, b], numpy=False)
                step(ctx, dims, z, [["h", 0], ["h", 1], ["h", 2], ["z", t], a, b], numpy=False)


def forms(dims, ctx):
    ways = {
        "toffoli(([..], t))": (1, lambda qc, cs, t: qc.toffoli((cs, t))),
        "toffoli(((..), t))": (1, lambda qc, cs, t: qc.toffoli((tuple(cs), t))),
        "toffoli(qreg=([..], t), plus=2)": (2, lambda qc, cs, t: qc.toffoli(qreg=(cs, t), plus=2)),
        "toffoli(([..], t), 2)": (2, lambda qc, cs, t: qc.toffoli((cs, t), 2)),
        "toffoli([[..], t], -1)": (-1, lambda qc, cs, t: qc.toffoli([cs, t], -1)),
    }
    for name, (p, fn) in ways.items():
        for t in range(len(dims)):
            for _, cs, _, _ in all_ops(dims, t, [p]):
                for init in ref.all_digits(dims):
                    v = ref.run(dims, init, [["tof", cs, t, p]])
                    case = {"dims": dims, "init": init, "call": name, "controls": cs, "target": t}
                    ctx.transition()

                    def go():
                        qc = harness.build(list(dims), init)
                        if fn(qc, list(cs), t) is not True:
                            return "the call did not report success"
                        qc.measure_all()
                        return harness.compare(qc.run(), v)

                    bad = ctx.guarded(go, case)
                    if bad:
                        ctx.violation(case, bad)
                    ctx.trace()
                    ctx.outcome(ref.vkey(v))
