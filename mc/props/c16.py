"""C16: custom gates act by their matrix on the chosen registers, or are refused."""

import itertools

import numpy as np

from mc import common, family, harness, ref

ID = "C16"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "amplitudes are compared with tolerance 1e-9",
    "matrices within the code's own unitarity tolerance (entries off by less than about 1e-5) are not explored",
)
R2 = 2 ** -0.5
MONO = [0, 1, -1, 1j, -1j]


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every 2x2 matrix over {0,1,-1,i,-i} and over {1,-1,i,-i}/sqrt2 and every generalised 3x3 permutation with phases 1,-1,i,-i (unitary ones must act, others "
        "must fail), every 2x2 unitary with one entry changed; permutation-phase and rotation matrices of size 4, 6, 8, 9, 12 on one register (d=4,6), on every block of two and three adjacent registers "
        "of every register of 1..%d qudits over {2,3}, on every basis state and after superposition, between every pair of built-in gates; every matrix of a "
        "wrong size up to %d (square and rectangular) at every placement; blocks of up to all of five registers and dimensions up to 27, with near-unitary and wrong-sized variants; the library's own H and Z classes placed as custom gates in every sequence of up to %d gates; every form of the call; one- and two-letter periodic sequences of %d gates; matrices of 11 element types and five memory layouts; default and dense backends; its circuits of one gate over up to three qudits of dimension 2 to 4, four of 2 and 3, and 33 registers whose written forms coincide, one after another in one process in three orders" % ((4, 9, 5, 16) if q else (5, 13, 7, 40))
    )


def perm_phase(n, shift, phases=(1, 1j, -1, -1j)):
    return np.roll(np.diag([phases[(k * k + k // 2) % len(phases)] for k in range(n)]), shift, axis=0)


def rotation(n, i, j):
    m = np.eye(n, dtype=complex)
    m[i, i], m[i, j], m[j, i], m[j, j] = 0.6, -0.8j, -0.8j, 0.6
    return m


def fourier(n):
    return ref.h_matrix(n)


def big(n):
    swap = np.eye(n)[[n - 1] + list(range(1, n - 1)) + [0]]
    return {
        f"shift{n}": perm_phase(n, 1),
        f"shift{n}b": perm_phase(n, n - 1, (1, -1j)),
        f"rot{n}": rotation(n, 0, n - 1),
        f"rot{n}b": rotation(n, n // 2, n // 2 - 1),
        f"swap{n}": swap,
        f"F{n}": fourier(n),
        f"RF{n}": rotation(n, 0, 1) @ perm_phase(n, 2),
    }


def units(tier):
    q = tier == "quick"
    u = [{"k": "small2", "a": i} for i in range(len(MONO))] + [{"k": "small2h", "a": i} for i in range(4)]
    u += [{"k": "small3", "p": i} for i in range(6)]
    u += [{"k": "near"}]
    shapes = [s for n in range(1, 5 if q else 6) for s in itertools.product((2, 3), repeat=n)] + [(4,), (6,), (4, 2), (2, 4), (6, 2), (2, 4, 3)]
    for s in shapes:
        if len(s) == 4 and q and sum(s) > 10 or len(s) == 5 and sum(s) > 11:
            continue
        u.append({"k": "place", "dims": s})
    for s in ((2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2), (4, 2), (2, 4), (2, 2, 2, 2)):
        u.append({"k": "sizes", "dims": s, "max": 9 if q else 13})
    for s in ((2, 2, 2, 2), (2, 3, 2, 2), (3, 3, 3), (2, 2, 3, 2), (4, 5), (5, 4), (3, 8), (12,), (16,), (27,), (2, 10), (10, 2), (2, 2, 2, 2, 2), (3, 2, 2, 2, 2), (7, 3), (3, 2, 4), (11, 2), (2, 13)):
        u.append({"k": "large", "dims": s})
    for s in ((2, 3), (3, 2), (2, 2, 2), (2, 3, 2)):
        u.append({"k": "between", "dims": s, "full": not q})
    for s in ((2,), (3,), (5,), (2, 3), (3, 2), (2, 2, 3)):
        u.append({"k": "classes", "dims": s, "depth": (5 if q else 7) if len(s) == 1 else 3 if len(s) == 2 else 2 if q else 3})
    u += [{"k": "long", "dims": s, "len": 16 if q else 40} for s in ((2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2))]
    u += [{"k": "types", "part": i} for i in range(4)]
    u += [{"k": "forms", "dims": s} for s in ((2,), (5,), (2, 3), (3, 2, 2))]
    return u + family.units("gate")


def explore(unit, ctx):
    k = unit["k"]
    if k == "family":
        return family.explore(unit, ctx)
    if k == "small2":
        for rest in itertools.product(MONO, repeat=3):
            small(ctx, np.array([[MONO[unit["a"]], rest[0]], [rest[1], rest[2]]], dtype=complex), 2)
    elif k == "small2h":
        for rest in itertools.product(MONO[1:], repeat=3):
            small(ctx, np.array([[MONO[1:][unit["a"]], rest[0]], [rest[1], rest[2]]], dtype=complex) * R2, 2)
    elif k == "small3":
        perm = list(itertools.permutations(range(3)))[unit["p"]]
        for ph in itertools.product(MONO, repeat=3):
            m = np.zeros((3, 3), dtype=complex)
            for i, j in enumerate(perm):
                m[i, j] = ph[i]
            small(ctx, m, 3)
    elif k == "near":
        near(ctx)
    elif k == "place":
        place(ctx, tuple(unit["dims"]))
    elif k == "forms":
        forms(ctx, tuple(unit["dims"]))
    elif k == "classes":
        classes(ctx, tuple(unit["dims"]), unit["depth"])
    elif k == "types":
        types(ctx, unit["part"])
    elif k == "large":
        large(ctx, tuple(unit["dims"]))
    elif k == "sizes":
        sizes(ctx, tuple(unit["dims"]), unit["max"])
    elif k == "long":
        long(ctx, tuple(unit["dims"]), unit["len"])
    else:
        between(ctx, tuple(unit["dims"]), unit["full"])


def unitary(m):
    return m.shape[0] == m.shape[1] and np.allclose(m @ m.conj().T, np.eye(len(m)), atol=1e-12)


def both(ctx, dims, init, ops, mats):
    v = ref.run(dims, init, ops, mats)
    ctx.transition(len(ops))
    ctx.state(ref.vkey(v))
    for b in ("default", "numpy"):
        common.judge(ctx, dims, init, ops, v, backend=b, matrices=mats, counted=b == "numpy")


def refused(ctx, dims, init, ops, mats, what):
    for b in ("default", "numpy"):
        case = {"dims": dims, "init": init, "ops": ops, "matrix": np.asarray(mats["M"]).astype(str).tolist(), "backend": b}
        ctx.transition(len(ops))
        ctx.trace()
        try:
            report = harness.run_ops(dims, init, ops, b, mats)
        except Exception as e:
            ctx.outcome((what, type(e).__name__))
            ctx.state((dims, str(ops), str(mats["M"])))
            continue
        ctx.violation(case, f"a matrix that is {what} was accepted: the run reports {report}", script=harness.script(list(dims), init, ops, b, mats))


def kinds(m):
    """The same matrix in every kind of array that holds it exactly."""
    yield "complex128", m
    real = np.all(m.imag == 0)
    whole = real and np.all(m.real == m.real.round())
    names = ["complex64"] if np.all(m == m.astype("complex64")) else []
    if real:
        names += ["float64", "float32", "float16"] if whole else ["float64"]
    if whole:
        names += ["int64", "int32", "int16", "int8"]
        if np.all(m.real >= 0):
            names += ["uint8", "uint64"]
    for name in names:
        yield name, (m.real if name not in ("complex64",) else m).astype(name)
    yield "columns first", np.asfortranarray(m)
    yield "transposed view", np.ascontiguousarray(m.T).T
    yield "strided view", np.repeat(np.repeat(m, 2, axis=0), 3, axis=1)[::2, ::3]
    yield "backward view", np.ascontiguousarray(m[::-1, ::-1])[::-1, ::-1]
    fixed = m.copy()
    fixed.setflags(write=False)
    yield "read-only", fixed


def keep(m):
    """A gate class whose matrix is the given array itself."""

    class Kept(harness.ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = m

    return Kept


def types(ctx, part):
    mats = {2: [np.array(p, dtype=complex) for p in ([[0, 1], [1, 0]], [[0, -1], [1, 0]], [[1, 0], [0, -1]], [[0, -1j], [1j, 0]], [[0.6, 0.8], [-0.8, 0.6]])]}
    mats[2] += [np.array([[1, 1], [1, -1]], dtype=complex) * R2]
    for n in (3, 4, 6):
        mats[n] = [perm_phase(n, 1).astype(complex), np.roll(np.eye(n), 1, axis=0).astype(complex), np.diag([1] + [-1] * (n - 1)).astype(complex), -np.roll(np.eye(n), 2, axis=1).astype(complex)]
    spots = {2: [((2,), [0]), ((3, 2), [1])], 3: [((3,), [0]), ((3, 2), [0])], 4: [((2, 2), [0, 1]), ((2, 2, 2), [1, 2])], 6: [((2, 3), [0, 1]), ((6, 2), [0])]}
    jobs = [(n, m, dims, regs) for n in mats for m in mats[n] for dims, regs in spots[n]]
    for n, m, dims, regs in jobs[part::4]:
        for kind, a in kinds(m):
            for b in ("default", "numpy"):
                for init in ref.all_digits(dims):
                    for ops in ([["gate", "M", regs]], [["h", 0], ["gate", "M", regs], ["gate", "M", regs], ["z", 0]]):
                        want = ref.run(dims, init, ops, {"M": m})
                        case = {"dims": dims, "init": init, "ops": ops, "matrix": m.astype(str).tolist(), "given as": kind, "backend": b}

                        def go():
                            before = a.copy()
                            qc = harness.build(list(dims), init, b)
                            for op in ops:
                                done = qc.gate(keep(a), regs[0] if len(regs) == 1 else list(regs)) if op[0] == "gate" else harness.apply(qc, op)
                                if done is not True:
                                    return f"{op} did not report success"
                            qc.measure_all()
                            bad = harness.compare(qc.run(), want)
                            if not bad and not np.array_equal(before, a):
                                return "the matrix was modified"
                            return bad

                        bad = ctx.guarded(go, case)
                        if bad:
                            ctx.violation(case, bad)
                        ctx.trace()
                        ctx.transition(len(ops))
                        ctx.state((kind, ref.vkey(want)))


def classes(ctx, dims, depth):
    """The library's own gate classes, handed to gate()."""
    from qudiet.circuit_library.standard_gates.h import HGate
    from qudiet.circuit_library.standard_gates.z import ZGate

    n = len(dims)
    alpha = [[k, r] for r in range(n) for k in ("h", "z", "H", "Z")] + [["x", r, 1] for r in range(n)]
    alpha += [["cx", [r, r + 1], 1] for r in range(n - 1)] + [["cx", [r + 1, r], 1] for r in range(n - 1)]
    for length in range(1, depth + 1):
        for ops in itertools.product(alpha, repeat=length):
            if not any(op[0] in "HZ" for op in ops):
                continue
            init = [d - 1 for d in dims]
            want = ref.run(dims, init, [[op[0].lower(), *op[1:]] for op in ops], {})
            case = {"dims": dims, "init": init, "ops": ops, "note": "H and Z in capitals are placed with gate(HGate, ...) and gate(ZGate, ...)"}

            def go():
                qc = harness.build(list(dims), init, "numpy" if length % 2 else "default")
                for op in ops:
                    done = qc.gate({"H": HGate, "Z": ZGate}[op[0]], op[1]) if op[0] in "HZ" else harness.apply(qc, op)
                    if done is not True:
                        return f"{op} did not report success"
                qc.measure_all()
                return harness.compare(qc.run(), want)

            bad = ctx.guarded(go, case)
            if bad:
                ctx.violation(case, bad)
            ctx.trace()
            ctx.transition(length)
            ctx.state((dims, str(ops)))


def forms(ctx, dims):
    """Every way of passing the arguments of gate()."""
    for regs in blocks(dims):
        size = int(np.prod([dims[r] for r in regs]))
        for name, m in big(size).items():
            G = harness.custom_gate(m)
            ways = {"gate(G, list)": lambda qc: qc.gate(G, list(regs)), "gate(gate=G, qreg=list)": lambda qc: qc.gate(gate=G, qreg=list(regs)), "gate(G, list, None)": lambda qc: qc.gate(G, list(regs), None)}
            if len(regs) == 1:
                r, d = regs[0], dims[regs[0]]
                ways.update({
                    "gate(G, r)": lambda qc: qc.gate(G, r), "gate(G, qreg=r)": lambda qc: qc.gate(G, qreg=r), "gate(G, r, None)": lambda qc: qc.gate(G, r, None),
                    "gate(G, r, d)": lambda qc: qc.gate(G, r, d), "gate(G, r, dims=d)": lambda qc: qc.gate(G, r, dims=d),
                })
            for way, place in ways.items():
                for init in ref.all_digits(dims):
                    case = {"dims": dims, "init": init, "matrix": name, "registers": regs, "call": way}
                    v = ref.run(dims, list(init), [["gate", "M", regs]], {"M": m})

                    def go():
                        qc = harness.build(list(dims), init)
                        if place(qc) is not True:
                            return "the call did not report success"
                        qc.measure_all()
                        return harness.compare(qc.run(), v)

                    bad = ctx.guarded(go, case)
                    if bad:
                        ctx.violation(case, bad)
                    ctx.transition()
                    ctx.trace()
                    ctx.state((dims, init, name, regs, way))


def small(ctx, m, d):
    mats = {"M": m}
    ok = unitary(m)
    for dims, r in (((d,), 0), ((d, 2), 0), ((2, d), 1)):
        ops = [["gate", "M", [r]]]
        if not ok:
            refused(ctx, dims, [1] * len(dims), ops, mats, "not unitary")
            continue
        for k in range(d):
            init = [1] * len(dims)
            init[r] = k
            both(ctx, dims, init, ops, mats)
        both(ctx, dims, [0] * len(dims), [["h", r], *ops, ["h", r]], mats)


def near(ctx):
    """One entry of a unitary changed; complex-orthogonal matrices; scaled unitaries."""
    good = [np.eye(2), np.array([[0, -1j], [1j, 0]]), fourier(2), fourier(3), rotation(3, 0, 2), perm_phase(4, 1), fourier(4), rotation(6, 1, 4)]
    for m in good:
        n = len(m)
        m = m.astype(complex)
        spots = [((i, j), delta) for i in range(n) for j in range(n) for delta in (0.001, 0.01, -0.3, 1, 1j)]
        for (i, j), delta in spots:
            b = m.copy()
            b[i, j] += delta
            if not unitary(b):
                placements(ctx, b, "not unitary")
        for f in (0.99, 2, 0.5, 1.5j):
            placements(ctx, m * f, "not unitary")
    s2 = 2 ** 0.5
    for b in ([[s2, 1j], [1j, -s2]], [[s2, 1j], [-1j, s2]], [[1j, s2], [s2, -1j]]):
        placements(ctx, np.array(b, dtype=complex), "not unitary")
        # inside a bigger matrix
        for n in (3, 4):
            m = np.eye(n, dtype=complex)
            m[:2, :2] = b
            placements(ctx, m, "not unitary")
    placements(ctx, np.zeros((2, 2)), "not unitary")
    placements(ctx, np.ones((2, 2)), "not unitary")
    placements(ctx, np.full((2, 2), np.nan), "not unitary")


def placements(ctx, m, what):
    n = len(m)
    spots = {2: [((2,), [0]), ((2, 3), [0])], 3: [((3,), [0]), ((2, 3), [1])], 4: [((4,), [0]), ((2, 2), [0, 1]), ((2, 2, 2), [1, 2])], 6: [((2, 3), [0, 1]), ((6,), [0])]}
    for dims, regs in spots[n]:
        refused(ctx, dims, [1] * len(dims), [["gate", "M", regs]], {"M": m}, what)
        refused(ctx, dims, [0] * len(dims), [["h", 0], ["gate", "M", regs], ["x", 0, 1]], {"M": m}, what)


def blocks(dims, top=3):
    for k in range(1, min(top, len(dims)) + 1):
        for r in range(len(dims) - k + 1):
            yield list(range(r, r + k))


def place(ctx, dims):
    n = len(dims)
    for regs in blocks(dims):
        size = int(np.prod([dims[r] for r in regs]))
        if size > 12:
            continue
        for name, m in big(size).items():
            mats = {"M": m}
            op = ["gate", "M", regs]
            inits = list(ref.all_digits(dims)) if np.prod(dims) <= 12 or name[0] in "sr" and np.prod(dims) <= 24 else list(ref.all_digits(dims))[::5]
            for init in inits:
                both(ctx, dims, list(init), [op], mats)
            for r in range(n):
                both(ctx, dims, [0] * n, [["h", r], op], mats)
                both(ctx, dims, [1] * n, [op, ["h", r]], mats)


def large(ctx, dims):
    """Blocks of up to all of the registers, and dimensions in the tens."""
    n = len(dims)
    for regs in blocks(dims, top=n):
        size = int(np.prod([dims[r] for r in regs]))
        if size <= 12 and len(regs) < 3:
            continue
        for name, m in big(size).items():
            mats = {"M": m}
            op = ["gate", "M", regs]
            inits = list(ref.all_digits(dims))
            for init in inits[:: max(1, len(inits) // 7)] + inits[-1:]:
                both(ctx, dims, list(init), [op], mats)
            both(ctx, dims, [0] * n, [["h", n - 1], op, ["z", 0], op], mats)
            for i, j in ((0, size - 1), (size // 2, size // 2), (size - 1, 0), (1, 2)):
                b = np.array(m, dtype=complex)
                b[i, j] += 0.25
                if not unitary(b):
                    refused(ctx, dims, [1] * n, [op], {"M": b}, "not unitary")
        for wrong in {size - 1, size + 1, 2 * size, size // 2, size // dims[regs[0]], size * dims[0]} - {size, 0}:
            refused(ctx, dims, [1] * n, [["gate", "M", regs]], {"M": perm_phase(wrong, 1)}, "of the wrong size")


def sizes(ctx, dims, top):
    for regs in blocks(dims):
        right = int(np.prod([dims[r] for r in regs]))
        for rows, cols in itertools.product(range(1, top + 1), repeat=2):
            if (rows, cols) == (right, right) or rows == cols and cols == right:
                continue
            base = np.eye(rows, cols)
            for m in (base, base[::-1].copy()):
                refused(ctx, dims, [1] * len(dims), [["gate", "M", regs]], {"M": m}, "of the wrong size")
            refused(ctx, dims, [0] * len(dims), [["x", 0, 1], ["gate", "M", regs], ["h", 0]], {"M": base}, "of the wrong size")
            if rows == cols and len(regs) > 1:
                refused(ctx, dims, [0] * len(dims), [["gate", "M", regs], ["gate", "M", regs]], {"M": base}, "of the wrong size")


def long(ctx, dims, length):
    """Many custom gates in one circuit: one or two letters over and over, with different matrices."""
    n = len(dims)
    mats, alpha = {}, [["h", 0], ["x", n - 1, 1]] + ([["cx", [0, n - 1], 1]] if n > 1 else [])
    for regs in blocks(dims):
        size = int(np.prod([dims[r] for r in regs]))
        for name, m in (("R", rotation(size, 0, size - 1) @ perm_phase(size, 1)), ("F", fourier(size)), ("P", perm_phase(size, size - 1))):
            mats[f"{name}{size}"] = m
            alpha.append(["gate", f"{name}{size}", regs])
    for a in alpha[2:]:
        for b in alpha:
            ops = [a, b] * (length // 2)
            v = ref.run(dims, [1] * n, ops, mats)
            ctx.transition(len(ops))
            ctx.state((dims, str(a), str(b)))
            common.judge(ctx, dims, [1] * n, ops, v, backend="default" if len(dims) < 3 else "numpy", matrices=mats)
    every = [o for o in alpha if o[0] == "gate"] * 2
    both(ctx, dims, [0] * n, [["h", 0]] + every, mats)
    both(ctx, dims, [1] * n, every[::-1], mats)


def between(ctx, dims, full):
    n = len(dims)
    alpha = common.alphabet(dims, plus="one", tof="asc")
    mats, customs = {}, []
    for regs in blocks(dims):
        size = int(np.prod([dims[r] for r in regs]))
        mats[f"R{size}"] = rotation(size, 0, 1) @ perm_phase(size, 1)
        customs.append(["gate", f"R{size}", regs])
    for g in customs:
        for a, b in itertools.product(alpha, repeat=2):
            both(ctx, dims, [1] * n, [a, g, b], mats)
        for h in customs:
            for a in alpha if full else alpha[:: max(1, len(alpha) // 6)]:
                both(ctx, dims, [0] * n, [["h", 0], g, a, h], mats)
                both(ctx, dims, [1] * n, [g, h, a, g], mats)
