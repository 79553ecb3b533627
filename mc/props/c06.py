"""C06: every backend gives the same answer.

No GPU library is installed, so the two GPU backends run on stand-ins with the same interface:
`cupy` is NumPy and `cupyx.scipy.sparse` is scipy.sparse.  That decides the backends' own code."""

import itertools
import os
import sys
import types

import numpy
import scipy.sparse

os.environ["CUDA_HOME"] = "/nonexistent-stand-in"
if "cupy" not in sys.modules:
    assert "qudiet" not in sys.modules
    sys.modules["cupy"] = numpy
    cupyx, cs = types.ModuleType("cupyx"), types.ModuleType("cupyx.scipy")
    cupyx.scipy, cs.sparse = cs, scipy.sparse
    sys.modules.update({"cupyx": cupyx, "cupyx.scipy": cs, "cupyx.scipy.sparse": scipy.sparse})

import numpy as np  # noqa: E402

from mc import common, harness, ref  # noqa: E402
from qudiet.core.backend.CUDABackend import CUDABackend  # noqa: E402
from qudiet.core.backend.CUDASparseBackend import CUDASparseBackend  # noqa: E402

harness.BACKENDS["cuda"] = CUDABackend
harness.BACKENDS["sparse-cuda"] = CUDASparseBackend
ALL = ["numpy", "sparse", "cuda", "sparse-cuda", "default"]

ID = "C06"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "cupy and cupyx.scipy.sparse are replaced by NumPy and scipy.sparse: the GPU backends' own code is executed, the GPU libraries are trusted",
    "amplitudes are compared with tolerance 1e-9",
)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every gate sequence on all five backend choices (the four and the default): one qudit d=2..5 up to length %d, two qudits up to length %d, "
        "three qudits up to length 2, four qudits length 1, with custom gates in the alphabet; two-letter periodic words of length %d; dimensions up to 37; "
        "registers of up to 729 basis states with every gate on a superposition with phases; matrices from 0.5 down to 1e-16 away from unitary, accepted or refused alike; amplitudes down to 1e-270 from rotations by tiny angles, before every gate; five and six qudits with single gates on a superposition; every custom matrix with entries in "
        "{0,1,-1,i,1/2} of size 2 and all 0/1 matrices of size 3, accepted or refused alike; the backend primitives (kron, dot, eye, matrix) on all "
        "0/1/i matrices up to 2x2" % ((4, 2, 25) if q else (6, 3, 81))
    )


MATS = {
    "S2": np.diag([1, 1j]),
    "Y2": np.array([[0, -1j], [1j, 0]]),
    "S3": np.diag([1, 1j, -1]),
    "P3": np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]),
    "W4": np.array([[1, 0, 0, 0], [0, 0.6, -0.8, 0], [0, 0.8, 0.6, 0], [0, 0, 0, 1j]]),
    "W6": np.roll(np.diag([1, 1j, -1, 1, -1j, 1]), 1, axis=0),
    "W9": np.roll(np.diag([1, 1j, -1] * 3), 2, axis=1),
}


def letters(dims):
    ops = common.alphabet(dims, plus="one" if len(dims) > 2 else "few", tof="asc")
    for r, d in enumerate(dims):
        if d in (2, 3):
            ops.append(["gate", f"S{d}", [r]])
    for r in range(len(dims) - 1):
        if f"W{dims[r] * dims[r + 1]}" in MATS:
            ops.append(["gate", f"W{dims[r] * dims[r + 1]}", [r, r + 1]])
    return ops


def units(tier):
    q = tier == "quick"
    u = []
    for d in (2, 3, 4, 5):
        u.append({"k": "walk", "dims": (d,), "depth": 3})
    for s in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2)):
        n = len(letters(s))
        u += [{"k": "walk", "dims": s, "depth": 2 if q else 3, "first": [i, i + 3]} for i in range(0, n, 3)]
    u.append({"k": "prims"})
    u += [{"k": "tiny", "dims": s} for s in ((2,), (3,), (2, 2), (2, 3), (3, 2), (2, 2, 2), (2, 3, 2))]
    for i in range(5):
        u.append({"k": "custom2", "a": i})
    u += [{"k": "custom3", "row": i} for i in range(8)]
    u += [{"k": "graded", "n": n} for n in (2, 3, 4, 5, 8, 9, 12)]
    u += [{"k": "dense", "dims": s, "part": i} for s in ((3,) * 6, (2,) * 9, (5, 4, 5, 6), (25, 24)) for i in range(4)]
    for d in (2, 3, 4, 5):
        u += [{"k": "walk", "dims": (d,), "depth": 4 if q else 6, "first": [i, i + 1]} for i in range(len(letters((d,))))]
    for s in ((2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3)) if q else list(itertools.product((2, 3), repeat=3)):
        n = len(letters(s))
        u += [{"k": "walk", "dims": s, "depth": 2, "first": [i, i + 3]} for i in range(0, n, 3)]
    for s in ((2, 2, 2, 2), (2, 3, 2, 2), (3, 2, 2, 2)):
        n = len(letters(s))
        u += [{"k": "walk", "dims": s, "depth": 1 if q else 2, "first": [i, i + 6]} for i in range(0, n, 6)]
    # long words, larger dimensions and wider registers
    for s in ((3,), (2, 2), (2, 3)):
        u.append({"k": "periodic", "dims": s, "len": 24 if q else 80})
    for s in ((7,), (10,), (16,), (37,), (5, 3), (3, 7), (2, 12), (11, 2)):
        u.append({"k": "walk", "dims": s, "depth": 2 if len(s) == 1 else 1})
    for s in ((2,) * 6, (2, 2, 3, 2, 2)):
        n = len(single(s))
        u += [{"k": "wide", "dims": s, "depth": 1 if q else 2, "first": [i, i + 3]} for i in range(0, n, 3)]
    return u


def single(dims):
    n = len(dims)
    return ([["x", r, dims[r] - 1] for r in range(n)] + [["h", r] for r in range(n)] + [["z", r] for r in range(n)]
            + [["cx", [0, n - 1], 1], ["cx", [n - 1, 0], 1], ["cx", [1, 3], 1], ["tof", [0, 3], 1, 1], ["tof", [1, n - 1], 2, 1]])


def explore(unit, ctx):
    k = unit["k"]
    if k == "walk":
        dims = tuple(unit["dims"])
        alpha = letters(dims)
        first = alpha[slice(*unit["first"])] if "first" in unit else None
        init = [i % d for i, d in enumerate(dims, start=1)]

        def visit(ops, v):
            for b in ALL:
                common.judge(ctx, dims, init, ops, v, backend=b, matrices=MATS, counted=b == "numpy")

        common.walk(ctx, dims, init, alpha, unit["depth"], visit, matrices=MATS, first=first)
    elif k == "wide":
        dims = tuple(unit["dims"])
        alpha = [["h", 1], ["h", 3], ["h", 0]]
        for a in single(dims)[slice(*unit["first"])]:
            for rest in itertools.product(single(dims), repeat=unit["depth"] - 1):
                ops = alpha + [a] + list(rest)
                init = [i % d for i, d in enumerate(dims, start=1)]
                v = ref.run(dims, init, ops)
                ctx.state(ref.vkey(v))
                ctx.transition(len(ops))
                for b in ALL:
                    common.judge(ctx, dims, init, ops, v, backend=b)
    elif k == "periodic":
        dims = tuple(unit["dims"])
        init = [i % d for i, d in enumerate(dims, start=1)]
        alpha = letters(dims)
        for a, b in itertools.product(alpha, repeat=2):
            ops = [a, b] * (unit["len"] // 2) + [["h", 0]]
            v = ref.run(dims, init, ops, MATS)
            ctx.state(ref.vkey(v))
            ctx.transition(len(ops))
            for backend in ALL:
                common.judge(ctx, dims, init, ops, v, backend=backend, matrices=MATS)
    elif k == "graded":
        graded(ctx, unit["n"])
    elif k == "dense":
        dense(ctx, tuple(unit["dims"]), unit["part"])
    elif k == "tiny":
        tiny(ctx, tuple(unit["dims"]))
    elif k == "prims":
        prims(ctx)
    elif k == "custom2":
        values = [0, 1, -1, 1j, 0.5]
        for rest in itertools.product(values, repeat=3):
            custom(ctx, np.array([[values[unit["a"]], rest[0]], [rest[1], rest[2]]]), 2)
    else:
        rows = list(itertools.product((0, 1), repeat=3))
        for b, c in itertools.product(rows, repeat=2):
            custom(ctx, np.array([rows[unit["row"]], b, c]), 3)


def tiny(ctx, dims):
    """Products of tiny amplitudes: no backend may round them away."""
    n = len(dims)
    for k in (3, 5, 7, 8, 12, 16, 40, 90):
        mats = {}
        for d in set(dims):
            m = np.eye(d)
            m[0, 0] = m[d - 1, d - 1] = np.sqrt(1 - 10.0 ** (-2 * k))
            m[d - 1, 0], m[0, d - 1] = 10.0**-k, -(10.0**-k)
            mats[f"R{d}"] = m
        turns = [["gate", f"R{dims[r]}", [r]] for r in range(n)]
        after = [[]] + [[op] for op in common.alphabet(dims, plus="few", tof="asc") if op[0] != "h"]
        for some in range(1, 2**n):
            for extra in after:
                ops = [t for r, t in enumerate(turns) if some >> r & 1] + extra
                want = ref.run(dims, [0] * n, ops, mats)
                ctx.state((k, ref.vkey(want), some))
                for b in ALL:
                    case = {"dims": dims, "sine": f"1e-{k}", "ops": ops, "backend": b}

                    def go():
                        seen = harness.to_vector(harness.run_ops(dims, [0] * n, ops, b, mats), dims)
                        for digits in ref.all_digits(dims):
                            w, got = want[tuple(digits)], seen[tuple(digits)]
                            if abs(got - w) > 1e-9 * abs(w) + 1e-300:
                                return f"the amplitude of {digits} is {got}, expected {w}"
                        return None

                    bad = ctx.guarded(go, case)
                    if bad:
                        ctx.violation(case, bad, script=harness.script(list(dims), [0] * n, ops, b, mats))
                    ctx.trace()
                    ctx.transition(len(ops))


def graded(ctx, n):
    """Matrices further and further from unitary: every backend draws the line at the same place."""
    base = [np.eye(n, dtype=complex), np.roll(np.diag([1j**k for k in range(n)]), 1, axis=0), np.fft.fft(np.eye(n)) / n**0.5]
    ways = {
        "scaled": lambda m, e: m * (1 + e),
        "one entry": lambda m, e: m + e * np.eye(n, k=n - 1),
        "one phase of the diagonal": lambda m, e: m + 1j * e * np.diag([0] * (n - 1) + [1]),
        "everywhere": lambda m, e: m + e,
    }
    for i, m in enumerate(base):
        for way, fn in ways.items():
            for e in [f * 10.0**-k for k in range(1, 17) for f in (1, 2, 3, 5, -1, -4)]:
                bent, seen = fn(m, e), {}
                for b in ALL:
                    try:
                        harness.run_ops((n,), [1], [["gate", "M", [0]]], b, {"M": bent})
                        seen[b] = "accepted"
                    except Exception:
                        seen[b] = "refused"
                    ctx.trace()
                ctx.transition()
                ctx.state((n, i, way, e))
                ctx.outcome(tuple(seen.values()))
                if len(set(seen.values())) > 1:
                    ctx.violation({"matrix": bent.astype(str).tolist(), "how": f"{way}, {e:g}"}, f"the backends disagree: {seen}")


def dense(ctx, dims, part):
    """Hundreds of basis states, with phases, on every backend."""
    n = len(dims)
    init = [i % d for i, d in enumerate(dims, start=1)]
    last = [["x", r, dims[r] - 1] for r in range(n)] + [["z", r] for r in range(n)] + [["h", r] for r in range(n)]
    last += [["cx", [r, r + 1], 1] for r in range(n - 1)] + [["cx", [r + 1, r], dims[r] - 1] for r in range(n - 1)]
    last += [["tof", [0, 2], 1, 1], ["tof", [n - 1, n - 2], n - 3, 1]] if n > 2 else []
    for op in last[part::4]:
        ops = [["h", r] for r in {0, n - 1}] + [["z", 0], ["z", n - 1], op]
        want = ref.run(dims, init, ops)
        ctx.transition(len(ops))
        ctx.state(ref.vkey(want))
        for b in ALL:
            common.judge(ctx, dims, init, ops, want, backend=b)


def custom(ctx, m, d):
    """All backends accept or all refuse, as unitarity says; accepted ones agree."""
    ok = bool(np.allclose(m.conj().T @ m, np.eye(d)))
    mats = {"M": m}
    for dims, r in (((d, 2), 0), ((2, d), 1)):
        ops = [["h", r], ["gate", "M", [r]]]
        want = ref.run(dims, [1, 1], ops, mats) if ok else None
        ctx.transition(2)
        for b in ALL:
            case = {"dims": dims, "matrix": m.tolist(), "register": r, "backend": b}
            if ok:
                common.judge(ctx, dims, [1, 1], ops, want, backend=b, matrices=mats)
                continue
            try:
                report = harness.run_ops(dims, [1, 1], ops, b, mats)
            except Exception as e:
                ctx.trace()
                ctx.outcome(type(e).__name__)
                continue
            ctx.violation(case, f"a non-unitary matrix was accepted: {report}")


def prims(ctx):
    """The backend operations themselves against NumPy on small matrices."""
    small = [np.array(x).reshape(1, 1) for x in (0, 1, 1j)]
    small += [np.array(m).reshape(2, 2) for m in itertools.product((0, 1, 1j), repeat=4)]
    cols = [np.array(m).reshape(2, 1) for m in itertools.product((0, 1, 1j), repeat=2)]

    def dense(x):
        return np.asarray(x.toarray() if hasattr(x, "toarray") else x)

    def same(name, b, got, want, args):
        case = {"operation": name, "backend": b, "args": [np.asarray(a).tolist() for a in args]}
        ctx.transition()
        ctx.trace()
        ctx.outcome((name, np.asarray(want).tolist()))
        ctx.state((name, want.tolist()))
        if dense(got).shape != want.shape or not np.allclose(dense(got), want, atol=1e-12):
            ctx.violation(case, f"{name} gives {dense(got).tolist()}, expected {want.tolist()}")

    for b in ("numpy", "sparse", "cuda", "sparse-cuda"):
        B = harness.BACKENDS[b]
        for n in (1, 2, 3, 4, 5, 8, 10, 16, 31, 64):
            same("eye", b, B.eye(n, n), np.eye(n), [n])
        for a in small + cols:
            same("matrix", b, B.matrix(a), a, [a])
        for a in small[3:]:
            for c in cols:
                same("dot", b, B.dot(B.matrix(a), B.matrix(c)), a @ c, [a, c])
        for a in small[::5] + cols:
            for c in small[::7] + cols:
                same("kron", b, B.kron(B.matrix(a), B.matrix(c)), np.kron(a, c), [a, c])
        for a in small[3::3]:
            for c in small[3::7]:
                same("dot", b, B.dot(B.matrix(a), B.matrix(c)), a @ c, [a, c])
