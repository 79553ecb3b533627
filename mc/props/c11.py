"""C11: a QASM program means the circuit it spells out."""

import glob
import itertools
import os
import shutil
import tempfile

from mc import common, harness, qasm, ref

from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm  # noqa: E402

ID = "C11"
LEVEL = "model_checking"
ASSUMPTIONS = ("amplitudes are compared with tolerance 1e-9",)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every program over {X, X p, RX 180, H, Z, CX, CX p, CNOT, CNOT p, Toffoli with 1..n-1 controls}: one qudit of dimension 2..5 up to %d instructions, "
        "two qudits over dimensions 2,3,4 up to %d, three qudits over {2,3} (and two shapes with 4) up to %d, four qudits up to %d; read as text with the "
        "default, dense and sparse backend and from a file; periodic programs of 24 instructions; 11- and 12-qudit programs with two-digit indices; dimensions and increments of two to four digits; "
        "every testbench program's layers against an independent reading"
        % ((3, 2, 2, 1) if q else (4, 3, 2, 2))
    )


def letters(dims, lean=False):
    n = len(dims)
    out = []
    if max(dims) >= 10:
        for r, d in enumerate(dims):
            out += [["X", r], ["H", r], ["Z", r], ["RX", r]] + [["X", r, p] for p in (2, 9, 10, 11, d - 1, d, d + 12, -1, -10, -11, 100, 1001)]
        for c, t in itertools.permutations(range(n), 2):
            out += [[g, c, t, p] for g in ("CX", "CNOT") for p in (2, 10, 12, dims[t] - 1, -1, -10, 101)] + [["CX", c, t], ["CNOT", c, t]]
        return out
    for r, d in enumerate(dims):
        out += [["X", r], ["H", r], ["Z", r]]
        if not lean:
            out += [["RX", r], ["X", r, d - 1], ["X", r, -1], ["X", r, d + 2]]
    for c, t in itertools.permutations(range(n), 2):
        out += [["CX", c, t], ["CNOT", c, t]]
        if not lean:
            out += [["CX", c, t, 2], ["CX", c, t, -1], ["CNOT", c, t, dims[t] - 1]]
    for k in range(1 if n == 2 else 2, n):
        for regs in itertools.permutations(range(n), k + 1):
            if k > 2 and regs[0] != 0:
                continue
            out.append(["Toffoli", *regs])
    return out


def units(tier):
    q = tier == "quick"
    u = [{"k": "walk", "dims": (d,), "depth": 2} for d in (2, 3, 4, 5)]
    for s in itertools.product((2, 3, 4), repeat=2):
        u.append({"k": "walk", "dims": s, "depth": 1})
    u += [{"k": "many", "i": i} for i in range(len(MANY))]
    u += [{"k": "bench", "part": i} for i in range(8)]
    for d in (2, 3, 4, 5):
        n = len(letters((d,)))
        u += [{"k": "walk", "dims": (d,), "depth": 3 if q else 4, "first": [i, i + 1]} for i in range(n)]
    for s in itertools.product((2, 3, 4), repeat=2):
        n = len(letters(s))
        u += [{"k": "walk", "dims": s, "depth": 2 if q else 3, "first": [i, i + 4], "lean": not q} for i in range(0, n, 4)]
    shapes = list(itertools.product((2, 3), repeat=3)) + [(2, 4, 2), (2, 2, 4)]
    for s in shapes:
        u += [{"k": "walk", "dims": s, "depth": 1}]
        n = len(letters(s, lean=True))
        u += [{"k": "walk", "dims": s, "depth": 2, "first": [i, i + 4], "lean": True} for i in range(0, n, 4)]
    for s in ((2, 2, 2, 2), (2, 3, 2, 2)):
        n = len(letters(s, lean=True))
        u += [{"k": "walk", "dims": s, "depth": 1 if q else 2, "first": [i, i + 8], "lean": True} for i in range(0, n, 8)]
    u += [{"k": "walk", "dims": (d,), "depth": 2} for d in (10, 11, 12, 37, 100)]
    u += [{"k": "walk", "dims": s, "depth": 2, "first": [i, i + 1]} for s in ((10, 2), (2, 12), (13, 3)) for i in range(4 if q else 12)]
    u += [{"k": "walk", "dims": s, "depth": 1} for s in ((10, 2), (2, 12), (13, 3), (2, 100), (11, 10))]
    u += [{"k": "periodic", "dims": s, "len": 24 if q else 40} for s in ((2,), (3,), (2, 2), (2, 3))]
    return u


def explore(unit, ctx):
    k = unit["k"]
    if k == "many":
        return many(unit["i"], ctx)
    if k == "bench":
        return bench(unit["part"], ctx)
    dims = tuple(unit["dims"])
    scratch = tempfile.mkdtemp(prefix="mc-c11-")
    try:
        if k == "periodic":
            alpha = letters(dims, lean=True)
            for a, b in itertools.product(alpha, repeat=2):
                program = [a, b] * (unit["len"] // 2)
                one(ctx, dims, program, scratch, ("default",))
            return
        alpha = letters(dims, unit.get("lean", False))
        first = alpha[slice(*unit["first"])] if "first" in unit else alpha

        def rec(program):
            one(ctx, dims, program, scratch)
            if len(program) < unit["depth"]:
                for a in alpha if program else first:
                    ctx.transition()
                    rec(program + [a])

        rec([])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


WAYS = ("default", "numpy", "sparse", "file")


def read(text, way, scratch):
    if way == "file" or way == "file numpy":
        path = os.path.join(scratch, "program.qasm")
        with open(path, "w") as f:
            f.write(text)
        qc = parse_qasm(path) if way == "file" else parse_qasm(path, backend=harness.NumpyBackend)
        if open(path).read() != text:
            raise harness.Bad("reading the program changed its file")
        return qc
    b = harness.BACKENDS[way]
    return circuit_from_qasm(text) if b is None else circuit_from_qasm(text, b)


def one(ctx, dims, program, scratch, ways=None):
    text = qasm.text(dims, program)
    w = qasm.widened(dims, program)
    v = qasm.meaning(dims, program)
    if ways is None:
        # every program on the default backend; the other ways alternate
        ways = ("default", WAYS[1 + len(program) % 3]) if len(program) > 1 else WAYS + ("file numpy",)
    for way in ways:
        case = {"text": text, "read": way}

        def go():
            qc = read(text, way, scratch)
            if way in ("numpy", "sparse") and qc.backend is not harness.BACKENDS[way]:
                return f"the circuit does not use the {way} backend"
            return harness.compare(qc.run(), v) or shape(qc, w, program)

        bad = ctx.guarded(go, case, script_of(text))
        if bad:
            ctx.violation(case, bad, script=script_of(text))
        ctx.trace()
    ctx.state((dims, str(program)))
    ctx.outcome(ref.vkey(v))
    ctx.sample({"text": text})


def shape(qc, w, program):
    config = qc.get_circuit_config()
    depth = len(ref.layers(len(w), qasm.calls(program)))
    if config != {"width": len(w), "depth": depth}:
        return f"statistics {config}, expected width {len(w)} and depth {depth}"
    if list(qc.qregs) != list(w):
        return f"registers {qc.qregs}, expected {list(w)}"
    return None


def script_of(text):
    return (
        "# Replays one explored program on the real code; run with /opt/venv/bin/python.\n"
        "from qudiet.qasm.qasm_parser import circuit_from_qasm\n"
        f"text = {text!r}\nprint(text)\nprint(circuit_from_qasm(text).run())\n"
    )


MANY = [
    (11, [["X", 10], ["CX", 10, 9]]),
    (11, [["X", 10], ["CNOT", 10, 9], ["X", 1]]),
    (11, [["X", 0], ["X", 1], ["CX", 1, 0]]),
    (11, [["RX", 10], ["X", 10, 1], ["X", 9]]),
    (12, [["X", 11], ["CX", 11, 10], ["X", 1, 1]]),
    (11, [["X", 9], ["X", 10], ["Toffoli", 9, 10, 8]]),
    (11, [["X", 10], ["X", 9], ["X", 9], ["X", 9], ["Toffoli", 10, 9, 8]]),
    ([2] * 10 + [3], [["X", 10, 2], ["CX", 10, 9], ["X", 1]]),
    ([3] + [2] * 10, [["X", 0, 2], ["X", 10], ["CNOT", 0, 1], ["CX", 10, 8]]),
    ([2, 3] + [2] * 9 + [4], [["X", 1, 2], ["X", 11, 3], ["CX", 11, 10], ["CX", 1, 0]]),
    ([2, 4] + [2] * 8 + [3, 2], [["X", 10, 2], ["X", 1, 3], ["Z", 1], ["CX", 10, 11]]),
    (12, [["X", 1], ["X", 11], ["Toffoli", 11, 10, 9], ["X", 10], ["Toffoli", 10, 11, 9]]),
] + [
    # every number of controls, the widened one at its top level and below it
    (n, [["X", i, 1] for i in range(n - 2)] + [["X", n - 2, p], ["Toffoli", *order, n - 1]])
    for n in (5, 6, 7, 8, 9)
    for p in (1, 2)
    for order in (list(range(n - 1)),)
] + [
    # increments where machine integers end, and beyond
    ([3, 5, 2], [["X", 0, p], ["H", 2], ["CX", 2, 1, p], ["X", 0, 2], ["CX", 0, 1, p], ["H", 2]])
    for p in (2**31, -(2**31) - 1, 2**32 + 1, 2**53 + 1, 2**63 - 1, 2**63, -(2**63) - 1, 2**64 + 1, 10**30 + 1)
] + [
    # one control at a time left at zero
    (n, [["X", i, 1 + (i == n - 2)] for i in range(n - 1) if i != off] + [["Toffoli", *range(n)]])
    for n in (5, 6, 7, 8, 9)
    for off in range(n - 1)
] + [
    (7, [["X", i] for i in (0, 2, 3, 5, 6)] + [["X", 1, 2], ["Toffoli", 6, 5, 3, 2, 0, 1, 4], ["Toffoli", 0, 2, 6, 1, 5]]),
]


def many(i, ctx):
    """Two-digit qudit indices."""
    dims, program = MANY[i]
    dims = (2,) * dims if isinstance(dims, int) else tuple(dims)
    one(ctx, dims, program, None, ("default",))
    ctx.transition(len(program))


def bench(part, ctx):
    root = os.path.join(harness.REPO, "testbench")
    files = sorted(glob.glob(root + "/**/*.txt", recursive=True) + glob.glob(root + "/**/*.qasm", recursive=True))
    for path in files[part::8]:
        with open(path) as f:
            data = f.read()
        plain = qasm.read_plain(data)
        if plain is None or len(plain[1]) > 2000:
            continue
        dims, program = plain
        # the drawn structure needs no matrices, so big programs are affordable except wide Toffolis
        w = qasm.widened(dims, program)
        cost = [span_size(w, ins) for ins in program if ins[0] == "Toffoli"]
        if cost and (max(cost) > 512 or sum(cost) > 20000):
            ctx.count("testbench_programs_too_wide")
            continue
        case = {"file": os.path.relpath(path, harness.REPO)}

        def go():
            qc = parse_qasm(path)
            got = harness.contents(qc, w)
            want = ref.layers(len(w), qasm.calls(program))
            have = [sorted(l, key=lambda op: min(ref.registers(op))) for l in got[1:-1]]
            want = [sorted(l, key=lambda op: min(ref.registers(op))) for l in want]
            if got[0] != [["init", r, d, 0] for r, d in enumerate(w)]:
                return f"the declared qudits read as {got[0]}, expected dimensions {w}"
            if have != want:
                at = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b), min(len(have), len(want)))
                return f"layer {at} reads as {have[at:at + 1]}, expected {want[at:at + 1]}"
            return None

        bad = ctx.guarded(go, case)
        if bad:
            ctx.violation(case, bad)
        ctx.count("testbench_programs_read")
        ctx.trace()
        ctx.transition(len(program))
        ctx.outcome(path)


def span_size(w, ins):
    lo, hi = min(ins[1:]), max(ins[1:])
    size = 1
    for d in w[lo : hi + 1]:
        size *= d
    return size
