"""C13: QASM with unsupported or malformed instructions is rejected, never misread."""

import itertools

from mc import harness, qasm, ref

from qudiet.qasm.qasm_parser import circuit_from_qasm  # noqa: E402

ID = "C13"
LEVEL = "model_checking"
ASSUMPTIONS = ("a rejection may be any exception raised by the reader",)

BAD = [
    "CNOTZ x0 x1", "CZ x0 x1", "SWAP x0 x1", "CCX x0 x1 x2", "CCNOT x0 x1 x2", "Y x0", "S x0", "T x0", "SX x0", "XX x0", "HH x0", "ZZ x0 x1",
    "RY x0 180", "RZ x0 180", "RX x0 90", "RX x0 1800", "RX x0 18", "RX x0 -180", "RX x0 181", "RX x0 0", "CRX x0 x1 180", "RXX x0 180",
    "CXX x0 x1", "CX2 x0 x1", "X2 x0", "TOFFOLIZ x0 x1 x2", "Toffoli2 x0 x1 x2", "FREDKIN x0 x1 x2", "MEASURE x0", "BARRIER x0", "I x0", "ID x0", "NOT x0",
    "U x0", "HADAMARD x0", "foo", "?", "42", "x0", "x0 X", "0 1",
    "X", "H", "Z", "RX", "RX 180", "RX x0", "CX", "CX x0", "CNOT", "CNOT x0", "Toffoli", "Toffoli x0", "X x", "H x", "CX x0 x", "CX x x1", "X -1",
    "X x9", "H x9", "Z x9", "RX x9 180", "X x9 2", "X x3", "H x3", "Z x3", "CX x0 x9", "CX x9 x0", "CX x0 x3", "CX x3 x0", "CNOT x0 x3", "CNOT x3 x1",
    "CX x0 x3 2", "Toffoli x0 x1 x3", "Toffoli x0 x3 x1", "Toffoli x3 x0 x1", "Toffoli x0 x1 x9", "Toffoli x0 x9 x1", "Toffoli x3 x1",
    "CX x0 x0", "CNOT x1 x1", "CX x2 x2 2", "Toffoli x0 x0 x1", "Toffoli x0 x1 x0", "Toffoli x0 x1 x1", "Toffoli x1 x1",
    "X x0 y", "X x0 1.5", "CX x0 x1 y", "H x0 x1", "Z x0 x1", "X x0 x1",
]
# something that is no operand, after a complete instruction or between its parts
JUNK = ["-0", "-1", "-2", "-3", "1.5", "-1.5", "1e3", "(2)", "x", "x-1", "-x1", ";", "x1;", "*", "2 3", "-1 -1", "_", "0x1", "2x", "[0]", "\"", "X", "plus", "/ 2", "+ 1", "--1", "x1x2", "q[1]"]
WHOLE = ["X x0", "X x0 2", "X x0 -1", "RX x0 180", "H x0", "Z x0", "CX x0 x1", "CX x0 x1 2", "CNOT x0 x1", "CNOT x0 x1 -2", "Toffoli x0 x1", "Toffoli x0 x1 x2"]
for whole in WHOLE:
    for junk in JUNK:
        if not (junk in ("-0", "-1", "-2", "-3") and whole in ("X x0", "CX x0 x1", "CNOT x0 x1")):
            BAD.append(f"{whole} {junk}")
        parts = whole.split()
        if not (whole.startswith("RX") and junk in ("X",)):
            BAD.append(" ".join([parts[0], junk, *parts[1:]]))
DIMS = (2, 3, 2)
GOOD = [["X", 0], ["H", 1], ["Z", 2], ["CX", 0, 1], ["CNOT", 1, 2, 2], ["RX", 2], ["X", 1, 2], ["Toffoli", 0, 1, 2]]


def BOUNDS(tier):
    q = tier == "quick"
    return (
        f"{len(BAD)} unsupported or malformed lines in upper, lower and given case, at every position of every program of up to {1 if q else 2} "
        f"good instructions out of {len(GOOD)}, with commas, comments or indentation around; {len(list(sections()))} programs with a missing, misspelt, "
        f"repeated or misplaced section and {len(DECLS)} with an invalid declaration; each must raise, and the same program without the bad line must be read"
    )


def units(tier):
    depth = 1 if tier == "quick" else 2
    u = [{"k": "sections"}]
    u += [{"k": "bad", "i": i, "depth": 1} for i in range(len(BAD))]
    if depth > 1:
        u += [{"k": "bad", "i": i, "depth": 2} for i in range(len(BAD))]
    return u


def good(dims, program, extra=()):
    return qasm.text(dims, program, extra)


def sections():
    full = "\n.qudit 2\nqudit x0 (2)\nqudit x1 (2)\n.begin\nX x0\n.end\n"
    yield "no begin", full.replace(".begin\n", "")
    yield "no end", full.replace(".end\n", "")
    yield "no begin and no end", full.replace(".begin\n", "").replace(".end\n", "")
    yield "no header", full.replace(".qudit 2\n", "")
    yield "empty", ""
    yield "only a header", "\n.qudit 2\n"
    yield "only sections", "\n.begin\n.end\n"
    yield "misspelt begin", full.replace(".begin", ".begn")
    yield "misspelt end", full.replace(".end", ".edn")
    yield "begin without a dot", full.replace(".begin", "begin")
    yield "end without a dot", full.replace(".end", "end")
    yield "commented begin", full.replace(".begin", "# .begin")
    yield "commented end", full.replace(".end", "# .end")
    # a marker in the wrong place, or given twice, must not hide lines
    spots = {"in front of everything": ("\n.qudit", "\n%s\n.qudit"), "after the header": (".qudit 2\n", ".qudit 2\n%s\n"), "between the declarations": ("qudit x1", "%s\nqudit x1"),
             "before the begin": (".begin\n", "%s\n.begin\n"), "after the begin": (".begin\n", ".begin\n%s\n"), "after an instruction": ("X x0\n", "X x0\n%s\nX x1\n")}
    for name, (old, new) in spots.items():
        for marker in (".begin", ".qudit 1", ".qubit 2", ".qutrit 2", ".qudit 2", ".end"):
            if name == "in front of everything" and marker == ".end" or name in ("after the begin", "after an instruction") and marker == ".end":
                continue
            yield f"{marker} {name}", full.replace(old, new % marker, 1)
            yield f"{marker} with a comment {name}", full.replace(old, new % (marker + " # X x0"), 1)
    for tail in ("X x1", "foo", "X", "x1", "3", ".end", ".begin", "(2)", "q x1", "begin"):
        for gap in (" ", "  ", "\t", ""):
            if not (gap == "" and tail == "X x1"):  # read as the instruction it is
                yield f"'{tail}' on the line of the begin, after {gap!r}", full.replace(".begin", ".begin" + gap + tail)
            if not (gap == "" and tail == "3"):
                yield f"'{tail}' on the line of the header, after {gap!r}", full.replace(".qudit 2", ".qudit 2" + gap + tail)
    for bad in ("X x0", "X x1 2", "H x0", "CX x0 x1", "Z x1", "RX x0 180", "Toffoli x0 x1"):
        for name in ("after the header", "between the declarations", "before the begin"):
            old, new = spots[name]
            yield f"{bad} {name}", full.replace(old, new % bad, 1)
    for decl in ("qudit x2 (2)", "qubit x2", "qutrit x2", "qudit x0 (2)"):
        for name in ("after the begin", "after an instruction"):
            old, new = spots[name]
            yield f"{decl} {name}", full.replace(old, new % decl, 1)
    yield "no declarations", "\n.qudit 2\n.begin\nX x0\n.end\n"


DECLS = [
    "qudit x0 (2)\nqudit x0 (3)", "qudit x0 (2)\nqudit x2 (2)", "qudit x1 (2)", "qudit x0", "qudit x0 ()", "qudit (2)", "qubit", "qutrit", "qudit x0 2",
    "qudit x0 (1)\nqudit x1 (2)", "qudit x0 (0)", "qudit x0 (-2)", "qudit x0 (2.5)", "qpit x0 (2)", "qudit x0 (2) (3)", "qubit x0\nnonsense", "qubit x0\nqubit x0",
    "qudit x0 (two)", "ququart x0",
]


def explore(unit, ctx):
    if unit["k"] == "sections":
        for name, text in sections():
            reject(ctx, name, text)
        for d in DECLS:
            n = d.count("\n") + 1
            for body in ("", "X x0\n"):
                reject(ctx, "declaration " + d, f"\n.qudit {n}\n{d}\n\n.begin\n{body}.end\n")
        accept(ctx, "\n.qudit 2\nqudit x0 (2)\nqudit x1 (2)\n.begin\nX x0\n.end\n", (2, 2), [["X", 0]])
        return
    bad = BAD[unit["i"]]
    d = unit["depth"]
    programs = itertools.chain.from_iterable(itertools.product(GOOD, repeat=k) for k in ((0, 1) if d == 1 else (2,)))
    for program in programs:
        program = list(program)
        accept(ctx, good(DIMS, program), DIMS, program)
        for at in range(len(program) + 1):
            for raw in dict.fromkeys((bad, bad.lower(), bad.upper(), "  " + bad, bad.replace(" x", ", x").replace(",", "", 1), bad + " # X x0", bad + "  ")):
                if raw.strip() == "?" and raw != bad:
                    continue
                reject(ctx, raw, good(DIMS, program, [(at, raw)]))
        if d == 1:
            # twice, and after everything else
            reject(ctx, bad, good(DIMS, program, [(0, bad), (len(program), bad)]))
    if d == 1:
        # also as the last of many lines, and on a register where qudit 3 does not exist either
        reject(ctx, bad, good(DIMS, GOOD, [(len(GOOD), bad)]))
        reject(ctx, bad, good(DIMS, GOOD, [(4, bad)]))
        for b in (harness.NumpyBackend, harness.SparseBackend):
            reject(ctx, bad, good(DIMS, GOOD[:2], [(1, bad)]), b)


def reject(ctx, what, text, backend=None):
    ctx.transition()
    case = {"bad line": what, "text": text}
    try:
        qc = circuit_from_qasm(text) if backend is None else circuit_from_qasm(text, backend)
    except Exception as e:
        ctx.trace()
        ctx.state(text)
        ctx.outcome((what, type(e).__name__))
        ctx.sample(case)
        return

    def seen():
        try:
            return f"layers {harness.contents(qc, tuple(qc.qregs))}"
        except Exception as e:
            return f"unreadable circuit ({e})"

    from mc.props.c11 import script_of

    ctx.violation(case, f"the program was accepted as {seen()}", script=script_of(text))


def accept(ctx, text, dims, program):
    v = qasm.meaning(dims, program)
    case = {"text": text}
    bad = ctx.guarded(lambda: harness.compare(circuit_from_qasm(text).run(), v), case)
    if bad:
        ctx.violation(case, "the program without the bad line is misread: " + bad)
    ctx.trace()
    ctx.outcome(ref.vkey(v))
