"""C24: the n-line multi-controlled NOT decomposition computes the multi-controlled NOT."""

import importlib
import itertools
import os
import sys

from mc import harness

ID = "C24"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "for more lines than are simulated, the emitted gates are interpreted by the reference meaning of CX (add the increment when the control is at its top level), which "
    "the simulated sizes and C03 bind to the simulator; from 15 lines (thorough: 19) on only the inputs within the stated distance of all ones or all zeros are enumerated",
)

sys.path.insert(0, os.path.join(harness.REPO, "test_circuit"))
generator = importlib.import_module("circuit")
runner = importlib.import_module("useQudiet")
stated = importlib.import_module("main")
for module in (generator, runner, stated):
    assert os.path.realpath(module.__file__).startswith(os.path.realpath(harness.REPO)), module.__file__


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "simulated: all 2^n inputs for n = 3..%d lines%s; interpreted: all 2^n inputs for n up to %d, all inputs with at most %d lines differing from all ones or from "
        "all zeros for n up to %d; counts for every n up to %d" % ((10, "", 14, 2, 40, 300) if q else (11, " and 72 inputs for 12", 18, 3, 70, 2000))
    )


def units(tier):
    q = tier == "quick"
    u = [{"k": "counts", "from": a, "to": min(a + 50, (300 if q else 2000) + 1)} for a in range(3, (300 if q else 2000) + 1, 50)]
    for n in range(3, 11 if q else 12):
        per = 32 if n < 9 else 16
        u += [{"k": "run", "n": n, "range": [a, min(a + per, 2 ** n)]} for a in range(0, 2 ** n, per)]
    if not q:
        u += [{"k": "run", "n": 12, "range": [a, a + 4]} for a in list(range(0, 32, 4)) + list(range(2 ** 12 - 40, 2 ** 12, 4))]
    for n in range(3, (14 if q else 18) + 1):
        u += [{"k": "interpret", "n": n, "inputs": "all", "range": [a, min(a + 4096, 2 ** n)]} for a in range(0, 2 ** n, 4096)]
    u += [{"k": "interpret", "n": n, "inputs": "near", "range": [0, 2 if q else 3]} for n in range(15 if q else 19, (40 if q else 70) + 1)]
    return u


def expected(bits):
    return bits[:-1] + (bits[-1] ^ int(all(bits[:-1])),)


def make(n):
    c = generator.Circuit(n)
    c.simulate()
    m = c.actual_mapping
    if sorted(m.get(i) for i in range(1, n + 1)) != list(range(n)):
        raise harness.Bad(f"the lines are numbered {m}")
    if m[n] != n - 1:
        raise harness.Bad(f"the target is not the last line: {m}")
    dims = [2] * n
    for node in c.qutrits:
        dims[m[node]] = 3
    for node in c.ququads:
        dims[m[node]] = 4
    gates = []
    for level in c.final_levels:
        for pair in level:
            for g in pair:
                if g is not None:
                    control, target, plus = runner.make_CNOT_gate(g, m)
                    if control == target or not (0 <= control < n and 0 <= target < n) or plus not in (1, -1):
                        raise harness.Bad(f"not a two-line increment: control {control}, target {target}, increment {plus}")
                    gates.append((control, target, plus, g.tq))
    return c, dims, gates


def meaning(dims, gates, bits):
    digits = list(bits)
    for control, target, plus, _ in gates:
        if digits[control] == dims[control] - 1:
            digits[target] = (digits[target] + plus) % dims[target]
    return tuple(digits)


def closed_form(n):
    """The published counts."""
    c = n - 1
    tern = 4 * (c // 4) + 5 - (2 if c % 2 == 0 else 0)
    quat = 4 * (c // 2) - 4 * (c // 4) - 4
    return tern, quat


def counts(n):
    c, dims, gates = make(n)
    if (c.tern, c.quat) != closed_form(n):
        return f"the generator states {c.tern} ternary and {c.quat} quaternary gates, the closed form {closed_form(n)}", None
    if len(gates) != c.tern + c.quat:
        return f"{len(gates)} gates are emitted, {c.tern} + {c.quat} are stated", None
    # computed lines: raised exactly as often as lowered again
    for r in range(n - 1):
        if sum(p for _, t, p, _ in gates if t == r) != 0:
            return f"line {r} is not raised as often as lowered", None
    for r in range(n):
        if dims[r] not in (2, 3, 4):
            return f"line {r} has dimension {dims[r]}", None
    labels = [sum(1 for g in gates if g[3] == kind) for kind in ("Ternary", "Quaternary")]
    if labels != [c.tern, c.quat]:
        return f"n={n}: {labels} gates are labelled ternary and quaternary, {[c.tern, c.quat]} are stated", labels
    return None, labels


def expectation(n):
    """The companion script's expectation against the circuit that is made."""
    c, dims, _ = make(n)
    told = tuple(stated.mathematical_expectation(n))
    have = (c.tern, c.quat, dims.count(2), dims.count(3), dims.count(4))
    if told == have:
        return None, None
    # the recorded way of being wrong: one qutrit too many for an odd number of lines
    known = n % 2 == 1 and told == have[:3] + (have[3] + 1,) + have[4:]
    return f"n={n}: the expectation is {told} (ternary and quaternary gates; qubits, qutrits, ququads), the circuit has {have}", "qutrit-expectation" if known else None


def known_label_gap(n, labels):
    """The one recorded way in which the labels are wrong: exactly the two gates of the last
    grandparent and their mirror images count as quaternary instead of ternary."""
    t, q = closed_form(n)
    return labels == [t - 4, q + 4] and n >= 5 and n % 4 in (1, 2)


def explore(unit, ctx):
    if unit["k"] == "counts":
        for n in range(unit["from"], unit["to"]):
            case = {"lines": n}

            def go():
                return counts(n)

            bad, labels = ctx.guarded(go, case)
            if bad:
                ctx.violation(case, bad, key="gate-kind-label" if labels and known_label_gap(n, labels) else None)
            bad, key = ctx.guarded(lambda: expectation(n), case)
            if bad:
                ctx.violation(case, bad, key=key)
            ctx.state(("counts", n))
            ctx.transition()
            ctx.trace()
            ctx.outcome((n, str(labels)))
            ctx.sample(case)
        return
    n = unit["n"]
    made = ctx.guarded(lambda: make(n), {"lines": n})
    _, dims, gates = made
    if unit["k"] == "run":
        for x in range(*unit["range"]):
            bits = tuple((x >> (n - 1 - i)) & 1 for i in range(n))
            case = {"lines": n, "input": bits}

            def go():
                given = list(bits)
                label = runner.RUN_CIRC(n, given)
                want = "|" + "".join(map(str, expected(bits))) + ">"
                if label != want:
                    return f"the circuit ends in {label}, expected {want}"
                if given != list(bits):
                    return "the caller's input was modified"
                if meaning(dims, gates, bits) != expected(bits):
                    return f"the emitted gates give {meaning(dims, gates, bits)}, the circuit gives {label}"
                if all(bits) and runner.RUN_CIRC(n) != want:
                    return "the default input is not all ones"
                return None

            bad = ctx.guarded(go, case)
            if bad:
                ctx.violation(case, bad)
            ctx.trace()
            ctx.transition(len(gates))
            ctx.state((n, bits))
            ctx.outcome((n, bits))
            ctx.sample(case)
        return
    if unit["inputs"] == "all":
        inputs = (tuple((x >> (n - 1 - i)) & 1 for i in range(n)) for x in range(*unit["range"]))
    else:
        inputs = (
            tuple((base ^ 1) if i in odd else base for i in range(n))
            for base in (1, 0) for k in range(unit["range"][1] + 1) for odd in map(set, itertools.combinations(range(n), k))
        )
    for bits in inputs:
        got = meaning(dims, gates, bits)
        if got != expected(bits):
            ctx.violation({"lines": n, "input": bits}, f"the emitted gates give {got}, expected {expected(bits)}")
        ctx.state((n, bits))
        ctx.transition(len(gates))
    ctx.trace()
    ctx.outcome((n, str(unit)))
