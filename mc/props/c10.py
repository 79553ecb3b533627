"""C10: invalid requests are rejected and leave the circuit unchanged."""

import itertools

import numpy as np

from mc import common, harness, ref

ID = "C10"
LEVEL = "model_checking"
ASSUMPTIONS = ("a rejection may be any exception raised by the call itself",)


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every declaration of up to %d qudits with one dimension in {1,0,-1} or one initial level in {-2,-1,d,d+1} at any position (list and tuple form), "
        "non-list registers; every gate call with a register in {-n-1..-1, n, n+1, 10, 100, -100} in any role, repeated registers, or a dimension d+1..d+2, "
        "(also calls with up to six operands on five and eleven qudits) on registers (2), (2,3), (2,3,2)%s, after every prefix of up to %s accepted calls and before every accepted next call; every gate, and pairs of gates, of a dimension smaller than the register's between every two accepted calls"
        % ((4, "", "1, and some of four and ten,") if q else (5, ", (3,2,2,2)", "2, and some of four and ten,"))
    )


def units(tier):
    q = tier == "quick"
    u = [{"k": "declare", "n": n} for n in range(1, 5 if q else 6)]
    for s in ((2,), (2, 3), (2, 3, 2)) + (() if q else ((3, 2, 2, 2),)):
        inv = list(invalid(s))
        pre = prefixes(s, 1 if q or len(s) > 3 else 2)
        per = 4 if q else max(1, len(pre) // 24)
        for i in range(0, len(pre), per):
            u.append({"k": "calls", "dims": s, "pre": [i, i + per], "depth": 1 if q or len(s) > 3 else 2})
    u += [{"k": "calls", "dims": s, "pre": i, "depth": "long"} for s in ((2,), (2, 3), (2, 3, 2)) for i in range(len(valid(s)))]
    u += [{"k": "smaller", "dims": s} for s in ((3,), (4,), (6,), (2, 3), (4, 2), (4, 3), (3, 4), (4, 4), (2, 4, 2), (3, 2, 4))]
    for s in ((2, 3, 2, 2, 3), (2,) * 11):
        m = len(list(wide_invalid(s)))
        u += [{"k": "wide", "dims": s, "part": [i, i + 60]} for i in range(0, m, 60)]
    return u


def wide_invalid(dims):
    """Many operands, and registers with two-digit indices."""
    n = len(dims)
    G = harness.custom_gate(np.eye(dims[0]))
    for k in (3, 4, 5):
        for bad in (-1, -n, n, n + 1, 100):
            for pos in range(k + 1 if k < n else n):
                ops = list(range(n))[-(k + 1):]
                if len(ops) < k + 1:
                    continue
                ops[pos] = bad
                yield f"toffoli(({ops[:-1]}, {ops[-1]}))", lambda qc, o=ops: qc.toffoli((o[:-1], o[-1]))
                yield f"gate(G, {ops})", lambda qc, o=ops: qc.gate(G, o)
        for i, j in itertools.combinations(range(k + 1), 2):
            ops = list(range(n))[-(k + 1):]
            if len(ops) < k + 1:
                continue
            for a, b in ((i, j), (j, i)):
                o = list(ops)
                o[a] = o[b]
                yield f"toffoli(({o[:-1]}, {o[-1]}))", lambda qc, o=o: qc.toffoli((o[:-1], o[-1]))
                yield f"gate(G, {o})", lambda qc, o=o: qc.gate(G, o)
    for bad in (-n - 1, -n, -1, n, n + 1, 100, 10**9, -10**9):
        for name, f in (("x", lambda qc, b: qc.x(b)), ("z", lambda qc, b: qc.z(b)), ("h", lambda qc, b: qc.h(b)), ("gate", lambda qc, b: qc.gate(G, b))):
            yield f"{name}({bad})", lambda qc, b=bad, f=f: f(qc, b)
        for r in (0, n // 2, n - 1):
            yield f"cx(({bad}, {r}), 1)", lambda qc, b=bad, r=r: qc.cx((b, r), 1)
            yield f"cx(({r}, {bad}), 1)", lambda qc, b=bad, r=r: qc.cx((r, b), 1)
    for r in range(n):
        yield f"cx(({r}, {r}), 1)", lambda qc, r=r: qc.cx((r, r), 1)
        yield f"toffoli(([{r}], {r}))", lambda qc, r=r: qc.toffoli(([r], r))
        for d in (dims[r] + 1, dims[r] + 8, 10 * dims[r]):
            for name, f in (("x", lambda qc, r, d: qc.x(r, d)), ("z", lambda qc, r, d: qc.z(r, d)), ("h", lambda qc, r, d: qc.h(r, d)),
                            ("gate", lambda qc, r, d: qc.gate(G, r, d))):
                yield f"{name}({r}, {d})", lambda qc, r=r, d=d, f=f: f(qc, r, d)


def wide(dims, part, ctx):
    n = len(dims)
    pre = [["x", n - 1, 1], ["cx", [n - 2, n - 1], 1], ["tof", [n - 3, n - 2], n - 1, 1], ["h", 0]]
    init = [1] * n
    for name, call in list(wide_invalid(dims))[slice(*part)]:
        case = {"dims": dims, "before": pre, "invalid": name}

        def go():
            qc = harness.build(list(dims), init)
            for op in pre:
                harness.apply(qc, op)
            before = snapshot(qc, dims)
            kind, got = rejected(lambda: call(qc))
            if kind is None:
                return f"{name} was not rejected (it returned {got!r})"
            if snapshot(qc, dims) != before:
                return f"the rejected {name} changed the circuit"
            if harness.apply(qc, ["x", 1, 1]) is not True:
                return f"a gate was refused after the rejected {name}"
            ctx.outcome((dims, name, kind))
            return None

        bad = ctx.guarded(go, case)
        if bad:
            ctx.violation(case, bad)
        ctx.transition()
        ctx.trace()
        ctx.state((dims, name))
        ctx.sample(case)


def smaller(dims, ctx):
    """A gate of a dimension smaller than its register's never takes part in a run."""
    n = len(dims)
    calls = []
    for r in range(n):
        for d in range(2, dims[r]):
            G = harness.custom_gate(np.roll(np.eye(d), 1, axis=0))
            calls += [
                (f"x({r}, {d})", lambda qc, r=r, d=d: qc.x(r, d)),
                (f"x({r}, dims={d}, plus={d - 1})", lambda qc, r=r, d=d: qc.x(r, dims=d, plus=d - 1)),
                (f"z({r}, {d})", lambda qc, r=r, d=d: qc.z(r, d)),
                (f"h({r}, {d})", lambda qc, r=r, d=d: qc.h(r, d)),
                (f"gate(G, {r}, {d})", lambda qc, r=r, d=d, G=G: qc.gate(G, r, d)),
            ]
    alpha = [[]] + [[op] for op in valid(dims) if op[0] != "gate"]
    for (name, call), (pre, post) in itertools.product(calls + [(f"{a[0]}; {b[0]}", (a[1], b[1])) for a in calls[::3] for b in calls[::4]], itertools.product(alpha, repeat=2)):
        for backend in ("default", "numpy"):
            case = {"dims": dims, "before": pre, "invalid": name, "after": post, "backend": backend}

            def go():
                qc = harness.build(list(dims), [1] * n, backend)
                for op in pre:
                    harness.apply(qc, op)
                before = snapshot(qc, dims)
                for one in call if isinstance(call, tuple) else (call,):
                    kind, _ = rejected(lambda: one(qc))
                    if kind is not None:
                        return None if snapshot(qc, dims) == before or isinstance(call, tuple) else f"the rejected {name} changed the circuit"
                for op in post:
                    harness.apply(qc, op)
                qc.measure_all()
                kind, got = rejected(qc.run)
                return None if kind is not None else f"the run with {name} reports {got!r}"

            bad = ctx.guarded(go, case)
            if bad:
                ctx.violation(case, bad)
            ctx.transition()
            ctx.trace()
            ctx.state((dims, name, str(pre), str(post), backend))


def prefixes(dims, depth):
    alpha = valid(dims)
    out = [[]]
    for k in range(1, depth + 1):
        out += [list(p) for p in itertools.product(alpha, repeat=k)]
    return out


def valid(dims):
    n = len(dims)
    ops = [["x", r, 1] for r in range(n)] + [["h", n - 1], ["z", 0]]
    if n > 1:
        ops += [["cx", [0, n - 1], 1], ["cx", [n - 1, 0], 1], ["gate", "I2", [0]], ["tof", list(range(n - 1)), n - 1, 1]]
    if n > 1 and dims[0] * dims[1] == 6:
        ops += [["gate", "I6", [0, 1]]]
    return ops


MATS = {"I2": np.array([[0, 1], [1, 0]]), "I3": np.roll(np.eye(3), 1, axis=0), "I6": np.roll(np.eye(6), 1, axis=0)}


def outside(n):
    return list(range(-n - 1, 0)) + [n, n + 1, 10, 100, -100]


def invalid(dims):
    """(what it looks like, the call) - simplest first."""
    n = len(dims)
    G = harness.custom_gate(np.eye(dims[0]))
    for bad in outside(n):
        yield f"x({bad})", lambda qc, b=bad: qc.x(b)
        yield f"x({bad}, plus=2)", lambda qc, b=bad: qc.x(b, plus=2)
        yield f"z({bad})", lambda qc, b=bad: qc.z(b)
        yield f"h({bad})", lambda qc, b=bad: qc.h(b)
        yield f"x({bad}, 2)", lambda qc, b=bad: qc.x(b, 2)
        yield f"h({bad}, 2)", lambda qc, b=bad: qc.h(b, 2)
        yield f"z({bad}, 2)", lambda qc, b=bad: qc.z(b, 2)
        yield f"gate(G, {bad})", lambda qc, b=bad: qc.gate(G, b)
        yield f"gate(G, [{bad}])", lambda qc, b=bad: qc.gate(G, [b])
        for r in range(n):
            yield f"cx(({bad}, {r}), 1)", lambda qc, b=bad, r=r: qc.cx((b, r), 1)
            yield f"cx(({r}, {bad}), 1)", lambda qc, b=bad, r=r: qc.cx((r, b), 1)
            yield f"gate(G, [{r}, {bad}])", lambda qc, b=bad, r=r: qc.gate(G, [r, b])
            yield f"gate(G, [{bad}, {r}])", lambda qc, b=bad, r=r: qc.gate(G, [b, r])
            yield f"toffoli(([{bad}], {r}))", lambda qc, b=bad, r=r: qc.toffoli(([b], r))
            yield f"toffoli(([{r}], {bad}))", lambda qc, b=bad, r=r: qc.toffoli(([r], b))
            for s in range(n):
                if s == r:
                    continue
                yield f"toffoli(([{r}, {bad}], {s}))", lambda qc, b=bad, r=r, s=s: qc.toffoli(([r, b], s))
                yield f"toffoli(([{bad}, {r}], {s}))", lambda qc, b=bad, r=r, s=s: qc.toffoli(([b, r], s))
                yield f"toffoli(([{r}, {s}], {bad}))", lambda qc, b=bad, r=r, s=s: qc.toffoli(([r, s], b))
        yield f"cx(({bad}, {bad}), 1)", lambda qc, b=bad: qc.cx((b, b), 1)
    for r in range(n):
        yield f"cx(({r}, {r}), 1)", lambda qc, r=r: qc.cx((r, r), 1)
        yield f"cx([{r}, {r}], 1)", lambda qc, r=r: qc.cx([r, r], 1)
        yield f"toffoli(([{r}], {r}))", lambda qc, r=r: qc.toffoli(([r], r))
        yield f"gate(G, [{r}, {r}])", lambda qc, r=r: qc.gate(G, [r, r])
        for s in range(n):
            if s == r:
                continue
            for what in (([r, s], r), ([r, s], s), ([r, r], s), ([r, s, r], s), ([s, r, r], s)):
                yield f"toffoli({what})", lambda qc, w=what: qc.toffoli(w)
            for t in range(n):
                if t not in (r, s):
                    yield f"toffoli(([{r}, {s}, {r}], {t}))", lambda qc, r=r, s=s, t=t: qc.toffoli(([r, s, r], t))
        for extra in (1, 2):
            d = dims[r] + extra
            yield f"x({r}, {d})", lambda qc, r=r, d=d: qc.x(r, d)
            yield f"x({r}, dims={d}, plus=1)", lambda qc, r=r, d=d: qc.x(r, dims=d, plus=1)
            yield f"z({r}, {d})", lambda qc, r=r, d=d: qc.z(r, d)
            yield f"h({r}, {d})", lambda qc, r=r, d=d: qc.h(r, d)
            yield f"gate(G, {r}, {d})", lambda qc, r=r, d=d: qc.gate(G, r, d)
            for s in range(n):
                if s != r and d > dims[s]:
                    yield f"cx(({r}, {s}), 1, {d})", lambda qc, r=r, s=s, d=d: qc.cx((r, s), 1, d)
                    yield f"cx(({s}, {r}), 1, dims={d})", lambda qc, r=r, s=s, d=d: qc.cx((s, r), 1, dims=d)


def rejected(fn):
    try:
        got = fn()
    except Exception as e:
        return type(e).__name__, None
    return None, got


def explore(unit, ctx):
    if unit["k"] == "declare":
        return declare(unit["n"], ctx)
    if unit["k"] == "smaller":
        return smaller(tuple(unit["dims"]), ctx)
    if unit["k"] == "wide":
        return wide(tuple(unit["dims"]), unit["part"], ctx)
    dims = tuple(unit["dims"])
    init = [1] * len(dims)
    alpha = valid(dims)
    if unit["depth"] == "long":
        a, b = alpha[unit["pre"]], alpha[(unit["pre"] + 1) % len(alpha)]
        pres = [[a] * 4, [a, b] * 5]
    else:
        pres = prefixes(dims, unit["depth"])[slice(*unit["pre"])]
    for pre in pres:
        for i, (name, call) in enumerate(invalid(dims)):
            nexts = [alpha[i % len(alpha)], alpha[(i + 1 + len(pre)) % len(alpha)]]
            if unit["depth"] == "long":
                nexts = nexts[:1]
            elif unit["depth"] > 1:
                nexts = alpha[:: max(1, len(alpha) // 3)]
            case = {"dims": dims, "before": pre, "invalid": name, "after": nexts}

            def go():
                seen = None
                for nxt in nexts:
                    qc = harness.build(list(dims), init)
                    for op in pre:
                        harness.apply(qc, op, MATS)
                    before = snapshot(qc, dims)
                    kind, got = rejected(lambda: call(qc))
                    ctx.transition()
                    if kind is None:
                        return f"{name} was not rejected (it returned {got!r})"
                    seen = kind
                    if snapshot(qc, dims) != before:
                        return f"the rejected {name} changed the circuit from {before} to {snapshot(qc, dims)}"
                    if harness.apply(qc, nxt, MATS) is not True:
                        return f"{nxt} was refused after the rejected {name}"
                    qc.measure_all()
                    bad = harness.compare(qc.run(), ref.run(dims, init, pre + [nxt], MATS))
                    if bad:
                        return f"after the rejected {name}: {bad}"
                    # a rejected call on the measured circuit changes nothing either
                    end = snapshot(qc, dims)
                    rejected(lambda: call(qc))
                    if snapshot(qc, dims) != end:
                        return f"{name} changed the measured circuit"
                ctx.outcome((dims, name, seen))
                return None

            bad = ctx.guarded(go, case)
            if bad:
                ctx.violation(case, bad)
            ctx.trace()
            ctx.state((dims, str(pre), name))
            ctx.sample(case)


def snapshot(qc, dims):
    return harness.contents(qc, dims), str(qc), qc.get_circuit_config(), str(qc.get_circuit_info()), list(qc.init_states)


def declare(n, ctx):
    def expect(name, fn):
        case = {"declaration": name}

        def go():
            kind, got = rejected(fn)
            if kind is None:
                return f"{name} was accepted"
            ctx.outcome((name, kind))
            return None

        bad = ctx.guarded(go, case)
        if bad:
            ctx.violation(case, bad)
        ctx.transition()
        ctx.trace()
        ctx.state(name)
        ctx.sample(case)

    QC = harness.QuantumCircuit
    if n == 1:
        for bad in (None, 3, 2.5, "22", {2: 2}, {2, 3}, iter([2, 2]), range(2, 4), np.array([2, 3])):
            expect(f"QuantumCircuit({type(bad).__name__} {bad!r})", lambda b=bad: QC(b))
            expect(f"QuantumCircuit({type(bad).__name__} {bad!r}, init_states=[0])", lambda b=bad: QC(b, init_states=[0]))
    for dims in itertools.product((2, 3) if n > 2 else (2, 3, 4, 5), repeat=n):
        for pos in range(n):
            for low in (1, 0, -1):
                bad = list(dims)
                bad[pos] = low
                expect(f"QuantumCircuit({bad})", lambda b=bad: QC(list(b)))
                expect(f"QuantumCircuit({bad}, init zeros)", lambda b=bad: QC(list(b), init_states=[0] * n))
            for level in (dims[pos], dims[pos] + 1, -1, -2, -dims[pos]):
                init = [0] * n
                init[pos] = level
                expect(f"QuantumCircuit({list(dims)}, init_states={init})", lambda i=init, d=dims: QC(list(d), init_states=list(i)))
                short = init[: pos + 1]
                expect(f"QuantumCircuit({list(dims)}, init_states={short})", lambda i=short, d=dims: QC(list(d), init_states=list(i)))
                for b in (harness.NumpyBackend, harness.SparseBackend):
                    expect(f"QuantumCircuit({list(dims)}, init_states={init}, {b.__name__})", lambda i=init, d=dims, b=b: QC(list(d), init_states=list(i), backend=b))
        # and the good ones are accepted
        for init in ref.all_digits(dims):
            common.judge(ctx, dims, list(init), [], ref.run(dims, init, []))
        for k in range(n):
            common.judge(ctx, dims, [1] * k, [], ref.run(dims, [1] * k, []))
    for d in (1, 0, -1):
        expect(f"QuantumCircuit(({n}, {d}))", lambda d=d: QC((n, d)))
    for d in (2, 3):
        for pos in range(n):
            for level in (d, d + 1, -1):
                init = [0] * n
                init[pos] = level
                expect(f"QuantumCircuit(({n}, {d}), init_states={init})", lambda i=init, d=d: QC((n, d), init_states=i))
