"""C26: layers and the gates in them describe themselves truthfully."""

import itertools

import numpy as np

from mc import common, harness, ref

ID = "C26"
LEVEL = "model_checking"
ASSUMPTIONS = ("matrices are compared with tolerance 1e-9", "layers are read through OperatorFlow.peek(), Moment.peek_list() and the public attributes of gates and layers")


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every sequence of X Z H CX Toffoli and custom gates (all increments below the dimension on one and two qudits) up to length %d on one qudit, %d on two, %d on three and %d on four qudits "
        "over dimensions 2..5, two-letter periodic sequences of %d, and narrow gates in pairs on up to %d qudits, from the top levels, described before and after measurement and again after a run and refused gates; default and dense backends"
        % ((3, 2, 2, 1, 18, 21) if q else (4, 3, 2, 2, 60, 40))
    )


def custom(n):
    m = np.roll(np.diag([1, 1j, -1, -1j, 1j, 1, -1][:n] if n <= 7 else [1j ** (k * k) for k in range(n)]), 1, axis=0).astype(complex)
    m[:, 0] *= 1j
    return m


MATS = {f"M{n}": custom(n) for n in (2, 3, 4, 5, 6, 8, 9, 12, 18)}


def letters(dims):
    n = len(dims)
    ops = common.alphabet(dims, plus="all" if n < 3 else "few", tof="any", max_controls=3)
    if n == 2:
        ops += [["tof", [c], t, p] for c, t in ((0, 1), (1, 0)) for p in range(1, dims[t])]
    if n == 3:
        ops += [["tof", [c], t, 1] for c, t in itertools.permutations(range(3), 2)]
    for k in range(1, min(n, 3) + 1):
        for r in range(n - k + 1):
            size = int(np.prod(dims[r : r + k]))
            if f"M{size}" in MATS:
                ops.append(["gate", f"M{size}", list(range(r, r + k))])
    return [o for i, o in enumerate(ops) if o not in ops[:i]]


def lean(dims):
    ops = [o for o in letters(dims) if len(dims) < 2 or o[0] in ("h", "z", "gate") or o[-1] == 1]
    return ops if len(dims) < 3 else ops[::2]


def wide_letters(dims):
    n = len(dims)
    ops = [["x", r, 1] for r in range(n)] + [[k, r] for k in "hz" for r in (0, n // 2, n - 1)]
    ops += [["cx", [r, r + 1], 1] for r in range(n - 1)] + [["cx", [r + 2, r], 1] for r in range(0, n - 2)]
    ops += [["tof", [r, r + 2], r + 1, 1] for r in range(0, n - 2, 3)] + [["tof", [n - 1, n - 2], n - 3, 1]]
    return ops + [["gate", f"M{dims[r] * dims[r + 1]}", [r, r + 1]] for r in (0, n - 2)]


def units(tier):
    q = tier == "quick"
    spaces = [((d,), 3 if q else 4) for d in (2, 3, 4, 5)] + [(s, 2 if q else 3) for s in ((2, 2), (2, 3), (3, 2), (4, 2), (3, 4))]
    spaces += [((2, 2, 2), 2), ((2, 3, 2), 2), ((3, 2, 4), 1 if q else 2)] + [(s, 1 if q else 2) for s in ((2, 2, 2, 2), (2, 3, 2, 3))]
    u = []
    for dims, depth in spaces:
        n = len(letters(dims))
        per = max(1, -(-n // (12 if depth > 1 else 4)))
        u += [{"dims": dims, "depth": depth, "first": [i, i + per]} for i in range(0, n, per)]
    for dims in ((2,), (3,), (4,), (2, 2), (2, 3), (3, 2), (2, 2, 2)):
        n = len(lean(dims))
        per = max(1, n // 6)
        u += [{"dims": dims, "long": 9 if q else 30, "first": [i, i + per]} for i in range(0, n, per)]
    for n in (8, 11, 21) if q else (8, 11, 13, 21, 40):
        dims = (2, 3) * (n // 2) + (2,) * (n % 2)
        m = len(wide_letters(dims))
        u += [{"dims": dims, "wide": True, "first": [i, i + 3]} for i in range(0, m, 3)]
    return u


def array(m):
    return np.asarray(m.toarray() if hasattr(m, "toarray") else m)


def matrix(dims, op):
    """The operation on the block of qudits it covers."""
    regs = list(ref.span(op))
    sub = tuple(dims[r] for r in regs)
    low = regs[0]
    if op[0] == "cx":
        here = ["cx", [r - low for r in op[1]], op[2]]
    elif op[0] == "tof":
        here = ["tof", [r - low for r in op[1]], op[2] - low, op[3]]
    elif op[0] == "gate":
        here = ["gate", op[1], [r - low for r in op[2]]]
    else:
        here = [op[0], op[1] - low, *op[2:]]
    return np.array([ref.apply(ref.basis(sub, k), here, MATS).reshape(-1) for k in ref.all_digits(sub)]).T


_M = {}


def cached(dims, op):
    key = (dims, str(op))
    if key not in _M:
        _M[key] = matrix(dims, op)
    return _M[key]


def same(a, b):
    a = array(a)
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.abs(a - b).max() <= ref.TOL


def operands(gate):
    at = gate.acting_on
    return at if isinstance(at, int) else tuple(list(x) if isinstance(x, (list, tuple)) else x for x in at)


def look(qc, dims, init, ops, measured):
    layers = list(qc.op_flow.peek())
    want = ref.layers(len(dims), ops)
    if len(layers) != 1 + len(want) + measured:
        return f"there are {len(layers)} layers, expected {1 + len(want) + measured}"
    # the links
    for i, layer in enumerate(layers):
        nxt = layers[i + 1] if i + 1 < len(layers) else None
        if layer.next_pointer is not nxt:
            return f"layer {i} does not lead to {'layer %d' % (i + 1) if nxt is not None else 'nothing'}"
        if layer.prev_pointer is not (layers[i - 1] if i else None):
            return f"layer {i} does not lead back to {'layer %d' % (i - 1) if i else 'nothing'}"
    # the initial states
    for r, s in enumerate(layers[0].peek_list()):
        e = np.zeros((dims[r], 1))
        e[init[r]] = 1
        for name, got in (("unitary", s.unitary), ("get_init_states()", s.get_init_states())):
            if not same(got, e):
                return f"{name} of the initial state of qudit {r} is {array(got).tolist()}"
        if (s.dim, s.state, s.qreg) != (dims[r], init[r], r):
            return f"the initial state of qudit {r} says {(s.dim, s.state, s.qreg)}"
    v = ref.basis(dims, init) if len(dims) < 7 else None
    for i, layer in enumerate(layers[1 : 1 + len(want)], 1):
        todo = {min(ref.span(op)): op for op in want[i - 1]}
        at = 0
        for g in layer.peek_list():
            op = todo.pop(at, None)
            if op is None:
                facts = (g.acting_on, g.is_controlled, g.is_single_qudit)
                if facts != (at, False, True) or not same(g.unitary, np.eye(dims[at])):
                    return f"layer {i}, idle qudit {at}: acting_on, is_controlled, is_single_qudit are {facts}, unitary {array(g.unitary).tolist()}"
                at += 1
                continue
            regs = ref.registers(op)
            place = {"cx": tuple(op[1]), "tof": (list(op[1]), op[2])}.get(op[0], None) if op[0] in ("cx", "tof") else op[1] if op[0] != "gate" else op[2][0] if len(op[2]) == 1 else tuple(op[2])
            got = operands(g)
            if got != place and not (isinstance(place, int) and got == (place,)):
                return f"{op} says it acts on {got}"
            for r in regs:
                if layer.get_qreg_moment(r) is not g or layer.get_qreg_moment(r, True)[0] is not g:
                    return f"layer {i} does not know that {op} is on qudit {r}"
            if g.is_controlled != (op[0] in ("cx", "tof")):
                return f"{op} says is_controlled = {g.is_controlled}"
            if g.is_single_qudit != (len(regs) == 1):
                return f"{op} says is_single_qudit = {g.is_single_qudit}"
            m = cached(dims, op)
            if not same(g.unitary, m):
                return f"the unitary of {op} is {array(g.unitary).round(4).tolist()}, expected {m.round(4).tolist()}"
            at += len(ref.span(op))
            v = v if v is None else ref.apply(v, op, MATS)
        if todo or at != len(dims):
            return f"layer {i} does not show {list(todo.values())}, or covers {at} qudits"
    if v is None:
        return ends(layers, measured)
    # the layers' operators, multiplied together
    product = layers[0].exec(qc.backend)
    for layer in layers[1 : 1 + len(want)]:
        product = array(layer.exec(qc.backend)) @ array(product)
    if not same(product, v.reshape(-1, 1)):
        return "the layers' operators applied to the initial layer do not give the circuit's state"
    return ends(layers, measured)


def ends(layers, measured):
    if measured:
        for r, g in enumerate(layers[-1].peek_list()):
            if (g.acting_on, g.is_controlled, g.is_single_qudit) != (r, False, True):
                return f"measurement {r} says {(g.acting_on, g.is_controlled, g.is_single_qudit)}"
    return None


def explore(unit, ctx):
    dims = tuple(unit["dims"])
    alpha = wide_letters(dims) if "wide" in unit else letters(dims)
    init = common.top(dims)

    def visit(ops):
        for backend in ("default", "numpy"):
            case = {"dims": dims, "init": init, "ops": ops, "backend": backend}

            def go():
                qc = harness.build(list(dims), init, backend)
                for op in ops:
                    if harness.apply(qc, op, MATS) is not True:
                        return f"{op} did not report success"
                bad = look(qc, dims, init, ops, False)
                if bad:
                    return bad
                qc.measure_all()
                bad = look(qc, dims, init, ops, True)
                if bad:
                    return "after measurement: " + bad
                if len(dims) < 7:
                    qc.run()
                harness.apply(qc, ["x", 0, 1])
                harness.apply(qc, ["cx", [0, 1], 1] if len(dims) > 1 else ["h", 0])
                bad = look(qc, dims, init, ops, True)
                return bad and "after a run and refused gates: " + bad

            bad = ctx.guarded(go, case)
            if bad:
                ctx.violation(case, bad, script=harness.script(list(dims), init, ops, backend, MATS))
            ctx.trace()
        ctx.state((dims, str(ops)))
        ctx.outcome((dims, str(ref.layers(len(dims), ops))))
        ctx.sample({"dims": dims, "ops": ops})

    def rec(ops):
        visit(ops)
        if len(ops) < unit["depth"]:
            for a in alpha if ops else alpha[slice(*unit["first"])]:
                ctx.transition()
                rec(ops + [a])

    if "long" in unit:
        for a in lean(dims)[slice(*unit["first"])]:
            for b in lean(dims):
                ctx.transition()
                visit([a, b] * unit["long"])
        return
    if "wide" in unit:
        for a in alpha[slice(*unit["first"])]:
            for rest in [[]] + [[b] for b in alpha[::5]]:
                ctx.transition()
                visit([a, *rest])
        return
    rec([])
