"""C27: an operator flow given layers by hand executes every one of them, in order."""

import itertools

import numpy as np

from mc import common, harness, ref
from mc.props.c26 import MATS

ID = "C27"
LEVEL = "model_checking"
ASSUMPTIONS = (
    "every pushed layer is a Moment of its own, complete and in register order; measurement is one full layer",
    "amplitudes are compared with tolerance 1e-9",
)

from qudiet.circuit_library.standard_gates.cx import CXGate  # noqa: E402
from qudiet.circuit_library.standard_gates.h import HGate  # noqa: E402
from qudiet.circuit_library.standard_gates.i import IGate  # noqa: E402
from qudiet.circuit_library.standard_gates.measurement import Measurement  # noqa: E402
from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli  # noqa: E402
from qudiet.circuit_library.standard_gates.x import XGate  # noqa: E402
from qudiet.circuit_library.standard_gates.z import ZGate  # noqa: E402
from qudiet.core.init_states import InitState  # noqa: E402
from qudiet.core.moment import Moment  # noqa: E402
from qudiet.core.operator_flow import OperatorFlow  # noqa: E402

B = {"numpy": harness.NumpyBackend, "sparse": harness.SparseBackend}


def BOUNDS(tier):
    q = tier == "quick"
    return (
        "every sequence of complete layers (every assignment of idle, X, Z, H, CX, Toffoli and custom blocks to the register; a reduced choice at the greatest depth) up to %s layers on one, two, three and four qudits over "
        "dimensions 2..4, pushed in every division into calls (and into the constructor), with gates made anew or reused, on both backends, and into a circuit's own flow; "
        "two-letter periodic sequences of 40 layers on one qudit and 17 on two and three; three layers on up to nine qudits (sparse backend); every layer asked about every qudit"
        % ("5, 3, 2 and 1" if q else "7, 4, 2 and 2")
    )


def blocks(dims, at, rich):
    """What can start at qudit `at`: (None for idle | op, number of qudits covered)."""
    n = len(dims)
    d = dims[at]
    out = [(None, 1), (["x", at, 1], 1), (["h", at], 1)]
    if rich:
        out += [(["z", at], 1)] + ([(["x", at, d - 1], 1)] if d > 2 else []) + [(["gate", f"M{d}", [at]], 1)]
    for end in range(at + 1, n):
        regs = list(range(at, end + 1))
        for c, t in ((at, end), (end, at)):
            out.append((["cx", [c, t], 1], len(regs)))
            if rich and dims[t] > 2:
                out.append((["cx", [c, t], dims[t] - 1], len(regs)))
        for t in regs:
            cs = [r for r in regs if r != t]
            if len(cs) >= (2 if n > 2 else 1) and (rich or t == end):
                out.append((["tof", cs, t, 1], len(regs)))
        size = f"M{int(np.prod([dims[r] for r in regs]))}"
        if size in MATS and (rich or len(regs) == 2):
            out.append((["gate", size, regs], len(regs)))
    return out


def layers(dims, rich):
    def rec(at):
        if at == len(dims):
            yield []
            return
        for op, w in blocks(dims, at, rich):
            for rest in rec(at + w):
                yield ([op] if op else []) + rest

    return list(rec(0))


def spaces(tier):
    q = tier == "quick"
    out = []
    for d in (2, 3, 4):
        out.append(((d,), 4 if q else 5, True))
        out.append(((d,), 5 if q else 7, False))
    for s in ((2, 2), (2, 3), (3, 2), (3, 3)):
        out.append((s, 2, True))
        out.append((s, 3 if q else 4, False))
    for s in ((2, 2, 2), (2, 3, 2), (3, 2, 3)):
        out.append((s, 1, True))
        out.append((s, 2, False))
    for s in ((2, 2, 2, 2), (2, 3, 2, 2)):
        out.append((s, 1, True) if q else (s, 1, True))
        if not q:
            out.append((s, 2, False))
    return out


def units(tier):
    u = []
    for dims, depth, rich in spaces(tier):
        n = len(layers(dims, rich))
        per = max(1, -(-n // (24 if n**depth > 2000 else 4)))
        u += [{"kind": "seq", "dims": dims, "depth": depth, "rich": rich, "first": [i, i + per]} for i in range(0, n, per)]
    u += [{"kind": "wide", "dims": dims, "part": i} for dims in ((3,) * 7, (3, 2, 3, 4, 3, 3), (3,) * 9) for i in range(4)]
    u += [{"kind": "long", "dims": dims} for dims in ((3,), (2, 3), (2, 2, 2))]
    u += [{"kind": "ask", "dims": dims} for dims in ((2,), (3,), (2, 3), (3, 2), (2, 2, 2), (3, 2, 2), (2, 2, 2, 2), (2, 3, 2, 3), (2,) * 5)]
    return u


def gate(dims, op, backend):
    k = op[0]
    if k == "x":
        return XGate(qreg=op[1], dims=dims[op[1]], plus=op[2], backend=backend)
    if k in "zh":
        return (ZGate if k == "z" else HGate)(qreg=op[1], dims=dims[op[1]], backend=backend)
    if k == "cx":
        lo, hi = min(op[1]), max(op[1])
        return CXGate(qreg=list(dims[lo : hi + 1]), acting_on=tuple(op[1]), plus=op[2], backend=backend)
    if k == "tof":
        return Toffoli(qreg=(list(op[1]), op[2]), dims=list(dims), plus=op[3], backend=backend)
    regs = op[2]
    one = len(regs) == 1
    return harness.custom_gate(MATS[op[1]])(qreg=regs[0] if one else list(regs), dims=dims[regs[0]] if one else [dims[r] for r in regs], backend=backend)


def moment(dims, layer, backend, made, name="layer"):
    """The layer's elements in register order, and the Moment made of them."""
    at, items, start = 0, [], {min(ref.span(op)): op for op in layer}
    while at < len(dims):
        op = start.get(at)
        if op is None:
            items.append(IGate(qreg=at, dims=dims[at], backend=backend))
            at += 1
            continue
        key = str(op)
        if made is None or key not in made:
            g = gate(dims, op, backend)
            if made is not None:
                made[key] = g
        else:
            g = made[key]
        items.append(g)
        at += len(ref.span(op))
    return Moment(name, *items), items


def divisions(k):
    for cuts in itertools.product((0, 1), repeat=k - 1):
        out, cur = [], [0]
        for i, c in enumerate(cuts, 1):
            if c:
                out.append(cur)
                cur = [i]
            else:
                cur.append(i)
        yield out + [cur]


def array(m):
    return np.asarray(m.toarray() if hasattr(m, "toarray") else m)


def per_qudit(n, items):
    """For every qudit the gates on it, in order, by identity."""
    lines = [[] for _ in range(n)]
    for layer in items:
        for g in layer:
            if isinstance(g, (IGate, InitState, Measurement)):
                continue
            at = g.acting_on
            flat = [at] if isinstance(at, int) else [r for x in at for r in ([x] if isinstance(x, int) else x)]
            for r in flat:
                lines[r].append(id(g))
    return lines


def run(dims, init, seq, backend, division, ctor, reuse, expected):
    b = B[backend]
    made = {} if reuse else None
    todo = [(Moment("init", *[InitState(dim=d, state=s, qreg=r, backend=b) for r, (d, s) in enumerate(zip(dims, init))]), [])]
    todo += [moment(dims, layer, b, made) for layer in seq]
    todo.append((Moment("end", *[Measurement(qreg=r) for r in range(len(dims))]), []))
    flow = None
    done = []
    for i, part in enumerate(division):
        ms = [todo[j][0] for j in part]
        if flow is None and ctor:
            flow = OperatorFlow(*ms)
        else:
            if flow is None:
                flow = OperatorFlow()
            if flow.populate_opflow(*ms) is not True:
                return f"pushing layers {part} did not report success"
        done += part
        if len(todo) - 1 not in done:
            try:
                flow.exec(b)
            except Exception:
                pass
            else:
                return "a flow that is not measured was executed"
        want = per_qudit(len(dims), [todo[j][1] for j in done])
        got = per_qudit(len(dims), [m.peek_list() for m in flow.peek()])
        if got != want:
            return f"after pushing {part} the flow holds {[len(x) for x in got]} gates per qudit, not those pushed ({[len(x) for x in want]}), or in another order"
    for again in (0, 1):
        got = array(flow.exec(b))
        if got.shape != (expected.size, 1) or not np.all(np.abs(got.reshape(-1) - expected.reshape(-1)) <= ref.TOL):
            return f"execution{' after a refused push' if again else ''} gives {got.reshape(-1).round(4).tolist()}, expected {expected.reshape(-1).round(4).tolist()}"
        n = len(flow.peek())
        if again == 0:
            extra, _ = moment(dims, [["x", 0, 1]], b, None)
            if flow.populate_opflow(extra) is not False or len(flow.peek()) != n:
                return "a layer was taken after measurement"
    return None


def in_circuit(dims, init, seq, backend, expected):
    qc = harness.build(list(dims), init, backend)
    b = B[backend]
    for layer in seq:
        m, _ = moment(dims, layer, b, None)
        if qc.op_flow.populate_opflow(m) is not True:
            return "pushing a layer into a circuit's flow did not report success"
    qc.measure_all()
    return harness.compare(qc.run(), expected)


def script(dims, init, seq, backend, division, ctor, reuse):
    return (
        f"# layers {seq}\n# pushed as calls {division} (0 is the initial layer, the last one measurement), first call is the constructor: {ctor}\n"
        f"import sys; sys.path.insert(0, '/verif')\nfrom mc import ref\nfrom mc.props import c27\n"
        f"v = ref.run({list(dims)}, {list(init)}, {[op for layer in seq for op in layer]}, c27.MATS)\n"
        f"print(c27.run({list(dims)}, {list(init)}, {seq}, {backend!r}, {division}, {ctor}, {reuse}, v))\n"
    )


def judge(ctx, dims, init, seq, modes):
    expected = ref.run(dims, init, [op for layer in seq for op in layer], MATS)
    for backend, division, ctor, reuse in modes:
        case = {"dims": dims, "init": init, "layers": seq, "backend": backend, "calls": division, "constructor": ctor, "reused gates": reuse}

        def go():
            if division is None:
                return in_circuit(dims, init, seq, backend, expected)
            return run(dims, init, seq, backend, division, ctor, reuse, expected)

        bad = ctx.guarded(go, case)
        if bad:
            ctx.violation(case, bad, script=script(dims, init, seq, backend, division, ctor, reuse) if division else None)
        ctx.trace()
    ctx.state((dims, str(seq)))
    ctx.outcome(ref.vkey(expected))
    ctx.sample({"dims": dims, "layers": seq})


def modes_for(k, full):
    """k layers between the initial one and measurement."""
    one = [list(range(k + 2))]
    each = [[i] for i in range(k + 2)]
    if full:
        out = [("numpy" if i % 2 else "sparse", d, bool(c), bool(i % 2)) for i, d in enumerate(divisions(k + 2)) for c in (0, 1)]
        out += [("sparse" if i % 2 else "numpy", d, False, False) for i, d in enumerate((one, each))]
    else:
        out = [("numpy", one, True, True), ("sparse", one, False, False), ("numpy", each, False, True)]
    return out + [("numpy", None, False, False)]


def explore(unit, ctx):
    dims = tuple(unit["dims"])
    if unit["kind"] == "ask":
        return ask(dims, ctx)
    init = common.top(dims)
    if unit["kind"] == "long":
        few = layers(dims, False)
        if len(dims) > 1:
            few = few[:: 2 if len(dims) == 2 else 5]
        for a, b in itertools.product(few, repeat=2):
            for n in (40,) if len(dims) == 1 else (17,):
                seq = [a if i % 2 else b for i in range(n)]
                ctx.transition()
                judge(ctx, dims, init, seq, modes_for(n, False)[:3])
        return
    if unit["kind"] == "wide":
        n = len(dims)
        full = [[["x", r, 1] for r in range(n)], [["h", 0], ["x", n - 1, 1], ["z", 1]], [["cx", [0, 1], 1], ["x", n - 1, 2]], [["cx", [n - 1, n - 2], 1], ["cx", [1, 0], 1], ["h", 3]]]
        full += [[["x", r, 1]] for r in (0, n // 2, n - 1)] + [[["tof", [0, 2], 1, 1], ["tof", [3, 4], 5, 1]], []]
        for seq in itertools.product(full, repeat=3):
            if full.index(seq[0]) % 4 == unit["part"]:
                ctx.transition()
                if sum(op[0] == "h" for layer in seq for op in layer) < 4:
                    judge(ctx, dims, init, list(seq), [(b if b != "numpy" else "sparse", *rest) for b, *rest in modes_for(3, False)])
        return
    alpha = layers(dims, unit["rich"])

    def rec(seq):
        k = len(seq)
        if k:
            full = (k <= 2 and len(alpha) ** k < 700) or (len(dims) == 1 and k <= 3)
            for i in ([init] if k > 1 else [init, tuple(0 for _ in dims)]):
                judge(ctx, dims, i, seq, modes_for(k, full))
        if k < unit["depth"]:
            for a in alpha if seq else alpha[slice(*unit["first"])]:
                ctx.transition()
                rec(seq + [a])

    rec([])


def ask(dims, ctx):
    for backend, b in B.items():
        for layer in layers(dims, len(dims) < 4):
            on = {r: op for op in layer for r in ref.registers(op)}
            covered = {r for op in layer for r in ref.span(op)}
            for q in range(len(dims)):
                case = {"dims": dims, "layer": layer, "qudit": q, "backend": backend}

                def go():
                    m, items = moment(dims, layer, b, None)
                    x = XGate(qreg=q, dims=dims[q], plus=1, backend=b)
                    idle = q not in covered
                    before = list(m.peek_list())
                    if len(before) != len(items) or any(p is not i for p, i in zip(before, items)):
                        return "the layer does not hold the elements it was made of"
                    got = m.get_qreg_moment(q)
                    place = m.get_qreg_moment(q, True)
                    if q in on or idle:
                        if got is None or place is None or place[0] is not got or m.peek_list()[place[1]] is not got:
                            return f"asked for the gate on the qudit it answers {got!r}, with its place {place!r}"
                        if idle and (not isinstance(got, IGate) or got.qreg != q):
                            return f"the gate on the idle qudit is {got!r}"
                        if q in on and got is not next(g for g, op in zip([i for i in items if not isinstance(i, IGate)], sorted(layer, key=lambda o: min(ref.span(o)))) if op is on[q]):
                            return f"asked for the gate on the qudit it answers {got!r}"
                    if bool(m.check_igate_at_qreg(x)) != idle:
                        return f"it says the qudit is{'' if not idle else ' not'} idle"
                    if bool(m.replace_igate(x)) != idle:
                        return f"putting X there reports {not idle}"
                    after = m.peek_list()
                    want = [x if idle and isinstance(g, IGate) and g.qreg == q else g for g in before]
                    if len(after) != len(want) or any(p is not i for p, i in zip(after, want)):
                        return "putting X there did not change exactly the idle place"
                    return None

                bad = ctx.guarded(go, case)
                if bad:
                    ctx.violation(case, bad)
                ctx.trace()
                ctx.transition()
            ctx.state((dims, str(layer)))
            ctx.outcome((dims, str(layer)))
            ctx.sample({"dims": dims, "layer": layer})
