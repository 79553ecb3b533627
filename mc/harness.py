"""Drives the real code in /repo/src through its public interface."""

import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

import qudiet  # noqa: E402
from qudiet.circuit_library import ArbitaryGate  # noqa: E402
from qudiet.core.backend.NumpyBackend import NumpyBackend  # noqa: E402
from qudiet.core.backend.SparseBackend import SparseBackend  # noqa: E402
from qudiet.core.output import Output, OutputMethod, OutputType  # noqa: E402
from qudiet.core.quantum_circuit import QuantumCircuit  # noqa: E402

from mc import ref  # noqa: E402

assert os.path.realpath(qudiet.__file__).startswith(os.path.realpath(REPO) + os.sep), qudiet.__file__
warnings.simplefilter("ignore")

BACKENDS = {"default": None, "numpy": NumpyBackend, "sparse": SparseBackend}


class Bad(Exception):
    """The code answered, and the answer is wrong."""


def custom_gate(matrix):
    class Custom(ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = np.array(matrix)

    return Custom


def build(dims, init=None, backend="default", **kw):
    args = {"qregs": dims if isinstance(dims, tuple) else list(dims)}
    if init is not None:
        args["init_states"] = list(init)
    b = BACKENDS[backend]
    if b is not None:
        args["backend"] = b
    return QuantumCircuit(**args, **kw)


def apply(qc, op, matrices=None):
    kind = op[0]
    if kind == "h":
        return qc.h(op[1])
    if kind == "z":
        return qc.z(op[1])
    if kind == "x":
        # the default increment is exercised through the default argument
        return qc.x(op[1]) if op[2] == 1 else qc.x(op[1], plus=op[2])
    if kind == "cx":
        return qc.cx(tuple(op[1]), op[2])
    if kind == "tof":
        q = (list(op[1]), op[2])
        return qc.toffoli(q) if op[3] == 1 else qc.toffoli(q, op[3])
    if kind == "gate":
        regs = op[2][0] if len(op[2]) == 1 else list(op[2])
        return qc.gate(custom_gate(matrices[op[1]]), regs)
    raise AssertionError(op)


def decode(report, dims, state_mode=False):
    """Parses a report into {digits: value}, checking its form."""
    if not isinstance(report, list):
        raise Bad(f"the report is not a list: {type(report).__name__}")
    out = {}
    last = None
    for entry in report:
        if not isinstance(entry, dict) or len(entry) != 1:
            raise Bad(f"a report entry is not a one-state dictionary: {entry!r}")
        (label, value), = entry.items()
        if state_mode:
            if not isinstance(label, tuple) or len(label) != len(dims):
                raise Bad(f"label {label!r} is not a tuple of {len(dims)} digits")
            digits = tuple(int(x) for x in label)
        else:
            if not (isinstance(label, str) and label.startswith("|") and label.endswith(">")):
                raise Bad(f"label {label!r} is not of the form |...>")
            digits = split_label(label[1:-1], dims)
            if digits is None:
                raise Bad(f"label {label!r} is not a basis state of dimensions {list(dims)}")
        if any(not 0 <= x < d for x, d in zip(digits, dims)):
            raise Bad(f"label {label!r} has a digit out of range for {list(dims)}")
        if digits in out:
            raise Bad(f"basis state {label!r} is reported twice")
        if last is not None and digits <= last:
            raise Bad(f"basis state {label!r} is out of order")
        last = digits
        out[digits] = value
    return out


def split_label(text, dims):
    """Digits of a concatenated label; only for labels that read in exactly one way."""
    if all(d <= 10 for d in dims):
        if len(text) != len(dims) or not text.isdigit():
            return None
        return tuple(int(c) for c in text)
    if len(dims) == 1:
        return (int(text),) if text.isdigit() else None
    raise AssertionError("ambiguous labels are not explored")


def tuple_labels(dims):
    """Whether concatenated labels would be ambiguous, so that tuples are asked for."""
    return len(dims) > 1 and max(dims) > 10


def to_vector(report, dims):
    v = np.zeros(tuple(dims), dtype=complex)
    for digits, value in decode(report, dims, tuple_labels(dims)).items():
        v[digits] = complex(value)
    return v


def compare(report, expected):
    """None if the report says `expected`, else what is wrong."""
    if tuple_labels(expected.shape) and isinstance(report, list) and report and isinstance(next(iter(report[0]), None), str):
        return compare_texts(report, expected)
    try:
        got = to_vector(report, expected.shape)
    except Bad as e:
        return str(e)
    if not np.all(np.isfinite(got)):
        return f"reported amplitudes are not finite: {report!r}"
    err = np.abs(got - expected)
    worst = float(err.max())
    if worst > ref.TOL:
        at = tuple(int(i) for i in np.unravel_index(int(err.argmax()), err.shape))
        return (
            f"amplitude of {at} is {complex(got[at]):.6g}, expected {complex(expected[at]):.6g}; "
            f"report {str(report)[:300]}"
        )
    return None


def compare_mode(report, expected, kind=None):
    """compare() for a report whose labels are of the given output type."""
    if kind is not OutputType.state:
        return compare(report, expected)
    try:
        entries = decode(report, expected.shape, True)
    except Bad as e:
        return str(e)
    got = np.zeros(expected.shape, dtype=complex)
    for digits, value in entries.items():
        got[digits] = complex(value)
    if not np.abs(got - expected).max() <= ref.TOL:
        return f"the report is {str(report)[:300]}, expected {[(tuple(map(int, a)), complex(expected[tuple(a)])) for a in np.argwhere(np.abs(expected) > ref.TOL)][:6]}"
    return None


def compare_texts(report, expected):
    """The same where concatenated labels do not say which basis state they mean: by label and position."""
    got = [(label, complex(a)) for entry in report for label, a in entry.items() if abs(a) > ref.TOL]
    want = [("|" + "".join(map(str, map(int, at))) + ">", complex(expected[tuple(at)])) for at in np.argwhere(np.abs(expected) > ref.TOL)]
    if [label for label, _ in got] != [label for label, _ in want]:
        return f"the report lists {[x for x, _ in got][:6]}, expected {[x for x, _ in want][:6]}"
    for (label, a), (_, b) in zip(got, want):
        if not abs(a - b) <= ref.TOL:
            return f"amplitude of {label} is {a:.6g}, expected {b:.6g}"
    return None


def run_ops(dims, init, ops, backend="default", matrices=None):
    kw = {}
    if tuple_labels(dims):
        kw["output"] = Output(list(dims), OutputType.state, OutputMethod.amplitude)
    qc = build(list(dims), init, backend, **kw)
    for op in ops:
        if apply(qc, op, matrices) is not True:
            raise Bad(f"gate call {op} did not report success")
    qc.measure_all()
    return qc.run()


def script(dims, init, ops, backend="default", matrices=None, tail=""):
    """A stand-alone program showing one circuit, without the explorer."""
    lines = [
        "# Replays one explored circuit on the real code; run with /opt/venv/bin/python.",
        "import numpy as np",
        "from qudiet.core.quantum_circuit import QuantumCircuit",
        "from qudiet.core.backend.NumpyBackend import NumpyBackend",
        "from qudiet.core.backend.SparseBackend import SparseBackend",
        "from qudiet.circuit_library import ArbitaryGate",
        "",
        "def custom(m):",
        "    class Custom(ArbitaryGate):",
        "        def __init__(self, *a, **k):",
        "            super().__init__(*a, **k)",
        "            self._unitary = np.array(m)",
        "    return Custom",
        "",
    ]
    be = {"default": "None", "numpy": "NumpyBackend", "sparse": "SparseBackend"}.get(backend, "None")
    d = tuple(dims) if isinstance(dims, tuple) else list(dims)
    lines.append(f"qc = QuantumCircuit({d!r}, init_states={list(init) if init is not None else None!r}, backend={be})")
    for op in ops:
        k = op[0]
        if k in ("h", "z"):
            lines.append(f"qc.{k}({op[1]})")
        elif k == "x":
            lines.append(f"qc.x({op[1]}, plus={op[2]})")
        elif k == "cx":
            lines.append(f"qc.cx({tuple(op[1])!r}, {op[2]})")
        elif k == "tof":
            lines.append(f"qc.toffoli(({list(op[1])!r}, {op[2]}), {op[3]})")
        elif k == "gate":
            m = np.array(matrices[op[1]]).tolist()
            lines.append(f"qc.gate(custom({m!r}), {op[2][0] if len(op[2]) == 1 else list(op[2])!r})")
    lines += ["qc.measure_all()", "print(qc.run())", tail, ""]
    return "\n".join(lines)


# -- what a circuit contains, read through op_flow.peek() / peek_list() ----------------------


class _Any:
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 0

    def __repr__(self):
        return "?"


ANY = _Any()


def describe(gate):
    """(description, covered registers) of one element of a layer."""
    from qudiet.circuit_library.standard_gates.cx import CXGate
    from qudiet.circuit_library.standard_gates.h import HGate
    from qudiet.circuit_library.standard_gates.i import IGate
    from qudiet.circuit_library.standard_gates.measurement import Measurement
    from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli
    from qudiet.circuit_library.standard_gates.x import XGate
    from qudiet.circuit_library.standard_gates.z import ZGate
    from qudiet.core.init_states import InitState

    def plus():
        for name in ("_plus", "plus"):
            if hasattr(gate, name):
                return getattr(gate, name)
        return ANY  # kept under another name: what the gate does is judged by running it

    if isinstance(gate, IGate):
        return None, [gate.qreg]
    if isinstance(gate, InitState):
        return ["init", gate.qreg, gate.dim, gate.state], [gate.qreg]
    if isinstance(gate, Measurement):
        return ["m", gate.acting_on], [gate.acting_on]
    if isinstance(gate, HGate):
        return ["h", gate.acting_on], [gate.acting_on]
    if isinstance(gate, ZGate):
        return ["z", gate.acting_on], [gate.acting_on]
    if isinstance(gate, XGate):
        return ["x", gate.acting_on, plus()], [gate.acting_on]
    if isinstance(gate, CXGate):
        c, t = gate.acting_on
        return ["cx", [c, t], plus()], list(range(min(c, t), max(c, t) + 1))
    if isinstance(gate, Toffoli):
        cs, t = gate.acting_on
        regs = list(cs) + [t]
        return ["tof", list(cs), t, plus()], list(range(min(regs), max(regs) + 1))
    if isinstance(gate, ArbitaryGate):
        regs = gate.acting_on
        regs = [regs] if isinstance(regs, int) else list(regs)
        return ["gate", getattr(type(gate), "mc_name", type(gate).__name__), regs], list(range(min(regs), max(regs) + 1))
    raise Bad(f"unknown element in a layer: {gate!r}")


def contents(qc, dims):
    """[[descriptions of layer 0], ...]; checks that every layer partitions the register."""
    out = []
    for j, moment in enumerate(qc.op_flow.peek()):
        layer, covered = [], []
        for g in moment.peek_list():
            what, where = describe(g)
            covered += where
            if what is not None:
                layer.append(what)
        if covered != list(range(len(dims))):
            raise Bad(f"layer {j} covers qudits {covered} of {len(dims)}: {layer}")
        out.append(layer)
    return out
