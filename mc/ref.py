"""Reference model: what a circuit means, written without looking at the implementation.

A state is an array of complex amplitudes with one axis per qudit.  An operation is a
JSON-able list:
    ["h", r]  ["z", r]  ["x", r, plus]  ["cx", [c, t], plus]
    ["tof", [controls], t, plus]        ["gate", matrix_name, [registers]]
"""

import cmath
import itertools

import numpy as np

TOL = 1e-9


def basis(dims, digits):
    v = np.zeros(dims, dtype=complex)
    v[tuple(digits)] = 1
    return v


def all_digits(dims):
    return itertools.product(*(range(d) for d in dims))


def omega(d, k):
    return cmath.exp(2j * cmath.pi * (k % d) / d)


def h_matrix(d):
    return np.array([[omega(d, j * k) / d ** 0.5 for k in range(d)] for j in range(d)])


def z_matrix(d):
    return np.diag([omega(d, k) for k in range(d)])


def x_matrix(d, plus):
    m = np.zeros((d, d))
    for k in range(d):
        m[(k + plus) % d, k] = 1
    return m


_CACHE = {}


def single(kind, d, plus=0):
    key = (kind, d, plus)
    if key not in _CACHE:
        _CACHE[key] = (
            h_matrix(d) if kind == "h" else z_matrix(d) if kind == "z" else x_matrix(d, plus)
        )
    return _CACHE[key]


def on_registers(v, m, regs):
    """Applies matrix m to the listed registers (first one most significant)."""
    dims = v.shape
    k = len(regs)
    sub = [dims[r] for r in regs]
    t = m.reshape(sub + sub)
    out = np.tensordot(t, v, axes=(list(range(k, 2 * k)), list(regs)))
    return np.moveaxis(out, list(range(k)), list(regs))


def controlled_shift(v, controls, target, plus):
    dims = v.shape
    out = v.copy()
    at = [slice(None)] * len(dims)
    for c in controls:
        at[c] = dims[c] - 1
    at = tuple(at)
    axis = sum(1 for r in range(target) if r not in controls)
    out[at] = np.roll(v[at], plus % v.shape[target], axis=axis)
    return out


def apply(v, op, matrices=None):
    kind = op[0]
    if kind in ("h", "z"):
        return on_registers(v, single(kind, v.shape[op[1]]), [op[1]])
    if kind == "x":
        return on_registers(v, single("x", v.shape[op[1]], op[2]), [op[1]])
    if kind == "cx":
        return controlled_shift(v, [op[1][0]], op[1][1], op[2])
    if kind == "tof":
        return controlled_shift(v, op[1], op[2], op[3])
    if kind == "gate":
        return on_registers(v, matrices[op[1]], op[2])
    raise AssertionError(op)


def run(dims, init, ops, matrices=None):
    v = basis(dims, list(init) + [0] * (len(dims) - len(init)))
    for op in ops:
        v = apply(v, op, matrices)
    return v


def vkey(v):
    """Canonical, hashable form of a state vector (exact up to rounding at 1e-6)."""
    w = np.round(v.reshape(-1) * 1e6)
    return (v.shape, tuple((int(a.real), int(a.imag)) for a in w))


def registers(op):
    kind = op[0]
    if kind in ("h", "z", "x"):
        return [op[1]]
    if kind == "cx":
        return list(op[1])
    if kind == "tof":
        return list(op[1]) + [op[2]]
    return list(op[2])


def span(op):
    r = registers(op)
    return range(min(r), max(r) + 1)


def layers(n, ops):
    """The documented packing: a single-qudit X/Z/H joins the newest layer if its qudit is
    idle there, everything else opens a new layer (occupying its whole span)."""
    out = []
    busy = []
    for i, op in enumerate(ops):
        if op[0] in ("h", "x", "z") and out and op[1] not in busy[-1]:
            out[-1].append(op)
            busy[-1].add(op[1])
        else:
            out.append([op])
            busy.append(set(span(op)))
    return out
