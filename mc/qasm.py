"""QASM texts: a writer with layout options, and what the program means.

A program is (declarations, instructions): declarations are dimensions by index; an
instruction is ["X", r] ["X", r, p] ["RX", r] ["H", r] ["Z", r] ["CX", c, t] ["CX", c, t, p]
["CNOT", c, t] ["CNOT", c, t, p] ["Toffoli", c1, ..., t]."""

from mc import ref

CANONICAL = {
    "lead": "\n",
    "header": "qudit",
    "declare": "mixed",      # qubit / qutrit / qudit spelling by dimension
    "decl_order": "up",
    "prefix": "x",
    "case": "upper",
    "sep": " ",
    "indent": "",
    "trail": "",
    "newline": "\n",
    "blank": "",             # inserted between lines
    "comment": "",           # trailing comment on every line
    "between": "",           # comment line between lines
    "end": "\n",
}
OPTIONS = {
    "lead": ["", "\n\n\n", "# made by hand\n", "\n# X x0\n\n", "  \n"],
    "header": ["qubit", "qutrit"],
    "declare": ["qudit"],
    "decl_order": ["down", "rotated"],
    "prefix": ["X", "q", "", "Q", "anc", "RX"],
    "case": ["lower", "title"],
    "sep": [",", ", ", "  ", " , ", "\t"],
    "indent": ["  ", "\t"],
    "trail": [" ", "   ", "\t"],
    "newline": ["\r\n"],
    "blank": ["\n", "\n\n", " \n"],
    "comment": [" # note", "# X x0", " #.begin", " # CX x0 x1 # H x0", " # ü |0⟩", "#"],
    "between": ["# note\n", "   # X x0\n", "#.end\n"],
    "end": ["", "\n\n", "\n# done\n"],
}


def operands(ins):
    """(mnemonic, registers, increment or None)"""
    name = ins[0]
    if name == "Toffoli":
        return name, ins[1:], None
    k = 2 if name in ("CX", "CNOT") else 1
    return name, ins[1 : 1 + k], (ins[1 + k] if len(ins) > 1 + k else None)


def line(ins, o):
    name, regs, p = operands(ins)
    shown = {"upper": name, "lower": name.lower(), "title": name.title()}[o["case"]]
    parts = [o["prefix"] + str(r) for r in regs]
    if name == "RX":
        parts.append("180")
    if p is not None:
        parts.append(str(p))
    return shown + " " + o["sep"].join(parts)


def text(dims, program, extra_lines=(), **options):
    """extra_lines: [(position among the instructions, raw line)]."""
    o = dict(CANONICAL, **options)
    decls = []
    for i, d in enumerate(dims):
        kind = {2: "qubit", 3: "qutrit"}.get(d) if o["declare"] == "mixed" else None
        decls.append(f"{kind} {o['prefix']}{i}" if kind else f"qudit {o['prefix']}{i} ({d})")
    if o["decl_order"] == "down":
        decls.reverse()
    elif o["decl_order"] == "rotated":
        decls = decls[1:] + decls[:1]
    body = [line(ins, o) for ins in program]
    for at, raw in sorted(extra_lines, reverse=True):
        body.insert(at, raw)
    out = o["lead"]
    lines = [f".{o['header']} {len(dims)}"] + decls + [".begin"] + body + [".end"]
    for i, l in enumerate(lines):
        last = i + 1 == len(lines)
        out += o["indent"] + l + o["trail"] + o["comment"]
        out += o["end"] if last else "\n" + o["blank"] + o["between"]
    return out.replace("\n", o["newline"]) if o["newline"] != "\n" else out


def widened(dims, program):
    """One extra level for every qudit used as the last control of a Toffoli."""
    last = {ins[-2] for ins in program if ins[0] == "Toffoli"}
    return tuple(d + 1 if i in last else d for i, d in enumerate(dims))


def calls(program):
    """The gate calls the program spells out."""
    out = []
    for ins in program:
        name, regs, p = operands(ins)
        p = 1 if p is None else p
        if name in ("X", "RX"):
            out.append(["x", regs[0], p])
        elif name in ("H", "Z"):
            out.append([name.lower(), regs[0]])
        elif name == "Toffoli":
            out.append(["tof", regs[:-1], regs[-1], 1])
        else:
            out.append(["cx", list(regs), p])
    return out


def meaning(dims, program):
    w = widened(dims, program)
    return ref.run(w, [0] * len(w), calls(program))


def boolean(n, program):
    """Final bits of a reversible program on n qubits, from all zeros."""
    bits = [0] * n
    for ins in program:
        name, regs, _ = operands(ins)
        if all(bits[r] for r in regs[:-1]):
            bits[regs[-1]] ^= 1
    return tuple(bits)


def read_plain(data):
    """A reader of the plainly laid out testbench programs, independent of the parser:
    (dims by index, program), or None for a program using something unsupported."""
    section, dims, program = "head", {}, []
    for raw in data.splitlines():
        words = raw.split("#")[0].replace(",", " ").split()
        if not words:
            continue
        if words[0].startswith("."):
            section = {".begin": "body", ".end": "done"}.get(words[0].lower(), "decl")
        elif section == "decl":
            i = int("".join(c for c in words[1] if c.isdigit()))
            d = {"qubit": 2, "qutrit": 3}.get(words[0]) or int(words[2].strip("()"))
            dims[i] = d
        elif section == "body":
            num = [int(w.lstrip("xXqQ")) for w in words[1:]]
            name = words[0].upper()
            if name == "TOFFOLI":
                program.append(["Toffoli"] + num)
            elif name == "RX" and num[1:] == [180]:
                program.append(["RX", num[0]])
            elif name in ("X", "H", "Z", "CX", "CNOT"):
                program.append([name] + num)
            else:
                return None
    return [dims[i] for i in range(len(dims))], program
