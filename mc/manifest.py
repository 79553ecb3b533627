"""Writes MANIFEST.json: python -m mc.manifest (run by hand when the claims change)."""

import json
import os
import subprocess
import sys

from mc import engine

T = "explicit enumeration of %s on the real code, each execution compared with an independent reference model"
TECH = {
    "C01": T % "all gate-call sequences up to a depth",
    "C02": T % "all (dimension, increment, level) triples and short gate sequences",
    "C03": T % "all CX placements, increments and basis states, and sequences around them",
    "C04": T % "all Toffoli control sets, orders, targets, increments and basis states, and sequences around them",
    "C05": T % "all gate-call sequences up to a depth (layer structure read back after every call)",
    "C06": T % "all gate-call sequences up to a depth, run on every backend (GPU ones over a stand-in array library)",
    "C07": T % "all support patterns and values of final state vectors and all reachable reports",
    "C08": "explicit enumeration of all histories (action sequences, two-circuit interleavings, three-circuit histories, failures and interruptions at every point) up to a depth on the real code against a reference model",
    "C09": "explicit enumeration of all call sequences up to a depth, measurement and runs included, on the real code against a state-machine model",
    "C10": T % "all invalid requests at every position of all short call sequences",
    "C11": T % "all QASM programs up to a length",
    "C12": T % "all programs of a set times all single and paired layout deviations",
    "C13": "explicit enumeration of all placements of all malformed lines in all short programs on the real reader; each must raise",
    "C14": T % "all reversible programs up to a length",
    "C15": "explicit enumeration of all base lists, indices and digit strings within bounds on the real conversion functions against positional arithmetic",
    "C16": T % "all custom-gate matrices of a set, placements and surrounding sequences",
    "C17": T % "all gate-call sequences up to a depth, statistics asked after every call",
    "C18": T % "all gate-call sequences up to a depth, the text drawing parsed back",
    "C19": T % "all gate-call sequences up to a depth, the graphical drawing's artists read back",
    "C20": "explicit enumeration of all call sequences up to a depth (valid or not) on two real circuits in lockstep, declared as tuple and as list, plus a reference model",
    "C21": "stateless exploration of the real threads under a controlled scheduler: all schedules up to a preemption bound, each in a fresh process, against each thread's solo result",
    "C22": "exhaustive fault enumeration on the real script: all assignments of good and bad contents to files, a failure at every backend call and file opening",
    "C23": "explicit enumeration of all sources made of up to k pieces and of all file placements, through check-fix-check-fix-check on the real script, against a model of the tool",
    "C24": "explicit enumeration of all Boolean inputs per size on the real simulator, and of the emitted gates as a transition system for larger sizes, bound to it by replay",
    "C26": T % "all gate-call sequences up to a depth (every layer and gate described by the code and by the model)",
    "C27": T % "all sequences of hand-made layers up to a depth and all divisions of them into calls",
    "C28": T % "all spellings of all gate calls and constructor arguments, at every place of short histories and in pairs (also against the plainly spelled circuit)",
    "C25": "explicit enumeration of all placements of saved results and of a catalogue of odd names, saved and listed by the real script, the listing compared with the saved files",
}
NOTE = (
    "Exhaustive within the bounds printed in the evidence file (quick and thorough differ only in bounds); nothing is sampled and no unit is cut short. "
    "Trusted: the reference model in mc/, numpy and the interpreter."
)


def attributes(prop):
    """Each module in its own process: some insist on importing qudiet themselves."""
    out = subprocess.run(
        [sys.executable, "-c", "import importlib, json, sys; m = importlib.import_module('mc.props.' + sys.argv[1]); print(json.dumps([m.LEVEL, list(m.ASSUMPTIONS), m.BOUNDS('quick'), m.BOUNDS('thorough')]))", prop.lower()],
        cwd=engine.VERIF, check=True, capture_output=True, text=True,
    ).stdout
    return json.loads(out.splitlines()[-1])


def main():
    checks = []
    bounds = ["# Bounds", "", "Generated by `python -m mc.manifest`. Every check explores the whole of what is listed for its tier.", ""]
    for prop in sorted(TECH):
        level, assumptions, quick, thorough = attributes(prop)
        bounds += [f"## {prop}", "", f"Quick: {quick}.", "", f"Thorough: {thorough}.", ""]
        note = NOTE + (" " + "; ".join(assumptions) + "." if assumptions else "")
        if prop in ("C14", "C24"):
            note += " One known finding is listed in KNOWN_FINDINGS.txt."
        checks.append({
            "property": prop,
            "quick_cmd": f"bash check.sh {prop} quick",
            "thorough_cmd": f"bash check.sh {prop} thorough",
            "evidence_file": f"evidence/{prop}.json",
            "technique": TECH[prop],
            "level": level,
            "level_note": note,
        })
    manifest = {
        "version": 1,
        "setup_cmd": "bash check.sh setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is driven through public interfaces, and threads through sys.monitoring. A check imports /repo/src directly, so nothing is built.",
    }
    with open(os.path.join(engine.VERIF, "BOUNDS.md"), "w") as f:
        f.write("\n".join(bounds))
    with open(os.path.join(engine.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
