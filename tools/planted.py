#!/usr/bin/env python3
"""
Write the table of planted bugs (from seeded/*/meta.json) into DESIGN.md.
"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # what was added to the checks that missed a bug at first
    "F01-vacuous-parts": "parts that cancel each other",
    "X04-grouped": "parts of the samples are tested as well",
    "K06-message-evidence": "clusters with three to five observed variables",
    "M01-square": "mixtures multiplied by themselves",
    "M01-log-underflow": "mixtures of 17 to 110 components",
    "K08-inf-stop": "a run that ends early must have converged",
    "K08-keep-possible": "constraints between most pairs of five or six variables",
    "K07-kl-raw": "ids and factors vary independently", "K07-answer-evidence": "hidden variables to observe, answers to every neighbour at the end",
    "C05-argmax-underflow": "tables shifted by a constant",
    "C07-inplace-normalize": "tables shifted by a constant",
    "N01-noise-diag": "more conditional variables",
    "N02-weight-conditional": "the `waiting` sub-check",
    "X05-evidence-falsy": "observed values of zero as floats",
    "C02-cancel-underflow": "tables with values in the hundreds (quotients under- and overflow)",
    "K05-tol-equal": "a run whose tolerance is a distance that was recorded before",
    "X01-evidence-dict": "the argument lists and dictionaries are watched",
    "C05-kl-flush": "factors that are almost equal",
    "G01-inv-diagonal": "units of measurement",
    "X04-rounded": "samples drawn in small portions",
    "X04-jitter": "variables of very small and large scale",
    "X03-cards-first": "conflicts in any of the shared variables",
    "X07-xlim-ends": "narrow and wide components",
    "K01-mod-id": "the `many_factors` sub-check",
    "K05-budget": "repeated runs, each with its own limit",
    "K05-distances": "repeated runs, distances of each",
    "M01-near-divide": "mixtures in other units",
    "N02-weak-input": "nonlinear Gaussians in other units",
    "M02-cov-floor": "mixtures in other units",
    "K05-reverse-kl": "an own KL oracle for every information gain",
}
START, END = "<!-- planted bugs -->", "<!-- end -->"


def main():
    rows = ["| bug | what breaks | needs | caught by |", "|---|---|---|---|"]
    for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        name = os.path.basename(os.path.dirname(path))
        meta = json.load(open(path))
        caught = meta["property"] + (f" (missed first; added: {MISSED[name]})" if name in MISSED else "")
        if meta.get("missed"):
            caught = "**no check**: " + meta["missed"]
        cells = [name, meta["what_it_breaks"], meta["needs"], caught]
        rows.append("| " + " | ".join(c.replace("|", "\\|").replace("\n", " ") for c in cells) + " |")
    path = os.path.join(ROOT, "DESIGN.md")
    text = open(path).read()
    if START not in text:
        text = text.replace("PLANTED_TABLE", START + "\n" + END)
    head, rest = text.split(START)
    tail = rest.split(END)[1]
    open(path, "w").write(head + START + "\n" + "\n".join(rows) + "\n" + END + tail)


if __name__ == "__main__":
    main()
