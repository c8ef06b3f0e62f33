#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os

BASE = ("The specification modules are checked exhaustively by TLC within the bounds in the evidence file; the library, built with and "
        "without overflow checks, is bound to them by validating recorded histories of public calls against the specification with exact "
        "rational arithmetic. Trusts TLC, the recorder and rustc; the library is sampled, not exhausted.")
NOTES = dict(
    C01="Machine (ratio) is exhaustive for a small word; real ratios are enumerated near zero and at the ends of the integer range and sampled in between.",
    C02="Machine is checked to deliver exactly the remaining symbols, after its end too; real extraction is chopped at random and continued past the end.",
    C03="The comparison machine is checked against the rational order for all pairs of small fractions; real comparisons include Farey neighbours up to 62 bits.",
    C04="The coefficient machine refines the exact quotient for all small coefficients and operands; real functions are sampled, aimed at boundary results.",
    C05="The coefficient machine refines the exact quotient for (sampled) small coefficients; real combinations are sampled, aimed at boundary results.",
    C06="The store model shows results depend on values only; real expression trees and TLC-generated histories are validated.",
    C07="The consuming machine keeps the identity at every step in the model; real results satisfy the identity with exact arithmetic.",
    C08="The machine reports a zero denominator exactly at poles in the model; real poles, near-poles and vanishing denominators are enumerated and sampled.",
    C09="The machine with tiny words is fail-stop in the model for all (sampled) coefficients; real runs use 20 to 63 bit integers in both build profiles.",
    C10="The machine does not overflow for small inputs in the model (scaled bounds); real inputs are extreme and random members of the stated envelope.",
    C11="The store model has the isolation property; real interleavings, crowds of up to 1100 Numbers, lives that end in a panic and TLC-generated histories are validated and repeated in another order beside other threads and 70000 idle Numbers.",
    C12="Trace validation only: every recorded call must have written nothing; there is no state to model-check.",
    C13="The store model shows head and value determine each other; real results are aimed at -1, 0, 1 and their neighbourhood.",
    C14="Coding and decoding are checked to be inverse for all short sequences and small denominators; all short sequences are built for real.",
    C15="The writing of a line is checked to be unambiguous and to end in the model (small word); the real output of both builds is validated letter by letter.",
    C16="The sizes of Numbers are model-checked to grow only by building; the bytes that the real library holds, counted by the driver's allocator after every call and at their highest, are validated against them, and nothing may be left at the end.",
    C17="The machine is fail-stop in the model with tiny words, whatever the build; every recorded history of the build with checks must equal that of the build without, call by call.",
    C18="The machine does not overflow on these functions in the model, with words only just wider than the coefficients, for all operands in a box; real operands span the whole integer range, with common factors up to 2^56 and chains of up to nine such operations.")
TECH = dict(C12="TLC trace validation of recorded calls against the TLA+ specification (silent steps)")
checks = []
for p, n in NOTES.items():
    checks.append(dict(property=p, quick_cmd=f"python3 tools/check.py {p}", thorough_cmd=f"python3 tools/check.py {p}",
                       evidence_file=f"evidence/{p}.json",
                       technique=TECH.get(p, "TLA+ model checked with TLC; recorded executions of the library validated against it by TLC"),
                       level="exploration" if p == "C12" else "model_checking", level_note=n + " " + BASE))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks use the public interface only. Known findings are in known-findings.txt.")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
