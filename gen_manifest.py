#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
EX = " (exact arithmetic, rounding apart)"
NOTE = ("Every claim on every path of the compiled library code is shown by an SMT solver for all real inputs within the "
        "bounds in the evidence. Trusted: exact-real reading of the scalar operations (rounding is outside), the axioms for "
        "sin/cos/acos/asin/atan2/exp/ln in DESIGN.md, rustc, and the solvers.")
KNOTE = ("Bit-precise bounded model checking of the compiled f32/f64 code by CBMC (through Kani) over all bit patterns within "
         "the bounds in the evidence. Trusted: Kani's translation of MIR and CBMC's float encoding.")
TECH = "symbolic execution of the compiled generic code (symbolic scalar type) + SMT (nonlinear real arithmetic, z3/cvc5)"
KTECH = "bounded model checking of the compiled code (Kani/CBMC), bit-precise floats"

def P(id, title, statement, over, files, mech, why, technique=TECH, note=NOTE, na=None):
    return dict(id=id, title=title, statement=statement, over=over, files=files, mech=mech, why=why,
                technique=technique, note=note, na=na)

MATS = ["src/matrix2x2.rs", "src/matrix3x3.rs", "src/matrix4x4.rs", "src/matrix5x5.rs", "src/matrix6x6.rs"]
VECS = ["src/vector2.rs", "src/vector3.rs", "src/vector4.rs", "src/vector5.rs", "src/vector6.rs"]
SAMPLE = "The unit tests compare one or two fixed numeric examples per operation; the claim is about every entry of every operand."

T = []
exec(open(os.path.join(HERE, "properties_table.py")).read())

def main():
    ids = [p["id"] for p in T]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in T:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"][0], "text": p["over"][1]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in T:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "./run.sh %s quick" % p["id"],
            "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        })
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the harness crate instantiates the public generic API. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
