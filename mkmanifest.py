#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = "property-based testing over generated declarations: seeded grammar of derive inputs, compiled and driven by proptest, "
NOTE = ("Holds on every generated declaration and case of the run, nothing beyond; trusts the reference layout in bdw/model.py (read off the "
        "documentation, agreeing with the existing tests) and the glue in bdw/emit.py.")
T = {
    "C01": "round trip", "C02": "compared with a reference model of the bit layout", "C03": "compared with a reference model of the bit layout",
    "C04": "compared with a reference model and with the relocated positions", "C05": "sequences of writes compared with a model bit array",
    "C06": "differential: readers against from_bytes, writers against into_bytes", "C07": "compared with two's complement and char models on out-of-range inputs",
    "C08": "compared with a reference model of element positions", "C09": "compared with the inner declaration's own encoding at model positions",
    "C10": "compared with a reference model of which fields are encoded and decoded", "C11": "size constants compared with a model; accept/reject pairs of declarations",
    "C12": "metamorphic accept/reject pairs: one generated contradiction put into a generated valid declaration",
    "C13": "every id (or sampled ids) compared with a model of id assignment", "C14": "round trip and reference layout of enums",
    "C15": "capture model and round trip over unknown ids", "C16": "sequences of enum writes compared with a model bit array",
    "C17": "slices of every length against the array functions and a length model, stateful sequences through checked views",
    "C18": "slices and vectors of every length against from_bytes, streams of values", "C19": "hex of every case against a model, injected invalid characters and lengths",
    "C20": "all 256 primitives against a model of value assignment", "C21": "compared with a reference model of the primitive's bits",
    "C22": "the same declarations and cases under every allowed feature set, and type checked in no_std crates",
    "C23": "comparison against id() and the encoded id",
    "C24": "the same reference models with adversarial field names, items in scope, visibilities and attributes of others",
    "C25": "metamorphic: several expansions of each generated declaration, in other processes and orders, compared as text; an invariant over it",
}
NOTES = {
    "C12": "Every rejected declaration differs from an accepted one by one contradiction of a listed kind; contradictions not listed are not looked for.",
    "C22": "All feature sets which can be chosen together with derive (8 explored), and 4 without it only built.",
}
checks = [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
           "technique": GEN + t, "level": "exploration", "level_note": NOTE + (" " + NOTES[p] if p in NOTES else "")} for p, t in sorted(T.items())]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "mkdir -p build evidence && python3 --version && cargo --version", "checks": checks, "not_applicable": [],
               "notes": "No hooks: the checks use the public API of both crates only. Repairs of genuine defects are listed in known_findings.json."}, f, indent=1)
    f.write("\n")
