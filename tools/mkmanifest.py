#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Exhaustive within the bounds that the evidence lists; the real code is built from the working tree with debug "
          "assertions and run on every case. ")
MODEL = COMMON + "Trusts the reference model (harness/src/model.rs), which is written from the documentation. Says nothing about cases outside the bounds."
T = {
 "C01": ("exhaustive texts on the real reader, with a checking stream", COMMON + "Undefined behaviour is seen through the checks of the standard library and of the checking stream."),
 "C02": ("exhaustive texts, invariants on the real events", COMMON + "No model is involved in the verdict."),
 "C03": ("exhaustive trees and layouts against the tree itself", COMMON + "The oracle is the tree that was written out."),
 "C04": ("exhaustive construct sequences against a reference model", MODEL),
 "C05": ("exhaustive texts against a reference model", MODEL),
 "C06": ("exhaustive texts against a reference model and the text without comments", MODEL),
 "C07": ("all Unicode characters in all name places against the XML table", MODEL),
 "C08": ("exhaustive texts against a reference model", MODEL),
 "C09": ("exhaustive construct sequences against a reference model", MODEL),
 "C10": ("exhaustive operation sequences against a reference model", COMMON + "Trusts the stack model in harness/src/names.rs."),
 "C11": ("exhaustive operation sequences against a reference model", COMMON + "Trusts the map model in harness/src/names.rs."),
 "C12": ("exhaustive documents through the XML writer and reader", COMMON + "Trusts the reader of xml-rs."),
 "C13": ("exhaustive documents and configurations through the real program", COMMON + "Trusts the reader of xml-rs and the reference model."),
 "C14": ("exhaustive strings and masks against a definition", COMMON),
 "C15": ("exhaustive strings and all numbers against a definition", COMMON),
 "C16": ("exhaustive strings and all numbers against a definition", COMMON + "Uses the hook to reach the module."),
 "C17": ("exhaustive texts on all position types and streams", COMMON + "No model is involved in the verdict."),
 "C18": ("exhaustive histories and interleavings of readers", COMMON + "The oracle is the text read alone."),
 "C19": ("exhaustive operation sequences against a reference model", COMMON + "Trusts the map model in harness/src/names.rs."),
 "C20": ("exhaustive texts against a reference model", MODEL),
 "C21": ("exhaustive errors and texts against what the error was made from", COMMON + "No model is involved in the verdict."),
 "C22": ("exhaustive texts with a stream that counts", COMMON + "No model is involved in the verdict."),
}
done = sys.argv[1:] or sorted(T)
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {"guard": "cfg(hml_verif)", "enable": 'RUSTFLAGS="--cfg hml_verif"', "source_commits": ["c919c0e21ff3d915a659d55efe00dd8aabd22ece"]},
 "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p,
             "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in done],
 "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in sorted(T) if p not in done],
 "notes": "Every check builds harness/ against /repo and explores its spaces exhaustively; see DESIGN.md.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
