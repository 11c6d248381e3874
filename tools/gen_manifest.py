"""Writes MANIFEST.json from the list of checks."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))

GRAPH = (
    "TLC enumerates and simulates graphs of spec/Graphs.tla (checking the laws of spec/Codec.tla on them); every graph is "
    "replayed into the library and TLC judges the recorded execution with spec/GraphTrace.tla"
)
NOTE = (
    "exhaustive up to the stated number of nodes or steps, sampled when the tier limits it, randomly simulated beyond; "
    "concrete classes and values are drawn from seeded pools"
)
GRAPHS = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C17 C18 C20 C23 C24 C26 C27 C29".split()
CHECKS = {p: (GRAPH, NOTE) for p in GRAPHS}
CHECKS["C27"] = (
    "TLC enumerates byte strings of spec/Bytes.tla and checks both text forms on them; the library writes and reads them and "
    "spec/BytesTrace.tla judges; then " + GRAPH,
    NOTE,
)
HISTORY = (
    "TLC enumerates all short and simulates long histories of {0} (checking its laws); every history is replayed into the "
    "library and TLC judges what was observed after each step with {1}"
)
CHECKS["C16"] = (HISTORY.format("the registry in spec/Registry.tla", "spec/RegistryTrace.tla"), NOTE)
CHECKS["C21"] = (
    HISTORY.format("arrays over shared memory in spec/Arrays.tla", "spec/ArraysTrace.tla"),
    NOTE + "; addresses of the elements of decoded arrays are compared with the cells of the model; arrays of objects have no views",
)
CHECKS["C22"] = (
    HISTORY.format("tables in spec/Frames.tla", "spec/FramesTrace.tla"),
    NOTE + "; known findings name the labels and categories that are not kept",
)
CHECKS["C28"] = (
    HISTORY.format("class definitions and instances in spec/Classes.tla", "spec/ClassesTrace.tla"),
    NOTE,
)
CHECKS["C19"] = (
    HISTORY.format("the backend manager in spec/Backends.tla", "spec/BackendsTrace.tla"),
    NOTE + "; backend modules are recording stand-ins",
)
CHECKS["C10"] = (
    HISTORY.format("one context in spec/Session.tla, with values and documents from spec/Graphs.tla", "spec/SessionTrace.tla"),
    NOTE,
)
CHECKS["C25"] = (
    "TLC enumerates schedules of concurrent and nested calls in spec/Interleave.tla (checking that no call sees another); "
    "threads are driven through every schedule at the library's callbacks, and each call is judged by spec/GraphTrace.tla "
    "as if it had run alone",
    NOTE + "; hand-over points are the callbacks of the library, plus runs without a schedule",
)
DOCS = (
    "TLC enumerates and simulates documents of spec/Docs.tla (checking its laws and those of spec/Codec.tla on them){0}; every "
    "document is written out, read by the library, and TLC judges the recorded result with spec/DocTrace.tla"
)
CHECKS["C12"] = (DOCS.format(", here those without tags"), NOTE + "; number and text limits come from seeded pools")
CHECKS["C13"] = (DOCS.format(" that mix malformed and well-formed parts"), NOTE)
CHECKS["C14"] = (
    DOCS.format(" with hostile texts in every place that holds text"),
    NOTE + "; evaluation is observed by an audit hook on compilation and by a canary module",
)
CHECKS["C15"] = (DOCS.format(" with supplied, importable and missing classes"), NOTE)
CHECKS["C11"] = (
    GRAPH + "; in addition documents of spec/Docs.tla, written without the encoder, are read and judged with spec/DocTrace.tla",
    NOTE,
)


def main():
    props = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    for p in props:
        if p not in CHECKS:
            continue
        technique, note = CHECKS[p]
        checks.append(
            {
                "property": p,
                "quick_cmd": f"sh harness/check.sh {p}",
                "thorough_cmd": f"sh harness/check.sh {p}",
                "evidence_file": f"evidence/{p}.json",
                "technique": technique,
                "level": "model_checking",
                "level_note": note,
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "sh harness/setup.sh",
        "checks": checks,
        "not_applicable": [
            {"property": p, "reason": "check not built yet"} for p in props if p not in CHECKS
        ],
        "notes": "All verdicts are computed by TLC from spec/*.tla; harness/ only executes and projects. See DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


main()
