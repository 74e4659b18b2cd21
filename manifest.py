#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property modules present (run by hand)."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C01": ("stateful property-based testing: random mutation histories, tree invariant read raw after every step",
         "histories up to 12 ops, depth<=3, shape<=10"),
 "C02": ("stateful property-based testing: rank lists vs an identity walk of the tree after constructors, transforms and mutation histories",
         "histories up to 10 ops, depth<=3"),
 "C03": ("model-based property testing: accessor histories against a dict-of-points model", "depth<=3"),
 "C04": ("property-based testing against set truth tables computed from raw trees, plus exhaustive small pairs", "fibers of up to 10 coordinates, up to 4 operands"),
 "C05": ("model-based property testing: populate loops with generated body programs against a dict model", "depth<=3"),
 "C06": ("differential/metamorphic property testing: generated kernels x loop orders x tilings against a dense evaluation", "up to 4 index variables, shapes<=5"),
 "C07": ("property-based testing of every traversal mode against the raw element list", "fibers of up to 12 coordinates"),
 "C08": ("property-based testing of splits against partitions recomputed from the element list", "depth<=3"),
 "C09": ("property-based testing of rank transforms against the image of the content under the coordinate map", "depth<=4"),
 "C10": ("property-based testing with structural and identity snapshots around every operation", "depth<=3"),
 "C11": ("exhaustive operator/operand-kind table with generated values; fiber arithmetic vs dense model", "ints and floats"),
 "C12": ("property-based testing: equality/emptiness/count vs independently extracted content", "depth<=3"),
 "C13": ("round-trip property testing of nests, YAML, dictionaries and random construction", "depth<=4"),
 "C14": ("property-based testing of metadata of constructors, transforms and lazy results against values computed from the operand", "depth<=4"),
 "C15": ("property-based testing: generated kernels instrumented by the harness, counts and results with metrics on/off", "up to 3 loop ranks"),
 "C16": ("property-based testing: generated traced kernels, trace files against a recorded event history", "up to 3 loop ranks"),
 "C17": ("property-based testing against reference buffet/Belady simulators and brute force", "traces up to 40 accesses"),
 "C18": ("property-based testing against footprints summed from a raw walk", "depth<=3"),
 "C19": ("property-based testing against reference merges and swap counts", "fibers of up to 12 coordinates"),
 "C20": ("round-trip property testing: decode by layout, slice scan and lookups of every format descriptor", "depth<=3"),
}
checks = []
for pid, (tech, note) in TECH.items():
    if not os.path.exists(os.path.join(here, "ftv", pid.lower() + ".py")):
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} quick",
        "thorough_cmd": f"./check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "./check selftest", "checks": checks, "not_applicable": []},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
