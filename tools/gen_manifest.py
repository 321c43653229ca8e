#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a finished check."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
CLAIMED = open(ROOT + "/tools/claimed.txt").read().split()
TECH = {
 "C01": "property-based round-trip and differential testing over generated payloads, codecs and filters",
 "C02": "property-based testing against a bit-exact reference matcher and encoding round-trips",
 "C03": "round-trip property testing and structure-aware JSON mutation fuzzing",
 "C04": "model-based property testing of filter stores against a reference predicate",
 "C05": "property-based metamorphic testing of contains_filter against the store's own predicate",
 "C06": "differential property testing of the two filter stores",
 "S01": "stateful model-based testing over generated fork trees and message histories",
 "S02": "stateful invariant testing over adversarial message histories",
 "S03": "stateful model-based testing over fork trees with competing writes",
 "S04": "stateful differential testing of program queries against account reads",
 "S05": "stateful model-based testing of creation, owner change and deletion histories",
 "S06": "stateful model-based testing of notification results",
 "S07": "round-trip and merge property testing plus snapshot byte fuzzing",
 "S08": "stateful model-based testing of one account's states",
 "S09": "generated schedules: callback-injected interleavings and parallel stress with a sequential oracle",
 "S10": "stateful model-based testing over fork trees with writes on forks that lose",
 "R01": "stateful differential testing of the dispatcher against reference stores",
 "T01": "round-trip property testing over all token account shapes",
 "T02": "round-trip property testing and byte fuzzing of the token decoders",
 "T03": "stateful model-based testing against a map",
 "T04": "stateful model-based testing over fork trees",
 "T05": "stateful model-based testing of queries",
 "T06": "stateful model-based testing of closing and re-creation",
 "T09": "stateful model-based testing of notification results over fork trees",
 "T07": "round-trip and merge property testing plus snapshot byte fuzzing",
 "T08": "generated schedules: readers injected at every step of finalization",
 "T10": "stateful model-based testing of the exported gauges over fork trees and snapshot loads",
 "S12": "stateful model-based testing of the exported gauge over histories with removals and snapshot loads, and parallel histories",
    "S11": "metamorphic test over long generated histories: live heap bytes after many repetitions of a round of messages",
 "T12": "metamorphic test over long generated histories: live heap bytes after many repetitions of a round of messages",
 "D05": "metamorphic test: live heap bytes after many repetitions of a generated list of queries and failing loads",
 "D06": "differential testing of generated histories against a plain store",
 "T11": "generated schedules: snapshots taken at every step of finalization and under parallel stress",
 "D01": "stateful model-based testing against a mock source",
 "D02": "stateful fault-injection testing against a mock source",
 "D03": "generated schedules: queries injected into a running load",
 "D04": "stateful model-based testing of on-demand loads overtaken by the stream of a chain",
 "A03": "model-based property testing of RPC requests over generated storage contents",
 "A04": "stateful model-based testing of the running program over generated archives and message streams",
 "A01": "round-trip property testing and byte-level fuzzing of the parser",
 "A02": "generated snapshot archives with injected truncation and corruption",
}
NOTE = {
 "A": "Runs the real snapshot_utils sources compiled against stand-ins for the two solana-runtime crates this sandbox lacks; ",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": NOTE.get(i[0], "") + "generated-input search with shrinking against an independent oracle on the real code; no exhaustiveness claim. Trusts the oracle in the harness, the generators' domain stated in DESIGN.md, and the Rust toolchain.",
        })
    else:
        na.append({"property": i, "reason": "check still under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses public API only. Known findings and repaired defects: known_findings.txt. Replays: build/target/debug/lam-harness replay FILE."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
