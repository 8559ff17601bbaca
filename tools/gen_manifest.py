#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of claimed checks below."""
import json, re, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
T = "explicit enumeration of executions of the real prover/verifier (stateless model checking), "
CLAIMS = {
 "P01": T + "oracle: direct row evaluator",
 "P02": T + "oracle: direct row evaluator; every single and cancelling violation",
 "P03": T + "all permutations of small grids",
 "P04": T + "all inconsistent assignments and a dishonest-prover menu of running products",
 "P05": T + "all inputs and tables over a small alphabet",
 "P06": T + "all missing values and a dishonest-prover menu of rearrangements and running products",
 "P07": "fault enumeration over every element of accepted proofs, each verified by the real verifier",
 "P08": "exhaustive edit sequences (depth 1 and 2) over every list of accepted proofs",
 "P09": "enumeration of every neighbouring statement of accepted statements, and an adaptive prover",
 "P10": "exhaustive comparison of recorded transcripts over every message change",
 "P11": "all query patterns up to k polynomials; all false claims from a small menu",
 "P12": "enumeration of constraint systems, oracle: degree and coset arithmetic in the reference",
 "P13": "exhaustive over columns, offsets, positions; oracle: index arithmetic",
 "P14": "exhaustive over all input/table pairs of small length",
 "P15": "exhaustive over wire values; oracle: the documented formula",
 "P16": "exhaustive over expression trees; oracle: independent evaluator",
 "P17": "exhaustive over gate systems and assignments, differential against the reference and the real prover",
 "P18": "exhaustive over small polynomials and scalars",
 "P19": "exhaustive over input histories up to a depth",
 "P20": "enumeration of every random draw of a proving run and its effect on every message",
 "P21": "exhaustive truncations and byte changes of written proofs",
 "P22": "exhaustive operation histories up to a depth over shared objects, differential against fresh objects",
 "P23": "enumeration of ill-formed configurations",
 "P25": "exhaustive over equivalent descriptions (names, keys, declarations, rewritings), differential between descriptions and against the reference evaluator",
 "P24": "exhaustive over assignments of small systems, differential between proofs of one system",
}
NOTE = "Every case inside the stated bounds is executed on the real code; outside the bounds (longer domains, other values) nothing is claimed. Trusts the reference evaluator, the toy field and the ideal commitment of the harness, which are cross-checked against BLS12-381/KZG10 runs."
main = open(f"{here}/mc/src/props/mod.rs").read()
built = set(re.findall(r'"(P\d\d)" =>', main))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if " verif:" in l]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick mc/check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough mc/check.sh {i}",
                       "technique": "model checking: " + CLAIMS[i], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "mc/setup.sh",
     "hooks": {"guard": "cfg(zok_verif)", "enable": "RUSTFLAGS=\"--cfg zok_verif\" (mc/env.sh)", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known findings in known_findings.txt"}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
