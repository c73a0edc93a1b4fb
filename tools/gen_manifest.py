#!/usr/bin/env python3
"""write MANIFEST.json from the list of claimed checks"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

VF = ("static value-flow analysis: abstract interpretation of the source over a symbolic term domain (joins at merges, loop summaries), "
      "obligations decided by term normalisation against a declarative reference definition; nothing of the repository is executed")
AST = "static analysis: whole-program syntax-tree / call-graph rules over every module of the package"
MIX = VF + "; plus whole-program call-site rules over the syntax tree"

CLAIMED = {
    "C01": (VF, ""), "C10": (AST + ": call-site resolution through imports, aliases and partial applications, and constant propagation of the scheme argument through locals, parameters, attributes and returns", ""), "C11": (VF, ""), "C20": (VF, ""),
    "C28": (VF + "; names are token sequences whose languages are intersected as finite automata", ""),
    "C29": (VF + "; the bundled configuration and mesh files are read as data", ""), "C30": (VF, ""),
    "C09": (VF, ""), "C25": (VF, ""), "C02": (VF, ""), "C31": (AST + " (type inference, signature conformance), with the parser declarations followed symbolically", ""), "C08": (AST + " (sources of randomness, clocks and entropy; constant propagation of seeds), plus " + VF, ""), "C12": (VF, ""), "C15": (VF, ""), "C21": (VF, ""), "C13": (VF, ""), "C16": (VF, ""), "C17": (VF, ""), "C18": (VF, ""), "C19": (VF, ""), "C23": (VF, ""),
    "C06": (VF + "; write sets of concurrent workers compared pairwise for overlap, index lists for being a partition, small worker counts by evaluating the terms", ""),
    "C07": (VF + "; typestate of every shared-memory handle (create/attach, use, close, unlink) counted along the paths of a normal return", ""),
    "C03": (VF + "; file names are token sequences whose languages are intersected as finite automata", ""),
    "C04": (VF + "; every stored file is kept as a symbolic value under its symbolic name and fed back into a second symbolic run", ""),
    "C05": (VF + "; the lookup and every computation behind it run symbolically in each state of the published set and the local directory (all subsets of the stored files)", ""),
    "C24": ("angle-role and unit inference (dimensional analysis of value terms) over every call of symbolic runs of all entry points, plus comparison of the marked and the computed angle", ""),
    "C14": (VF, ""), "C22": (VF, ""), "C26": (VF, ""), "C27": (VF, ""),
}
NOT_YET = "a static rule for this property is planned but its check is not registered yet"
NA = {
    "C32": "orthonormality to rounding is a floating-point property of SSHT transforms and LAPACK eigensolutions (external compiled code, runtime error bounds); no sound static argument over the Python source reaches it",
    "C33": "accuracy of the closed-form coupling integrals and of the Wigner-3j sums is numerical analysis over all degrees (cancellation, external compiled pys2let/ssht code); source analysis cannot bound it",
    "C34": "a statement about the distribution of outcomes for signals 'concentrated in the region'; it depends on runtime signal statistics and is not implied by any property of the source",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in CLAIMED:
            tech, note = CLAIMED[i]
            d = {"property": i, "quick_cmd": f"python3 run.py --property {i} --tier quick",
                 "thorough_cmd": f"python3 run.py --property {i} --tier thorough", "technique": tech, "level": "other",
                 "level_note": note or "every obligation is decided for all inputs of the modelled domain; library calls (pyssht, pys2let, numpy, igl) are trusted operators with the listed semantics",
                 "evidence_file": f"evidence/{i}.json"}
            checks.append(d)
        else:
            na.append({"property": i, "reason": NA.get(i, NOT_YET)})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
