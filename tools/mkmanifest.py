"""Write MANIFEST.json from the check modules that exist and properties.jsonl."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "C01": "runtime monitoring: nodality oracle applying published node data to tabulated values of real elements",
    "C02": "runtime monitoring: exact polynomial reconstruction oracle over tabulation events",
    "C03": "runtime monitoring: span comparison of tabulated bases with independently built spaces",
    "C04": "runtime monitoring: exactness oracle over every quadrature rule constructed, plus hooked rule constructors",
    "C05": "runtime monitoring: geometry and topology oracle over cells, entity maps, normals, tangents, lattices",
    "C06": "runtime monitoring: entity table and node locality oracle over elements",
    "C07": "runtime monitoring: trace oracle over tabulation events on shared entities and cell patches",
    "C08": "runtime monitoring: differential oracle between entity tabulation and mapped cell tabulation",
    "C09": "runtime monitoring: orthogonality, hierarchy and identity oracles over expansion sets and Jacobi calls",
    "C10": "runtime monitoring: reference-model oracle (own outer products and rotations of factor tabulations)",
    "C11": "runtime monitoring: reference-model oracle (own direct sums, products and subsets of part tabulations)",
    "C12": "runtime monitoring: state digests and history shuffling with hooked argument monitors over call traces",
    "C13": "runtime monitoring: support oracle by sampling tabulated values on every entity",
    "C14": "runtime monitoring: metamorphic oracle across affine images of the cell",
    "C15": "runtime monitoring: reference-model oracle for each functional kind on random fields",
    "C16": "runtime monitoring: facet-wise reference-model oracle for trace elements",
    "C17": "runtime monitoring: rejection oracle over hostile requests",
    "C18": "runtime monitoring: projection and commuting-diagram oracle over interpolation runs",
    "C19": "runtime monitoring: lumped mass oracle over companion quadrature rules",
    "C20": "runtime monitoring: metadata oracle plus hooked tabulate events",
    "C21": "runtime monitoring: high-degree stress with accuracy oracles",
}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "fiatmon", "checks", i.lower() + ".py")
    if os.path.exists(f):
        tree = ast.parse(open(f).read())
        ass = next((ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign)
                    and n.targets[0].id == "ASSUMPTIONS"), [])
        checks.append({
            "property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
            "technique": TECH[i], "level": "exploration",
            "level_note": "Held on the executions observed (counts in the evidence file); says nothing about inputs not "
                          "driven. Trusts numpy and the reference computations in fiatmon/. " + "; ".join(ass)})
    else:
        na.append({"property": i, "reason": "not claimed: no check has been built yet"})
man = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
       "notes": "All hooks are installed from outside by fiatmon/hooks.py; /repo carries only fix commits."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
