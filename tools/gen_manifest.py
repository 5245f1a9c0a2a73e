#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
GRAPH = ("explicit-state model checking of the real implementation: breadth-first enumeration of all operation "
         "histories up to a depth bound with state deduplication, every transition judged")
EXH = "bounded exhaustive enumeration (explicit-state) of the real implementation against "
G_NOTE = ("Every history over the stated operations, node pools and depths is executed on the real PlanarGraph; each "
          "state is reached by replaying its history on a fresh graph, and that replay must reproduce the state. "
          "Bounded: small node pools, depth-limited; features between rounding and 1e-4 of the extent apart get no verdict.")
E_NOTE = "Complete within the stated finite input domains (listed in the evidence file); nothing is claimed outside them."
T = {
 "C01": ("model_checking", GRAPH + " against a planarity invariant", G_NOTE),
 "C02": ("model_checking", GRAPH + " for panics, hangs, dangling indices and effects of invalid indices", G_NOTE),
 "C03": ("model_checking", GRAPH + " against a reference model of insertion", G_NOTE),
 "C04": ("model_checking", GRAPH + " against a reference model of removal", G_NOTE),
 "C05": ("model_checking", GRAPH + ": change reports compared with the actual slot differences", G_NOTE),
 "C06": ("model_checking", GRAPH + ": every query with every argument in every reached state", G_NOTE),
 "C07": ("exploration", EXH + "exact integer geometry, all point triples and segment pairs of bounded lattices", E_NOTE),
 "C08": ("exploration", EXH + "exact geometry, all simple lattice polygons, rotations, directions and transform sequences within bounds", E_NOTE),
 "C09": ("exploration", EXH + "exact geometry, all vertex pairs of all simple lattice polygons within bounds", E_NOTE),
 "C10": ("exploration", EXH + "exact partition conditions, all simple lattice polygons within bounds", E_NOTE),
 "C11": ("exploration", EXH + "exact geometry, all pairs of segments and lines of bounded lattices", E_NOTE),
 "C12": ("exploration", EXH + "exact geometry, all point triples of bounded lattices", E_NOTE),
 "C13": ("exploration", EXH + "the defining equations, all segments and direction pairs of bounded lattices", E_NOTE),
 "C14": ("exploration", EXH + "exact membership, all segment/point and line/point configurations of bounded lattices and scales", E_NOTE),
 "C15": ("exploration", EXH + "the definition, all point lists up to a length over bounded point sets", E_NOTE),
 "C16": ("exploration", EXH + "an independent Cl(3,0) multiplication table, all operand pairs over a component alphabet", E_NOTE),
 "C17": ("exploration", EXH + "the graded parts of the Cl(3,0) product, all operand pairs over a component alphabet", E_NOTE),
 "C18": ("exploration", EXH + "the defining equations, all operands over a component alphabet", E_NOTE),
 "C19": ("exploration", EXH + "rotation matrices, all unit rotors of a finite set, all products up to a length", E_NOTE),
 "C20": ("exploration", EXH + "the promised rotation, all vector pairs and angle/plane pairs of finite sets", E_NOTE),
 "C21": ("exploration", EXH + "Euclidean geometry, all operand pairs over a component alphabet and scales", E_NOTE),
 "C22": ("exploration", EXH + "component-wise arithmetic, all operand pairs over component alphabets", E_NOTE),
 "C23": ("exploration", EXH + "Pascal's triangle, all arguments whose result fits the integer type", E_NOTE),
 "C24": ("exploration", EXH + "the document that was written, all key sets, orders, value shapes and sizes within bounds", E_NOTE),
 "C25": ("exploration", EXH + "identity, all field combinations, value shapes and round-trip sequences within bounds", E_NOTE),
 "C26": ("fault_enumeration", "exhaustive fault enumeration on the real implementation: every cut-off point, every altered byte and every wrong-kind value of a set of documents", E_NOTE),
 "C27": ("exploration", "bounded exhaustive enumeration of insertion histories of the real implementation (every order and direction of every set of segments within bounds), the final drawing compared with the arrangement computed from the segments alone", E_NOTE),
 "C28": ("model_checking", GRAPH + ": every operation repeated on copies under consecutive hash seeds and every history repeated from the start must give the same graph and results", G_NOTE + " Hash seeds are controlled by the harness (8 consecutive ones per new state), so not every iteration order of a large map is covered."),
}
m = {"version": 1, "setup_cmd": "./check --build", "checks": [], "not_applicable": []}
for p, (level, tech, note) in T.items():
    m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                        "technique": tech, "level": level, "level_note": note})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
