"""Writes ../MANIFEST.json."""
import json
import os

MODEL = ("the reference is an explicit-state model of the (quantum) cohomology ring built from the Weyl group and the quantum Chevalley formula alone "
         "(mc/lie.py); it is validated against every product of four spaces computed by the original Maple program. ")
C = {
 "C01": ("explicit-state model (quantum Chevalley graph on W^P) with every transition replayed on the real code", MODEL + "Exhaustive over all ordered pairs of classes in the listed spaces; larger spaces are not covered."),
 "C02": ("explicit-state model (quantum Chevalley graph on W^P) with every transition replayed on the real code", MODEL + "Exhaustive over all ordered pairs of classes in the listed spaces, all products of three in the small ones."),
 "C03": ("explicit-state model: every edge of the quantum Pieri graph replayed on the real code", MODEL + "Exhaustive over special class x class in the listed spaces."),
 "C04": ("explicit-state enumeration of all classes; Giambelli polynomials evaluated on the model graph", MODEL + "Exhaustive over all classes of the listed spaces."),
 "C05": ("explicit-state: all commutation diamonds of the real Pieri graph, all triples, compared with the model", MODEL + "Exhaustive over diamonds, listed polynomials and triples in the listed spaces."),
 "C06": ("exhaustive enumeration of product transitions with state invariants (degree, positivity, valid label)", "Invariants of every transition; labels and degree of q from the Weyl group. Reaches larger spaces than C01/C02 because no product has to be known."),
 "C07": ("explicit-state model (Weyl group duality) conformance on every class; exhaustive pairing", MODEL + "Exhaustive over all classes of the listed spaces."),
 "C08": ("explicit-state model (Weyl group fixed points) conformance on every class and index set", "Exhaustive over all classes and all admissible index sets of the listed spaces."),
 "C09": ("exhaustive enumeration of all k-strict partitions against the diagram definition", "Exhaustive over all classes of the listed spaces."),
 "C10": ("explicit-state enumeration of W^P and of k-strict partitions, compared with the listings", "Exhaustive over all spaces up to the stated size."),
 "C11": ("explicit-state model conformance of the involutions on every class and every pair", "Exhaustive over classes; automorphism over all pairs in the smaller spaces."),
 "C12": ("explicit-state model conformance: every pair of classes; every rim hook removal path", MODEL + "Exhaustive over pairs on the listed Gr(m,n) and over partitions that do not fit."),
 "C13": ("stateless model checking of operation histories: all sequences up to a depth, each in a forked process", "Oracle: the answer of the operation alone in a fresh process. All histories of length 2 over the alphabet, of length 3 over a smaller one, plus long sweeps."),
 "C14": ("stateless model checking of thread interleavings under a controlled scheduler with a preemption bound", "Every schedule with one preemption at the stated points, two preemptions over a reduced set; sympy itself runs uninterrupted."),
 "C15": ("exhaustive enumeration of argument form x operation x class, all forms compared with one another", "Meaning of one form is decided by C01-C12."),
 "C16": ("explicit-state exploration of all expression trees up to a depth against polynomial arithmetic", "Leaves from a fixed alphabet; polynomial arithmetic implemented independently in mc/poly.py."),
 "C17": ("exhaustive enumeration of small combinations against an independent expansion and drawing", "Coefficients and partitions from a fixed alphabet."),
 "C18": ("exhaustive enumeration of semistandard tableaux against the polynomials", "All partitions within the stated number of boxes and variables."),
 "C19": ("explicit-state model conformance of every entry of every table", MODEL + "Exhaustive over the listed spaces."),
 "C20": ("exhaustive enumeration of coefficient x class pairs x operation, linearity as the invariant", "Values on single classes are the reference; they are decided by the other properties."),
 "C21": ("exhaustive enumeration of constructor arguments in a box; clones explored like originals", "All integer pairs in the box and non-integers from a list of kinds."),
 "C22": ("exhaustive enumeration of partitions; every rendering parsed back to its set of cells", "LaTeX is read structurally, no LaTeX is installed; PNG files are read back pixel by pixel."),
 "C23": ("exhaustive enumeration of pairs of small files over a row alphabet against multiset equality", "Rows with three columns; own parser for the third column."),
 "C24": ("exhaustive enumeration of partitions and two-term combinations through both conversions", "Runs under the SageMath interpreter of the sandbox; SageMath's Schur basis is trusted."),
 "C25": ("stateless exploration of operation sequences with snapshots of every live object", "Every operation with every kind of argument; arguments, earlier results and later answers compared after each."),
 "C26": ("exhaustive fault injection: an exception at every execution point of every operation, each in a forked process", "Interruptions strike between lines, at calls, returns and stores of the library, not inside sympy."),
 "C27": ("exhaustive enumeration of small lists and rectangles against the definitions", "All lists of small integers up to a bounded length."),
 "C28": ("exhaustive exploration of two state spaces (the real product graphs of isomorphic Grassmannians) for equality under the isomorphism", "No reference but the other space; all pairs of classes in the smaller spaces, special classes times all classes in the larger ones."),
 "C30": ("exhaustive exploration of refused requests: kind of argument x position x operation x class, then a question answered by the model", MODEL + "All single refusals of the listed kinds; all ordered pairs of a subset in the smaller spaces."),
 "C31": ("exhaustive exploration of the real product graph for a symmetry invariant of all triples of states", "No reference but the library's own products and duals. All triples in the small spaces, special class x pair of classes in larger ones."),
 "C32": ("exhaustive exploration of two state spaces (product graphs of consecutive Grassmannians) for equality on the common states; enumeration of semistandard tableaux", "The other space and products of tableau generating functions are the reference."),
 "C29": ("exhaustive enumeration of pairs and lists of classes and ways of making them", "All pairs from a bounded set which includes partitions that read alike; all table entries of the listed spaces."),
}
checks = [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "technique": t,
           "level": "fault_enumeration" if p == "C26" else "model_checking", "level_note": n} for p, (t, n) in C.items()]
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
assert sorted(props) == sorted(C), set(props) ^ set(C)
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m mc.selftest", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: executions are controlled from outside with sys.settrace and os.fork. Repairs of genuine defects are listed in known_findings.txt."}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
