"""Writes ../properties.jsonl (kept as code so that the list stays easy to edit)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


AG, GR, IG, OG = ("schubertpy/" + x + ".py" for x in
                  ("abstract_grassmannian", "grassmannian", "isotropic_grassmannian", "orthogonal_grassmannian"))
QC, LC, SC, PT, HS, MX = ("schubertpy/" + x for x in
                          ("qcalc.py", "lc.py", "schur.py", "partition.py", "utils/hash.py", "utils/mix.py"))
ALL = [AG, GR, IG, OG, QC]

prop("C01", "Classical products are the cup product of the Grassmannian",
     "For every ordinary, symplectic (IG) and orthogonal (OG) Grassmannian, the classical product of any two Schubert classes is their cup product: exactly the right classes with exactly the right integer coefficients. Expanding a product of several classes into classes (toS) gives the same answer as multiplying them one after another. Multiplying by the unit class changes nothing and products do not depend on the order of the factors.",
     ["inputs", "configurations"], "every Grassmannian Gr(m,N), IG(m,2n), OG(m,N) and every pair (or tuple) of Schubert classes on it",
     "The tests fix a few products in about ten small spaces; the product table of one space alone has hundreds to thousands of entries and each type, k=0, k=1 and general k take different code paths.",
     ALL, [("giambelli_rec / act_lc", AG), ("pieriA/B/C/D_inner", "type classes"), ("pieri_set, count_comps", QC)], ["mult", "toS"])
prop("C02", "Quantum products are the small quantum cohomology product",
     "For every ordinary, symplectic and orthogonal Grassmannian, the quantum product of any two Schubert classes is their product in the small quantum cohomology ring: every class, every power of q (of q1 and q2 for OG(n,2n+2)) and every coefficient (a Gromov-Witten invariant) is right. Expanding a product of several classes (qtoS) gives the same answer as multiplying them one after another. Quantum products may be fed back into further products.",
     ["inputs", "configurations"], "every Grassmannian of the three families and every pair (or tuple) of Schubert classes on it",
     "The only whole-table test of quantum products is disabled because its reference file is missing; the others sample single products.",
     ALL, [("qpieriA/B/C/D_inner", "type classes"), ("part_star, part_tilde", QC), ("act_lc", AG)], ["qmult", "qtoS", "qact"])
prop("C03", "Pieri rules: multiplying by a special class is right for every class",
     "Multiplying any Schubert class by any special Schubert class with the classical (pieri) or quantum (qpieri) Pieri rule gives exactly the product of the two classes in the classical or quantum ring. This holds for every generator of the ring, including the second special class of degree k in type D, and for partitions of any size, including parts with two digits. Applied to a sum, the rule acts term by term.",
     ["inputs", "configurations"], "every Grassmannian, every special class and every Schubert class",
     "Pieri coefficients depend on counting components of skew shapes with many boundary cases; tests check a few dozen triples.",
     ALL, [("pieri_set", QC), ("count_comps", QC), ("_dcoef tie breaking", OG), ("part_star, part_tilde", QC)], ["pieri", "qpieri"])
prop("C04", "Giambelli formulas express a class in special classes and evaluate back",
     "The classical and quantum Giambelli formula of any Schubert class is a polynomial with integer coefficients in special Schubert classes only, homogeneous of the degree of the class. Evaluating that polynomial in the classical or quantum ring gives the class back. The Giambelli formula of a sum or product of classes is the sum or product of their formulas.",
     ["inputs", "configurations"], "every Grassmannian and every Schubert class (and sums and products of classes)",
     "Tests compare a few printed polynomials; the recursion depth and its branches grow with the class and with k.",
     ALL, [("giambelli_rec_inner", AG), ("num2spec, spec2num", AG)], ["giambelli", "qgiambelli"])
prop("C05", "Acting with a polynomial in special classes is an associative ring action",
     "Acting with a polynomial in special classes (with integer, q, q1 and q2 coefficients) on a combination of Schubert classes equals multiplying by its factors one after another in any order and adding up, in both the classical and the quantum ring. Consequently multiplications by special classes commute with one another, the constant 1 acts as identity and q acts as a scalar. Multiplication of classes is associative.",
     ["inputs", "histories"], "every sequence of special classes (with repetition) applied to every class of every Grassmannian",
     "Associativity and commutativity are statements about all paths through the multiplication graph; tests evaluate single expressions.",
     [AG], [("act_lc: one variable at a time", AG), ("LinearCombination.apply", LC)], ["act", "qact", "mult", "qmult"])
prop("C06", "Products are graded, effective and specialise to the classical product",
     "Every term q^d*S[mu] in a quantum product of two Schubert classes satisfies |mu| + d*degree_q() = |lambda1| + |lambda2|, has a positive integer coefficient and a partition which indexes a Schubert class of that Grassmannian. Dropping the terms with q gives the classical product. degree_q() is the anticanonical degree of the Grassmannian.",
     ["inputs", "configurations"], "every Grassmannian and every pair of Schubert classes, including spaces too large for tabulation",
     "A structural law on all outputs; the tests look at specific outputs only.",
     ALL, [("part_star, part_tilde", QC), ("degree_q", "type classes")], ["qmult", "mult", "qpieri", "degree_q"])
prop("C07", "dualize gives the Poincare dual class",
     "dualize sends each Schubert class to the unique class whose classical product with it is the point class once; every other class of complementary dimension multiplies with it to zero. It is an involution that reverses degree, and it is linear on combinations.",
     ["inputs", "configurations"], "every Grassmannian and every Schubert class, in particular both parities of n in type D",
     "The type D correction depends on parity and on the type of the class; tests check a few partitions.",
     [QC, GR, IG, OG], [("dualize_index_inner", QC), ("part2index / index2part", QC)], ["dualize", "point_class", "mult"])
prop("C08", "Partitions and index sets are inverse bijections",
     "part2index sends the Schubert classes bijectively onto the admissible index sets of the Grassmannian: strictly increasing sets of the right size in 1..N that contain no two isotropic-incompatible entries, ordered by degree consistently with the Bruhat order. index2part is its inverse in both directions. Both are linear on combinations and accept a partition given as a list.",
     ["inputs", "configurations"], "every Grassmannian and every Schubert class / admissible index set",
     "Tests check some round trips in a few spaces; the formulas have case distinctions at part = k, at the middle index and on the type in type D.",
     [QC, GR, IG, OG], [("part2indexA/B/C/D_inner", QC), ("index2partA/B/C/D_inner", QC)], ["part2index", "index2part"])
prop("C09", "Partitions and partition pairs are inverse bijections",
     "In types B, C and D, part2pair splits each k-strict partition into the conjugate of its first k columns (k parts) and the strict partition of what lies to the right, keeping the type marker; pair2part is its inverse. Together they keep the total number of boxes. Type A refuses both.",
     ["inputs", "configurations"], "every IG and OG and every Schubert class",
     "Tests check a few pairs; lengths, empty halves and the trailing zero of type D interact.",
     [QC, IG, OG], [("part2pair_inner, pair2part_inner, part_conj", QC)], ["part2pair", "pair2part"])
prop("C10", "Schubert classes, generators and point class are listed exactly",
     "schub_classes lists each Schubert class of the Grassmannian exactly once and nothing else: all k-strict partitions in the rectangle, both types of those with a part k in type D, as many as the Euler characteristic. generators lists exactly the special classes, in order of degree, and they generate the ring; point_class is the unique class of top degree. The number of classes in degree i equals the number in degree dim-i.",
     ["configurations"], "every Grassmannian of the three families, including trivial ones and k=0, k=1",
     "The enumeration walks an iterator with several cases; tests check a few lists.",
     [QC, "schubertpy/utils/kstrict.py", GR, IG, OG], [("all_kstrict, _itr_kstrict", "schubertpy/utils/kstrict.py"), ("part_gen", QC)], ["schub_classes", "generators", "point_class"])
prop("C11", "Type D involutions respect type and multiplication",
     "On OG(m,2n), type_swap exchanges the two classes of each partition that has a part k and fixes every other class, is an involution and an automorphism of the classical and quantum ring (exchanging q1 and q2 where there are two). schub_type is 0 without a part k, otherwise 1 or 2, and is exchanged by the swap. miami_swap is an involution that swaps exactly the classes with a part k and an odd number of larger parts; on other types both swaps change nothing and asking for a type is refused.",
     ["inputs", "configurations"], "every Grassmannian and every class (every pair of classes for the automorphism)",
     "Tests check a handful of partitions in type D.",
     [AG, OG, QC], [("type_swap_inner", QC), ("static_miami_swap_inner", AG), ("schub_type", OG)], ["type_swap", "miami_swap", "schub_type"])
prop("C12", "The rim hook algorithm computes the same quantum products",
     "On every ordinary Grassmannian the rim hook algorithm (qmult_rh) returns the same combination as the quantum product, with integer coefficients. Removing rim hooks of a given size from a partition until it fits the rectangle yields the unique reduced partition, the number of hooks removed and a height whose parity gives the sign; or reports that it is impossible.",
     ["inputs", "configurations"], "every Gr(m,n), every pair of classes, and every partition in twice the width of the rectangle",
     "Several hooks have to be removed only for products of high degree, which the tests do not reach.",
     [GR, PT], [("qmult_rh", GR), ("Partition.remove_rim_hooks", PT)], ["qmult_rh", "Partition.remove_rim_hooks"])
prop("C13", "Results do not depend on what was computed before",
     "Any operation on a Grassmannian gives the same answer in a fresh process and after any sequence of other operations, on the same object, on clones or on other Grassmannians of any type and size, including operations that failed. Repeating an operation gives the same answer. The answer does not depend on the hash seed of the process.",
     ["histories", "configurations"], "every sequence of operations on every family of live Grassmannian objects",
     "Memoisation, temporary changes of parameters and shared objects show up only in particular orders of calls; each test starts from one fixed history.",
     [HS, AG, GR, OG], [("hashable_lru_cache_method", HS), ("clone, qmult_rh working on a clone", GR)], ["all operations"],
     [{"name": "method caches", "meaning": "results keyed by object, generator, partition, k, n", "where": HS},
      {"name": "_k, _n", "meaning": "parameters of the object", "where": AG}])
prop("C14", "Concurrent use of Grassmannians gives the sequential results",
     "When several threads call operations at the same time, on one shared Grassmannian object or on different ones, each call returns what it would return alone and none fails. This holds for every interleaving of the threads. Afterwards the objects still answer every question correctly.",
     ["schedules"], "every interleaving of two or three threads each doing a few operations on shared or separate objects",
     "No test starts a thread; a race needs a switch between two particular lines.",
     [HS, AG, GR, OG, LC], [("no shared mutable scratch state besides lru_cache", "whole package")], ["all operations"],
     [{"name": "method caches", "meaning": "shared between threads", "where": HS}])
prop("C15", "All accepted forms of an argument mean the same thing",
     "A combination of classes may be given as text (with ^ or ** and with or without spaces), a Schur object, a LinearCombination, a sympy expression or, for one class, a list of parts: every operation returns the same result for all of them. Printing a result and reading it back gives an equal combination, and Schur objects and lists survive the same round trip. Operations return LinearCombination objects.",
     ["inputs"], "every operation and every combination of classes in every accepted form",
     "Tests use one form per test; conversions are spread over every entry point.",
     [LC, SC, AG, GR, IG, OG], [("LinearCombination.__init__, apply", LC), ("toSchur, Schur.symbol", SC)], ["all operations", "str", "LinearCombination", "Schur"])
prop("C16", "Linear combinations add, subtract and multiply like polynomials",
     "Sums, differences, products and powers of LinearCombination objects with one another, with Schur objects and with numbers or expressions in q, on either side, equal the polynomial one computes by hand. They are again LinearCombination objects, except that a Schur object on the left of + or * gives the equal sympy expression. Operations never change their operands. The structural questions (is it linear in its symbols, does a partition carry zero padding, which operator is on top, which classes occur) are answered correctly.",
     ["inputs", "programs"], "every arithmetic expression up to a bounded depth over an alphabet of classes, numbers and q",
     "Operators have a separate branch per operand type and side; tests check a few.",
     [LC, SC], [("__add__, __sub__, __rsub__, __mul__, __pow__", LC), ("Schur operators", SC)], ["LinearCombination operators", "is_valid", "has_part_zero_padding"])
prop("C17", "Schur expansions and ASCII drawings show exactly the combination",
     "schur_expansion lists each term of a linear combination once as (coefficient, partition), ordered by partition, leaves out exactly the terms with q when asked to, and refuses what is not a linear combination with a ValueError. The ASCII drawing shows one diagram per term in that order: row by row the right number of boxes, with its coefficient.",
     ["inputs"], "every linear combination with up to a bounded number of terms over an alphabet of partitions and coefficients",
     "Tests check three expansions and no drawing.",
     [LC, MX], [("_schur_expansion, _cutoff_Schur", LC), ("embed_partition", MX)], ["schur_expansion", "draw_ascii_partition"])
prop("C18", "Schur polynomials are the generating functions of semistandard tableaux",
     "The polynomial of a partition in n variables is the sum over all semistandard tableaux of that shape with entries at most n of their monomials: symmetric, homogeneous of degree equal to the number of boxes, with nonnegative integer coefficients, zero when there are more than n parts. Trailing zeros of the partition do not matter and the partition object is left unchanged.",
     ["inputs"], "every partition and every number of variables",
     "The recursion is memoised in a table indexed by a mixed radix number; tests check two polynomials.",
     [MX, SC], [("SchurPol, __N__", MX), ("to_polinomial_str", SC)], ["Schur.to_polinomial_str", "SchurPol"])
prop("C19", "Multiplication tables hold every product at its labelled position",
     "MultTable and QMultTable of a Grassmannian contain one row and one column per Schubert class, labelled by the classes in their listed order, and the entry at (a, b) is the classical or quantum product of a and b. The matrix form is the same table, is symmetric, and its unit row repeats the labels. Printing a table (where it is shown in full) shows these entries at these positions.",
     ["configurations", "inputs"], "every Grassmannian and every position of its table",
     "No test builds a table.",
     ["schubertpy/mult_table.py"], [("AbstractMultTable.__init__, to_matrix", "schubertpy/mult_table.py")], ["MultTable", "QMultTable"])
prop("C20", "Every operation is linear over integers and q",
     "Products, actions, Pieri and Giambelli rules, expansions and conversions of a*x + b*y, with a and b integers, fractions or monomials in q, are a times the result for x plus b times the result for y, in each argument. The zero combination gives zero. Equal combinations written differently (reordered, unexpanded, with repeated or cancelling terms) give equal results.",
     ["inputs"], "every operation, pair of classes and pair of coefficients from a bounded alphabet",
     "Tests use a few fixed sums; coefficients, signs and repeated terms take separate paths through the expression tree.",
     [LC, AG, QC], [("LinearCombination.apply / apply2", LC), ("act_lc", AG)], ["all operations"])
prop("C21", "Grassmannians validate their arguments and describe themselves correctly",
     "A constructor accepts exactly the integer pairs (m, N) for which the Grassmannian exists (0<=m<=N; for IG an even N and m<=N/2; for OG m<=N/2) and raises TypeError for non-integers and ValueError otherwise. The description (type, k, n, family, m, N, degree of q, as text and as data) is that of the space asked for. clone gives an independent object of the same class and description that computes the same results.",
     ["configurations", "inputs"], "all pairs of small integers and of other values, for each family",
     "Tests check a few valid constructions.",
     [GR, IG, OG, AG], [("__init__", "type classes"), ("__str__, get_type_data, degree_q", "type classes"), ("clone", AG)], ["constructors", "str", "get_type_data", "degree_q", "clone"])
prop("C22", "Renderings draw exactly the Young diagram",
     "Every rendering of a partition (printed diagram, LaTeX picture, standalone LaTeX document, plot, PNG file, Partition.draw, yd) shows one box for each cell of the Young diagram at its row and column and nothing else. The LaTeX is well formed, the standalone form is the picture inside one document, and exporting writes the file named and leaves no figure open.",
     ["inputs"], "every partition up to a bounded size",
     "No test looks at a rendering.",
     [SC, PT, MX], [("_generate_tikzpicture, plot_partition, print_partition", SC), ("Partition.draw", PT), ("yd", MX)], ["print_partition", "latex", "latex_standalone", "plot_partition", "export_png"])
prop("C23", "The CSV comparator accepts exactly permutations of the same results",
     "Two result files are reported as matching exactly when their non-empty rows correspond one to one, in any order, with the same first two columns and third columns that are equal as combinations of classes however they are written. A missing, additional, repeated or altered row is always reported as a mismatch. The comparison is symmetric and does not modify the files.",
     ["inputs", "histories"], "every pair of files with a bounded number of rows over an alphabet of rows and spellings",
     "The only tests that use it are disabled.",
     ["schubertpy/csv_bijection.py"], [("_read_csv_transformed, check_bijection_with_permutation", "schubertpy/csv_bijection.py")], ["check_bijection_with_permutation"])
prop("C24", "Conversions to and from SageMath are inverse to each other",
     "Converting a Schur object to a SageMath Schur function and back, or a single SageMath Schur function to a Schur object and back, gives the same object. Combinations that are not a single Schur function, and functions in other bases, are refused.",
     ["inputs"], "every partition up to a bounded size and every small combination",
     "No test imports schubertsage.",
     ["schubertsage/conversion.py"], [("sage_schur_to_schur, schur_to_sage_schur", "schubertsage/conversion.py")], ["sage_schur_to_schur", "schur_to_sage_schur"])
prop("C25", "Operations never modify their arguments or earlier results",
     "No operation changes a list, Schur, Partition, LinearCombination or Grassmannian passed to it, nor any result returned earlier. Modifying a list handed to an operation, or a list or Schur object returned by one, afterwards does not change the answers to later questions. (A Schur or Partition object made from a list holds that list.)",
     ["inputs", "histories"], "every operation applied to every kind of argument, followed by changes to arguments and results",
     "A test sees only the return value of a call.",
     [AG, QC, SC, PT, HS], [("copies before list edits", "qcalc.py, partition.py"), ("tuples as cache keys", HS)], ["all operations"])
prop("C26", "An interrupted operation leaves every object usable",
     "If a computation is interrupted at any point (KeyboardInterrupt, or a failure such as running out of stack inside it), the exception reaches the caller and the Grassmannian, its clones and all other objects still give right answers afterwards, including for the interrupted question. No partial result is ever returned or remembered.",
     ["crash_points"], "every line at which an interruption can strike in every operation",
     "Tests never interrupt a computation; caches and temporarily changed parameters matter only then.",
     [HS, AG, GR, OG], [("lru_cache stores only completed results", HS), ("qmult_rh works on a clone", GR)], ["all operations"])
prop("C27", "Partition utilities compute what they are named for",
     "Clipping removes exactly the trailing zeros, conjugation transposes the diagram (an involution on partitions), the generators of all partitions and of all k-strict partitions inside a rectangle list each exactly once, and validity and containment tests accept exactly the non-increasing lists of non-negative integers and exactly those inside the rectangle. Partition objects refuse invalid lists. The height of a skew shape counts its non-empty rows and refuses shapes that are not contained.",
     ["inputs"], "every list of small integers up to a bounded length and every rectangle up to a bounded size",
     "Tests check single examples of each helper.",
     [QC, PT, "schubertpy/utils/kstrict.py"], [("part_conj, part_gen, part_itr, part_clip", QC), ("is_valid_part, Partition.is_in_range, skew_partition_height", PT), ("all_kstrict", "schubertpy/utils/kstrict.py")], ["schubertpy.qcalc", "schubertpy.partition", "schubertpy.utils.kstrict"])
prop("C28", "Isomorphic Grassmannians have the same ring",
     "Gr(m,n) and Gr(n-m,n) (classes matched by transposing the partition), IG(1,2n) and Gr(1,2n), OG(n,2n+1) and OG(n+1,2n+2) (same partitions), and the isomorphic spaces of low dimension (such as Gr(2,4) and OG(1,6), or IG(2,4) and OG(1,5)) have corresponding classes, point class, dual classes and degree of q, and the classical and quantum product of two classes on one is the product of the corresponding classes on the other.",
     ["inputs"], "every pair of isomorphic Grassmannians up to a bounded size and every pair of their classes",
     "The two sides take different paths through the code (a special class corresponds to one that is not special, type B corresponds to type D); tests look at one Grassmannian at a time.",
     [AG, GR, IG, OG, QC], [("Pieri and Giambelli rules of all types", QC), ("mult, qmult", AG)], ["Grassmannian.qmult", "IsotropicGrassmannian.qmult", "OrthogonalGrassmannian.qmult", "dualize"])
prop("C29", "Schur objects behave as values",
     "Two Schur objects are equal exactly when their lists of parts are equal, however they were made (from a list, another Schur object, text or a symbol); then they have the same hash and symbol, and one is found in place of the other in lists, sets, dictionaries and multiplication tables. Different partitions are never confused. Schur objects sort like their lists of parts, a Schur object is not equal to an object of another kind, and unique_schur_list returns each class once in that order.",
     ["inputs"], "every pair of classes from a bounded set, every way of making them, every list of up to three of them",
     "Confusions need particular pairs of partitions (parts with two digits, markers); tests compare a few.",
     [SC, "schubertpy/mult_table.py"], [("Schur.__eq__, __lt__, __hash__, symbol, toSchur, unique_schur_list", SC)], ["Schur", "MultTable.df"])

prop("C30", "Requests without a meaning are refused and leave no trace",
     "A request that has no meaning raises an exception and is never answered: acting with (mult, qmult, act, qact, toS, qtoS: in the acting polynomial or first factor) a symbol that is not a Schubert class, acting with a class that is not special, an argument of a kind that is no combination of classes (None, tuples, dictionaries, lists that are not partitions, other objects), malformed text, sums, products and powers of combinations or Schur objects with such objects or with text, a Pieri rule with something that is not a number, part2pair on an ordinary Grassmannian and schub_type outside type D, tables of something that is not a Grassmannian. Whatever was refused, and in whatever order, the objects involved are unchanged and answer later questions rightly.",
     ["inputs", "history"], "every kind of meaningless request in every position of every operation of every small space, alone and in pairs, each followed by a question with a known answer",
     "A request that is answered by mistake goes unnoticed in tests of valid requests; whether a class is special depends on the type, and damage done by a refusal shows only in later answers.",
     [AG, GR, IG, OG, SC, LC, QC], [("spec2num, act_lc", AG), ("LinearCombination.__init__ and operators", LC), ("toSchur", SC), ("part2pair, schub_type", GR)], ["all operations"])

prop("C31", "Three-point invariants are symmetric",
     "The coefficient of q^d times the dual of c in the classical or quantum product of a and b does not change when the three Schubert classes a, b and c are permuted, in any order, where the dual is the one dualize gives. In particular multiplication by a special class (pieri, qpieri) is self-adjoint for the Poincare pairing. This holds in every Grassmannian and every degree d (for each of the degrees in q1 and q2 where there are two).",
     ["inputs"], "all triples of classes in small spaces; all special classes with all pairs of classes in larger ones, up to several hundred classes",
     "The three sides of the symmetry take different paths through Pieri, Giambelli and dualize; tests look at single products.",
     [AG, GR, IG, OG, QC], [("mult, qmult, pieri, qpieri", AG), ("dualize", OG), ("pieri_set, count_comps", QC)], ["mult", "qmult", "pieri", "qpieri", "dualize"])
prop("C32", "Classical products are stable and agree with Schur polynomials",
     "Classical products do not depend on the size of the Grassmannian except for the classes that do not fit: the product of two classes on Gr(m,n), IG(m,2n), OG(m,2n+1) or OG(m,2n) is the product of the same partitions on the next Grassmannian with the same k (in type A also on the next one with the same m), without the partitions that are not classes of the smaller one. On ordinary Grassmannians that are large enough the product of two classes has the coefficients with which the product of their Schur polynomials in m variables expands in Schur polynomials, and on smaller ones the partitions that do not fit are left out.",
     ["inputs"], "all pairs of classes in small spaces and the next of their chain, special classes in larger ones, all pairs of partitions in a box against products of Schur polynomials",
     "Relates answers from different Grassmannians and from two independent parts of the library; tests look at one space at a time.",
     [AG, GR, IG, OG, QC, SC, "schubertpy/utils/mix.py"], [("mult, pieri", AG), ("SchurPol", "schubertpy/utils/mix.py"), ("Pieri rules", QC)], ["mult", "pieri", "Schur.to_polinomial_str"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
