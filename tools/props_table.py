# executed by meta.py: P(id, title, statement, over, text, why tests cannot, files, mechanisms, level note)
DENSE = "Random cases against a dense reference model; assurance grows with the number of cases, nothing is proved. Trusts the reference model, IEEE arithmetic of the compiler, and the 1e-9 relative tolerance."
P("C01", "State vectors survive conversion to a decision diagram and back",
  "For every complex vector whose length is a power of two, the decision diagram built from it represents exactly that vector, and every way of reading amplitudes (whole vector, by index, by path string, text/binary/in-memory export, accumulation) returns it up to the numerical tolerance, without changing the state. Vectors of any other length are rejected.",
  ["inputs"], "all vectors of 2^n entries (dense, sparse, structured, entries near the merge tolerance), alone or several in one package, and all states produced by circuits",
  "The tests convert a handful of fixed 1-3 qubit vectors; sharing, weight merging and normalisation depend on the amplitudes, so only all inputs settle it.",
  [PKG], [("recursive construction and normalisation", PKG + ": makeStateFromVector, normalize"), ("extraction", PKG + ": getVector, getValueByPath, exportAmplitudes, addAmplitudes")], DENSE)
P("C02", "Basis and product states; capacity of a package is enforced",
  "Zero, computational-basis and product states requested on n qubits (optionally starting at a given qubit) are exactly those states. A request that needs more qubits than the package was created or resized for, or that gives too few qubit states, is rejected with an exception, and every request that fits is accepted.",
  ["inputs", "configurations"], "all qubit counts, start offsets, bit strings and single-qubit states, all package capacities",
  "The tests use a few fixed strings on up to four qubits and one or two rejected requests.",
  [PKG], [("state constructors and their capacity checks", PKG + ": makeZeroState, makeBasisState, resize")], DENSE)
P("C03", "Matrices survive conversion to a decision diagram and back",
  "For every square complex matrix of dimension 2^n, the decision diagram built from it represents exactly that matrix, and every way of reading entries returns it up to the numerical tolerance, without changing it. Non-square matrices and other dimensions are rejected.",
  ["inputs"], "all 2^n x 2^n matrices (dense, sparse, unitary, block-shared, entries near the merge tolerance), alone or several in one package",
  "The tests convert a few fixed 2x2 and 4x4 matrices.",
  [PKG], [("recursive construction and normalisation", PKG + ": makeDDFromMatrix, normalize"), ("extraction", PKG + ": getMatrix, getValueByPath")], DENSE)
P("C04", "Single-target gates with any controls have their defined matrix",
  "A gate built from a 2x2 matrix, a target qubit, any set of positive and negative controls, a qubit count and a start offset represents the matrix that applies the 2x2 matrix to the target exactly when all controls are satisfied, independent of what was built in the package before; a set of controls holds exactly the controls inserted, ordered by qubit, and finds them by qubit.",
  ["inputs", "histories"], "all 2x2 matrices, targets, control sets, qubit counts, start offsets, and all histories of earlier constructions in the same package",
  "The tests build particular gates on up to three or four qubits in fresh packages; negative controls, offsets and histories are hardly combined.",
  [PKG], [("gate construction", PKG + ": makeGateDD"), ("identity cache", PKG + ": makeIdent")], DENSE)
P("C05", "Two-qubit gates, plain and controlled, have their defined matrix",
  "Every named two-qubit gate (SWAP, iSWAP, its inverse, DCX, Peres, its inverse, ECR, RXX, RYY, RZZ, RZX, XX-YY, XX+YY), on any pair of targets, with any parameters, controls and start offset, represents its defining matrix; an arbitrary 4x4 matrix can likewise be placed on any two qubits.",
  ["inputs", "histories"], "all gates, ordered target pairs, angles, control sets, qubit counts and start offsets",
  "The tests compare a few target pairs of two- and three-qubit systems with at most one control.",
  [PKG, "include/dd/GateMatrixDefinitions.hpp"], [("direct construction", PKG + ": makeTwoQubitGateDD"), ("constructions from products", PKG + ": makeSWAPDD ... makeXXPlusYYDD")], DENSE)
P("C06", "Addition of decision diagrams is entrywise addition",
  "The sum of two vector or two matrix decision diagrams represents the entrywise sum, for all operands (including zero, scaled copies and operands that cancel), whatever was computed in the package before, and leaves the operands unchanged.",
  ["inputs", "histories"], "all pairs of vectors/matrices of equal size and all sequences of additions over a pool of results",
  "The tests add a few fixed DDs; cache hits with scaled or cancelling operands need generated histories.",
  [PKG, "include/dd/ComputeTable.hpp"], [("recursive addition with an operation cache", PKG + ": add, add2")], DENSE)
P("C07", "Multiplication is the matrix-vector and matrix-matrix product",
  "Multiplying decision diagrams yields the matrix-vector or matrix-matrix product for all operands, whatever was computed before; in particular applying the gates of a circuit one after the other equals applying their accumulated matrix.",
  ["inputs", "programs", "histories"], "all operands, all circuits, all sequences of products over pools of results, DDs with a start offset",
  "The tests multiply a few fixed gates; factored-out weights, cache hits and identity shortcuts depend on operands and history.",
  [PKG, "include/dd/ComputeTable.hpp"], [("recursive multiplication with an operation cache", PKG + ": multiply, multiply2")], DENSE)
P("C08", "Transpose and conjugate transpose",
  "The (conjugate) transpose of a matrix decision diagram represents the (conjugate) transpose of the matrix, is an involution, reverses products, and inverts unitaries, for all matrices and histories.",
  ["inputs", "histories"], "all matrices incl. symmetric, Hermitian and shared-block ones, sequences over pools of results",
  "The tests transpose a few fixed gates; symmetric-node shortcuts and caches keyed by scaled nodes need structured random matrices.",
  [PKG, "include/dd/UnaryComputeTable.hpp"], [("recursion with symmetric shortcut and cache", PKG + ": transpose, conjugateTranspose, checkSpecialMatrices")], DENSE)
P("C09", "Kronecker products and extension by identities",
  "The Kronecker product of two vector or matrix decision diagrams represents the Kronecker product of the vectors or matrices (with the left operand on the upper qubits), also for operands that are multiples of the identity; extending a matrix by h upper and l lower qubits yields I (x) M (x) I.",
  ["inputs", "histories"], "all operands of 0-4 qubits, sequences in one package, both index modes",
  "The tests build products of fixed X/H/Z gates only.",
  [PKG], [("recursion with identity shortcut and cache", PKG + ": kronecker, kronecker2, extend")], DENSE)
P("C10", "Trace and partial trace",
  "The trace of a matrix decision diagram is the trace of the matrix, and the partial trace over any set of qubits represents the reduced matrix on the remaining qubits in their original order.",
  ["inputs"], "all matrices and all subsets of eliminated qubits",
  "The tests trace out fixed qubits of identities and SWAP on up to three qubits.",
  [PKG], [("recursive trace", PKG + ": trace, partialTrace")], DENSE)
P("C11", "Inner product, fidelity, expectation value, overlap with outcomes",
  "The inner product is conjugate-linear in its first and linear in its second argument and equals the sum over conj(x_i) y_i; the fidelity is its squared magnitude; the expectation value of a Hermitian observable is <y|Oy>, rejecting operands on different numbers of qubits; the overlap with a distribution of outcomes is the sum of |amplitude| sqrt(probability).",
  ["inputs", "histories"], "all pairs of vectors, all Hermitian observables, all distributions, sequences in one package",
  "The tests use a few product and Bell states.",
  [PKG], [("recursive inner product with cache", PKG + ": innerProduct"), ("derived quantities", PKG + ": fidelity, expectationValue, fidelityOfMeasurementOutcomes")], DENSE)
P("C12", "Single-qubit measurement: probabilities and collapse",
  "For every normalised state and qubit, the reported outcome probabilities are the squared norms of the projections, sum to one, and do not change the state; a collapsing measurement returns an outcome of non-zero probability, distributed accordingly, and replaces the state by its normalised projection onto that outcome. States that are not normalised are rejected.",
  ["inputs", "random outcomes"], "all normalised states, qubits and random draws",
  "The tests measure a few one- and two-qubit states; recursion over skipped and shared nodes depends on the state.",
  [PKG], [("probability and projection", PKG + ": determineMeasurementProbabilities, assignProbabilities, measureOneCollapsing")], DENSE)
P("C13", "Measuring all qubits samples the state and collapses it on request",
  "Measuring all qubits returns a bit string of the right length and non-zero amplitude, distributed as |amplitude|^2, leaves the state unchanged without collapse and replaces it by exactly the returned basis state (with correct reference counts) with collapse; states that are not normalised are rejected.",
  ["inputs", "random outcomes"], "all normalised states and random draws",
  "The tests sample a few fixed states once.",
  [PKG], [("walk along the diagram", PKG + ": measureAll")], DENSE)
P("C14", "Decision diagrams are canonical and minimal",
  "Within one package, two decision diagrams that represent the same vector or matrix, however they were built, are the same edge (same node, same weight); proportional ones share the node. Consequently the reported size equals the number of distinct sub-functions up to a factor.",
  ["inputs", "programs"], "all construction routes (arrays, gate products, sums, Kronecker products, transposes) to well-conditioned vectors and matrices",
  "The tests compare a handful of equal circuits; canonicity must hold for every pair of routes.",
  [PKG, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp"], [("hash-consing", "include/dd/UniqueTable.hpp: lookup"), ("normalisation", PKG + ": normalize"), ("number merging", "include/dd/ComplexTable.hpp: lookup")], DENSE)
P("C15", "Every diagram handed out is normalised, reduced, ordered and stored",
  "At every point of every history, all nodes reachable from an edge handed out are ordered by qubit, stored exactly once in the unique table, carry only weights owned by the number table, have zero weights only towards the terminal and not all-zero successors (a result that vanishes as a whole is the zero terminal); vector nodes have unit norm with the normalising convention, matrix nodes a leading maximal weight of one.",
  ["histories"], "all sequences of constructions, arithmetic, collections over pools of diagrams",
  "The tests look at the weights of a few single nodes.",
  [PKG, "include/dd/UniqueTable.hpp", "include/dd/ComplexNumbers.hpp"], [("normalisation", PKG + ": normalize, makeDDNode"), ("storage", "include/dd/UniqueTable.hpp: lookup")], DENSE)
P("C16", "Identity and symmetry marks are sound; identities are identities",
  "A matrix node marked as identity or as symmetric represents an identity or a symmetric matrix, at every point of every history; the identity on any range of qubits, cached or not, is the identity before and after collections, resets and clearing of tables.",
  ["inputs", "histories"], "all matrices and constructions; all identity requests in any order interleaved with clears",
  "The tests check the marks of two or three gates; wrong marks silently corrupt multiplication, transposition and Kronecker products of other operands.",
  [PKG], [("marks", PKG + ": checkSpecialMatrices, normalize"), ("identity cache", PKG + ": makeIdent, clearIdentityTable")], DENSE)
P("C17", "Referenced diagrams survive garbage collection, everything else goes",
  "However references are taken and released and whenever collection happens, every referenced diagram keeps its value and its nodes and numbers stay stored; node, number and active counts are exactly those implied by the references held; after a forced collection exactly the referenced nodes and numbers remain; releasing more references than held is reported.",
  ["histories"], "all interleavings of operations, incRef/decRef and (forced or automatic) collections",
  "The tests perform one or two fixed collections; counts depend on sharing and order of releases.",
  [PKG, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComplexNumbers.hpp"], [("reference counts", "include/dd/UniqueTable.hpp: incRef, decRef"), ("collection", PKG + ": garbageCollect"), ("number collection", "include/dd/ComplexTable.hpp: garbageCollect")], DENSE)

P("C18", "Results never depend on what was computed before",
  "For every history of operations in a package, the result of each operation equals the result of the same operation on the same operands with empty caches, and repeating it returns the same diagram; a circuit simulated in a used package yields the state it yields in a new one.",
  ["histories"], "all sequences of cached operations (sums, products, transposes, Kronecker products, inner products, expectation values, gates), operands that are rescaled edges to the same nodes, collections in between",
  "Wrong or stale cache entries only show for particular sequences of operands hitting the same slot; tests start with empty caches.",
  [PKG, "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp"], [("operation caches", "include/dd/ComputeTable.hpp: insert, lookup"), ("invalidation after collection", PKG + ": garbageCollect, clearComputeTables"), ("use of the caches", PKG + ": add2, multiply2, transpose, kronecker2, innerProduct")], DENSE)
P("C19", "Operation caches only return what was stored for exactly these operands",
  "A lookup in any operation table (binary, unary, noise, Toffoli) returns either nothing or the result most recently stored for operands equal to the given ones; an entry just stored is found; after a clear nothing is found.",
  ["histories"], "all sequences of insertions, lookups and clears, for tables of any size and operands that collide or differ in one component",
  "Collisions, signs and near-equal operands are not produced by the few lookups in the tests.",
  ["include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp", "include/dd/ToffoliTable.hpp", "include/dd/StochasticNoiseOperationTable.hpp"],
  [("binary operations", "include/dd/ComputeTable.hpp: insert, lookup, clear"), ("unary operations", "include/dd/UnaryComputeTable.hpp: insert, lookup, clear"), ("gates", "include/dd/ToffoliTable.hpp: insert, lookup"), ("noise operations", "include/dd/StochasticNoiseOperationTable.hpp: insert, lookup")],
  "Random histories against a list of everything stored; nothing is proved. The equality of operands is the library's own operator==.")
P("C21", "Numbers within the tolerance share one entry, and entries are stable",
  "Looking up a number returns an entry whose value is within the tolerance of it, and creates a new entry only if none is within the tolerance; constants have fixed entries; entries keep value and address until collected, and only unreferenced ones are collected; signs are carried by the pointer alone, so that the lookup of the negative or conjugate is the negative or conjugate.",
  ["inputs", "histories"], "all doubles and all sequences of lookups, references, collections, clears and tolerance changes",
  "The tests use a handful of values; behaviour at bucket borders and at distances of about one tolerance depends on the values and on what is stored.",
  ["include/dd/ComplexTable.hpp", "include/dd/ComplexNumbers.hpp"], [("lookup in the buckets of the value and its neighbours", "include/dd/ComplexTable.hpp: lookup, findOrInsert"), ("collection", "include/dd/ComplexTable.hpp: garbageCollect"), ("signs", "include/dd/ComplexNumbers.hpp: lookup")],
  "Random histories against a model set, on the default table and on a small one; nothing is proved. Distances within 1% of the tolerance are left undecided.")
P("C22", "Complex arithmetic is exact and cached numbers are handed out once",
  "Sums, differences, products, quotients, squared magnitudes and predicates of complex numbers equal those of std::complex for operands from the number table, the cache or temporaries, also when the result is one of the operands; a cached number is never handed out twice before it is returned, and every operation on diagrams returns all the cached numbers it takes.",
  ["inputs", "histories"], "all operands, aliasing patterns, sequences of taking and returning numbers, and all diagram operations",
  "The tests add and multiply a few constants; leaks and double use depend on the path taken through an operation.",
  ["include/dd/ComplexNumbers.hpp", "include/dd/ComplexCache.hpp", "include/dd/Complex.hpp"], [("arithmetic", "include/dd/ComplexNumbers.hpp: add, sub, mul, div, mag2"), ("cache", "include/dd/ComplexCache.hpp: getCachedComplex, returnToCache"), ("balance", PKG + ": add2, multiply2, normalize, kronecker2")], DENSE)
P("C23", "Serialised diagrams read back as the same diagram",
  "Writing a vector or matrix diagram (text or binary, stream or file) and reading it back, in the same or in another package, yields a diagram of the same function; in the same package it is the same diagram; damaged texts are either rejected with an exception or read as a diagram, never a crash; graphviz output of any diagram is well formed.",
  ["inputs"], "all diagrams, both formats, damaged and random input texts",
  "The tests write two or three circuits; weights, shared nodes, terminals and malformed input each take their own path.",
  ["include/dd/Export.hpp", PKG, "include/dd/ComplexValue.hpp"], [("writer", "include/dd/Export.hpp: serialize, serializeMatrix, serializeVector"), ("reader", PKG + ": deserialize, deserializeNode"), ("numbers", "include/dd/ComplexValue.hpp: from_string, readBinary, writeBinary")], DENSE)
P("C24", "Diagrams transferred to another package keep their meaning",
  "transfer creates in the receiving package a canonical diagram of the same function, for every vector and matrix, without changing or depending on the source package afterwards; transferring the same diagram twice gives the same diagram.",
  ["inputs", "histories"], "all diagrams, source and receiving packages with arbitrary content",
  "The tests transfer a single three-qubit state.",
  [PKG], [("transfer", PKG + ": transfer"), ("normalisation in the receiver", PKG + ": makeDDNode, normalize")], DENSE)
P("C25", "Printed numbers denote the value they were printed from",
  "Every textual form of a complex number (toString with or without formatting and at any precision, the edge labels of exports, Cartesian or by magnitude and phase, printed vectors) denotes the number up to the printed precision, for numbers that are fractions, multiples of pi or of 1/sqrt(2) and for all others.",
  ["inputs"], "all finite complex numbers, formatted or not, all precisions",
  "The tests print a dozen numbers; each recognised pattern (fraction, root, pi) and each combination with signs and units is its own case.",
  ["include/dd/ComplexValue.hpp", "include/dd/Export.hpp", "include/dd/Complex.hpp"], [("formatting", "include/dd/ComplexValue.hpp: printFormatted, toString, getLowestFraction"), ("polar labels", "include/dd/Export.hpp: conditionalFormat")],
  "Random numbers near and at the recognised patterns, read back by an independent parser; nothing is proved.")
P("C26", "Graph exports show exactly the diagram",
  "The graphviz exports (classic, modern, memory layout, with edge labels, colours or thickness, to a stream or a file) contain one node per diagram node and one edge per non-zero successor, with level, position and weight of the diagram.",
  ["inputs"], "all vector and matrix diagrams and all combinations of export options",
  "The tests only check that exporting does not throw, or compare one small diagram.",
  ["include/dd/Export.hpp"], [("graph walk", "include/dd/Export.hpp: toDot, memoryNode, classicNode, modernNode, coloredNode"), ("edges", "include/dd/Export.hpp: coloredEdge, memoryEdge, bwEdge")],
  "The output is parsed by a small independent reader and compared with the diagram; nothing is proved.")
P("C27", "Density-matrix simulation follows U rho U^dagger",
  "Applying operations (gates, unitaries or branches of a channel) to density matrices, stored reduced or in full, several at a time and with collections in between, gives U rho U^dagger; a mixture of branches is their sum; a density matrix multiplied by a matrix gives the product, whether it is stored in full or (if Hermitian) reduced, and stays the same; outcome probabilities are the diagonal; no temporary marker, cached number or node is left behind.",
  ["inputs", "histories"], "all operation sequences on one or more density matrices of up to five qubits (bounded), collections in between",
  "The tests apply a few fixed gates; the reduced storage with marked pointers depends on sharing, order and cache contents.",
  [PKG, "include/dd/Node.hpp", "include/dd/Edge.hpp"], [("reduced products", PKG + ": multiply2, add2, applyOperationToDensity"), ("markers", "include/dd/Node.hpp: applyDmChangesToNode, revertDmChangesToNode"), ("read-out", PKG + ": getDensityMatrix, getProbVectorFromDensityMatrix")], DENSE)
P("C28", "Ancilla and garbage reduction remove exactly what they should",
  "Reducing a set of ancillary qubits sets exactly the columns (or rows) to zero in which one of them is one and keeps every other entry with its sign and phase; reducing garbage qubits moves every entry to the position in which they are zero, for reversible functions (also with phases) and for all matrices and states whose merged entries never meet; the result is canonical, is what is referenced afterwards, and the initial matrix for a set of ancillary qubits is the identity so reduced.",
  ["inputs"], "all matrices, all sets of ancillary qubits, both sides; garbage reduction for matrices and states whose merged entries do not meet",
  "The tests reduce one Bell circuit; successors that share a node but not their weight, repeated normalisation and phases never occur there.",
  [PKG], [("recursions", PKG + ": reduceAncillaeRecursion, reduceGarbageRecursion"), ("references", PKG + ": reduceAncillae, reduceGarbage, createInitialMatrix")], DENSE)
P("C29", "Deleting a successor zeroes exactly the entries reached through it",
  "Deleting the i-th successor of a qubit gives the canonical diagram of the vector or matrix in which all entries reached through that successor are zero and all others are unchanged; the given diagram is not changed.",
  ["inputs"], "all vectors and matrices, qubits and successors, also repeatedly",
  "The tests never call it; shared nodes and weights factored out on the way up depend on the diagram.",
  [PKG], [("recursion with a map of visited nodes", PKG + ": deleteEdge")], DENSE)
P("C30", "Closeness to the identity is decided correctly",
  "A matrix is reported close to the identity if, up to a common factor, all its entries deviate from the identity (with ancillary qubits allowed to be zero) by much less than the tolerance, and is not reported close if any entry deviates by much more, for every matrix, tolerance, and every circuit followed by its inverse.",
  ["inputs"], "all matrices and tolerances, deviations on and off the diagonal, all circuits with their possibly changed inverses",
  "The tests check six small matrices.",
  [PKG], [("recursive check", PKG + ": isCloseToIdentity, isCloseToIdentityRecursive")],
  "Deviations between a twentieth of the tolerance and a few times the tolerance are not judged; random search, nothing is proved.")
P("C32", "Reset and resize leave a package as good as new",
  "After a reset the package holds no nodes, references or cached results and computes the same as a new package; after a resize every earlier diagram keeps its meaning and references, diagrams of the new size can be built and operated on as in a new package, larger ones are rejected, and an impossible resize is rejected without effect.",
  ["histories"], "all programs before and after a reset or a resize",
  "The tests reset and resize a package once, with hardly anything in it.",
  [PKG, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComplexCache.hpp"], [("reset", PKG + ": reset, clearUniqueTables, clearComputeTables; include/dd/ComplexNumbers.hpp: clear"), ("resize", PKG + ": resize; include/dd/UniqueTable.hpp: resize")], DENSE)
P("C34", "Predefined gates are the gates their names say",
  "All predefined single- and two-qubit gate matrices, with every parameter value, equal their definition as exponentials of Pauli operators (or the standard constants), are unitary, and compose as they should (angles add, adjoint negates the angle, S = T^2 and so on).",
  ["inputs"], "all angles, all predefined gates, their diagrams under multiplication and adjoint",
  "The tests use a few special angles, and compare constructions with each other rather than with the definition.",
  ["include/dd/GateMatrixDefinitions.hpp"], [("gate matrices", "include/dd/GateMatrixDefinitions.hpp")],
  "Random angles against matrix exponentials by power series; nothing is proved.")
P("C36", "Packages are independent of each other",
  "Programs running in several packages in any interleaving compute the same as each alone; each diagram consists of nodes and numbers of its own package only, and resetting or destroying one package does not affect the others.",
  ["histories", "schedules"], "all interleavings of programs in two or three packages",
  "The tests hardly use two packages at once; anything shared by accident only shows in an interleaving.",
  [PKG, "include/dd/ComplexTable.hpp", "include/dd/UniqueTable.hpp"], [("per-package tables", PKG + ": compute tables, unique tables, complex numbers")], DENSE)
P("C31", "Wide diagrams up to 128 qubits behave like narrow ones",
  "Gates, products, states, amplitudes by name, measurements with collapse, kronecker products and identities on up to the maximum of 128 qubits, with controls and targets anywhere, act as the gates on the few qubits involved and as the identity (or the given basis value) on all others.",
  ["inputs", "histories"], "all programs on up to 128 qubits whose non-trivial part lives on a few qubits at arbitrary positions",
  "The tests use at most a handful of qubits for everything but identity and GHZ; positions above 63 and the last qubit, 127, are special for eight-bit qubit indices and 64-bit basis indices.",
  [PKG, "include/dd/Definitions.hpp"], [("gate construction", PKG + ": makeGateDD, makeTwoQubitGateDD, makeIdent"), ("measurement", PKG + ": measureAll, measureOneCollapsing"), ("limits", "include/dd/Definitions.hpp: Qubit, QubitCount")],
  "Compared with dense linear algebra on the involved qubits; random search, nothing is proved.")
P("C39", "Statistics and dumps of the tables report what happened",
  "The statistics of each table – caches of operations, unique tables, the table of numbers – report exactly the lookups made, those that found something, insertions, collections asked for and carried out, and the ratios of these, since the table was created or cleared; the dumps of a table list exactly the stored nodes or numbers, each with its level or bucket, value and count; the statistics of a package are those of its tables, each under its name.",
  ["histories"], "all histories of insertions, lookups, references, collections and clearing of each kind of table",
  "The tests print statistics but never read them.",
  ["include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp", "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ToffoliTable.hpp", "include/dd/DensityNoiseTable.hpp", "include/dd/StochasticNoiseOperationTable.hpp", PKG],
  [("caches", "include/dd/ComputeTable.hpp: lookup, printStatistics, hitRatio (and the other caches)"), ("tables", "include/dd/UniqueTable.hpp, include/dd/ComplexTable.hpp: printStatistics, getStatistics, print, printActive, printBucketDistribution"), ("package", PKG + ": statistics, printInformation")],
  "Counts are kept beside the table and compared with the parsed text; the number of collisions within a bucket is only checked for consistency; random search, nothing is proved.")
P("C33", "Printed diagrams and self-checks tell the truth",
  "Printing a state or matrix lists every amplitude or entry, in order, with its value to the printed precision; the local consistency check accepts a diagram exactly if its root and numbers are referenced and levels are successive, the global one exactly if the diagram holds all references to its nodes and numbers; printing, statistics and checks change nothing.",
  ["inputs", "histories"], "all states and matrices, all histories of references and collections, single damages of a diagram",
  "The tests call the checks on Bell states only and never look at printed diagrams.",
  [PKG, "include/dd/ComplexValue.hpp"], [("printing", PKG + ": printVector, printMatrix, statistics, debugnode"), ("checks", PKG + ": isLocallyConsistent, isGloballyConsistent")],
  "Printed text is parsed back; random search, nothing is proved.")
P("C20", "Unique tables store equal nodes once and hand out memory once",
  "Looking up a node in the unique table of its kind returns the stored node with the same level, successors and weights (and marks, for density nodes) or stores it, so that no two stored nodes are equal; a node handed out for filling is neither stored nor handed out elsewhere and has no references; the counts of nodes, active nodes (in total, per level, at most) and of references are those of the history; a collection removes exactly the unreferenced nodes, only when forced or needed, and leaves none to collect; releasing an unreferenced node is rejected; a count of references at its maximum is never left.",
  ["histories"], "all histories of taking, looking up, keeping, returning, referencing and releasing nodes, collecting, resizing and clearing, for every kind of node and size of table",
  "The tests store a handful of nodes in a table of default size, in which no bucket holds two of them and no memory is reused.",
  ["include/dd/UniqueTable.hpp", "include/dd/Node.hpp"], [("storage", "include/dd/UniqueTable.hpp: lookup, searchTable, getNode, returnNode, clear, resize"), ("references", "include/dd/UniqueTable.hpp: incRef, decRef, garbageCollect")],
  "Exercises the table on its own against a map; random search, nothing is proved.")
P("C35", "Long simulations with automatic collections stay correct",
  "A simulation that references each new state (or matrix) and releases the old one, and leaves it to the package when to collect, computes the same amplitudes as dense simulation, however long it runs and however many states live side by side; a call of the collector reports a collection exactly if one took place; in the end nothing but the held diagrams is referenced.",
  ["histories"], "all circuits and interleavings of gates, copies, measurements and comparisons of states with the default limits of a package",
  "The tests never come near the limits at which a package collects on its own; they force collections on empty or tiny packages.",
  [PKG, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp"], [("collection", PKG + ": garbageCollect"), ("limits", "include/dd/ComplexTable.hpp, include/dd/UniqueTable.hpp: possiblyNeedsCollection, garbageCollect")],
  "Up to 12 qubits (matrices: 6) and 300 gates; other work fills the number table so that collections become due; random search, nothing is proved.")
P("C37", "The numerical tolerance can be chosen and bounds the error",
  "With every tolerance from 1e-15 to 5e-6 programs and circuits give the results they give with the default tolerance up to a small multiple of the chosen one times their length; states that differ by much more than the tolerance are different diagrams and none is changed by more than the tolerance; the same input gives the same diagram; a circuit of standard gates followed by its inverse is the identity diagram.",
  ["inputs", "histories"], "all programs, circuits, states and tolerances in the range in which tolerance is smaller than half a bucket of the number table",
  "The tests change the tolerance once, to look at a single number.",
  [PKG, "include/dd/ComplexTable.hpp", "include/dd/ComplexNumbers.hpp"], [("tolerance", "include/dd/ComplexTable.hpp: setTolerance, lookup, find; " + PKG + ": normalize")],
  "The bound on the error is a multiple found to leave a margin of at least ten on the unchanged tree; random search, nothing is proved.")
P("C38", "Packages may be used by different threads at the same time",
  "Threads that each work in a package of their own, with any operations (construction, algebra, sizes, exports, reading back, measurements, reductions, density matrices, collections), compute the same as one after the other, whatever the schedule; no memory is shared between them that any of them writes.",
  ["schedules", "histories"], "all programs in two to four threads and all schedules of the threads",
  "The tests use a single thread; state shared by accident (a static, the common terminals and constants) only shows when threads meet in it.",
  [PKG, "include/dd/Node.hpp", "include/dd/ComplexTable.hpp", "include/dd/Edge.hpp"], [("shared constants and terminals", "include/dd/Node.hpp: terminalNode, applyDmChangesToNode; include/dd/Complex.hpp: zero, one; include/dd/ComplexTable.hpp: zero, sqrt2_2, one"), ("diagram size", PKG + ": size")],
  "Schedules are those the operating system provides; ThreadSanitizer reports any conflicting access irrespective of the timing; the tolerance, documented as global, is not changed meanwhile.")
P("C40", "Wide states in full superposition are computed correctly and with bounded effort",
  "States that standard gates (Hadamard, phase, Pauli, square root of X, controlled, swap and iswap gates) make from a basis state, with entanglement of a few qubits each, are the states the stabilizer formalism predicts on up to 72 qubits – amplitudes, overlaps, expectation values, measurement results, sums, operators and their products, adjoints and Kronecker products – although they have up to 2^72 amplitudes, and each operation is finished in a time that corresponds to the size of the diagrams, not to the number of amplitudes.",
  ["inputs", "histories"], "all circuits of these gates with bounded entanglement on 2 to 72 qubits",
  "The tests compute with few qubits or with states of few amplitudes; a result cached wrongly, or not at all, shows only when a diagram stands for more amplitudes than can be visited.",
  [PKG, "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp"],
  [("operations and their caches", PKG + ": add2, multiply2, kronecker2, transpose, conjugateTranspose, innerProduct, assignProbabilities, deleteEdge"), ("caches", "include/dd/ComputeTable.hpp, include/dd/UnaryComputeTable.hpp")],
  "Oracle: a stabilizer tableau, and a generous limit of CPU time per operation; random search, nothing is proved.")
P("C41", "Requests that are rejected leave the package as it was",
  "A request that is rejected – states, gates and matrices that do not fit the package, vectors and matrices of a wrong shape, measurements of states that are not normalised, operands of different sizes, damaged texts, missing files, too many qubits, releasing what is not referenced – changes no diagram, no reference and no count, uses up no memory for good, and everything computed later is the same as without the request.",
  ["inputs", "histories"], "all programs with rejected requests at any point",
  "The tests check that some requests are rejected, and stop there.",
  [PKG, "include/dd/UniqueTable.hpp", "include/dd/ComplexNumbers.hpp"],
  [("rejections", PKG + ": makeZeroState, makeBasisState, makeGateDD, makeStateFromVector, makeDDFromMatrix, measureAll, measureOneCollapsing, expectationValue, deserialize, resize, decRef"), ("releases", "include/dd/UniqueTable.hpp: decRef")],
  "Oracle: the same program without the requests, and counts before and after; random search, nothing is proved.")
P("C42", "Memory handed out is in use or available again",
  "After any operation – construction, algebra, measurement, reduction, reading back, transfer, density matrices, collections – each node the tables have allocated is stored in its table or available for the next node, never both and never neither; the same holds for numbers, and no cached number is kept; so a package that runs programs again and again, releasing their diagrams and collecting, needs no more memory and computes the same as a new one.",
  ["histories"], "all programs, repeated or one after the other, in one package",
  "The tests look at counts of active nodes after a few operations; a node that is lost on the way is counted nowhere.",
  [PKG, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComplexCache.hpp"],
  [("handing out and taking back", "include/dd/UniqueTable.hpp: getNode, returnNode, lookup, garbageCollect; include/dd/ComplexTable.hpp: getEntry, returnEntry; include/dd/ComplexCache.hpp: getCachedComplex, returnToCache"), ("users", PKG + ": makeDDNode, normalize, add2, multiply2, measureOneCollapsing, ...")],
  "The available nodes are taken one by one from the tables of the running package and given back; random search, nothing is proved.")
P("C43", "Circuits compute what their algorithms are known to compute",
  "A simulator that does what the documentation shows – apply gates, keep references to the current state, collect, measure, react to outcomes – obtains the known result of the algorithm it runs: Fourier transforms and their matrices, amplitude amplification, hidden strings, sums, estimated phases, shared excitations, teleported states and corrected errors, whatever the inputs, sizes, positions of the qubits and times of collections; at the end nothing is left behind.",
  ["inputs", "histories"], "all inputs, sizes (up to 100 qubits) and times of collections",
  "The examples among the tests run a few algorithms for one input each, and mostly check sizes or that an amplitude is not zero.",
  [PKG, "include/dd/GateMatrixDefinitions.hpp"],
  [("gates and products", PKG + ": makeGateDD, makeSWAPDD, multiply, add2, normalize, conjugateTranspose"), ("measurement", PKG + ": measureAll, measureOneCollapsing, fidelity"), ("collections", PKG + ": incRef, decRef, garbageCollect")],
  "Closed formulas instead of a simulator as oracle; random search, nothing is proved.")
