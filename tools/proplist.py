PATHS = 'Path-sensitive dataflow over LLVM IR, every path with loops to a fixed point. '
TRUST = 'Trusts clang\'s lowering, the instantiation with the default configuration, and that distinct access paths do not alias unless the code compares them. '

prop('C01', 'Collection never leaves a stale memoised result and reports truthfully',
     'When garbage collection reclaims any node or number, every memoised result that may refer to something of the reclaimed kind is discarded before the collection returns, so no later operation is answered with reclaimed storage. '
     'When numbers were reclaimed, unreferenced nodes of every kind are reclaimed in the same collection. The collection returns true exactly when it reclaimed something.',
     ['histories', 'configurations'], 'every history of operations and collections, every combination of what the collection of each table reclaims',
     'the tests trigger only a handful of collections and never reuse a memoised result after one',
     [PK, UT, CT], [('garbageCollect', PK), ('clearIdentityTable', PK)],
     (('effect analysis over all paths of the collector against the type-derived table of what each memo table can hold'),
      PATHS + 'Which memo table can hold what is derived from the member types; decides every combination of collected/not collected. Assumes a table\'s clear() really empties it (C06).'))

prop('C02', 'Collection reclaims exactly the unreferenced nodes and numbers',
     'A collection that runs visits every stored node (or number) of a table exactly once, removes precisely those with reference count zero and keeps all others findable, including the ones next to removed ones. '
     'It returns the number of removed elements, leaves the table\'s element count equal to the number kept, and does nothing at all when it is not forced and the limit has not been reached. Numbers are only collected if the table holds more than one.',
     ['histories', 'inputs'], 'every bucket content, any chain length, any distribution of reference counts',
     'tests check collected counts on a few small tables; chains with particular patterns of live and dead elements are not sampled',
     [UT, CT], [('UniqueTable::garbageCollect', UT), ('ComplexTable::garbageCollect', CT)],
     ('inductive list-walk effect analysis (loop iterations widened, one symbolic element per iteration)',
      PATHS + 'One arbitrary iteration is decided for every combination of the facts, plus full-range coverage of the bucket loops. Assumes acyclic chains.'))

prop('C04', 'Reference counting pairs exactly',
     'Referencing (releasing) a diagram raises (lowers) by one the count of its top node and of both components of its weight, and proceeds to every child exactly when that node becomes referenced (unreferenced); the counts of active nodes, in total and per variable, follow. '
     'Static numbers, terminals and saturated counts are never changed. Releasing a node or number whose count is zero is reported as an error before any node count changes.',
     ['histories', 'inputs'], 'every diagram, every history of referencing and releasing',
     'tests reference a few diagrams; imbalance shows only after particular release orders followed by collections',
     [UT, CT, CN], [('UniqueTable::incRef/decRef', UT), ('ComplexTable::incRef/decRef', CT), ('ComplexNumbers::incRef/decRef', CN), ('Package::incRef/decRef', PK)],
     ('effect summaries of every path compared with the counting protocol (recursive calls summarised)',
      PATHS + 'Recursion is closed by the contract being checked (induction over the diagram).'))

prop('C06', 'Memo tables answer only for what was stored',
     'A memo table returns a stored result only for the very operands it was stored for: the same nodes, weights equal within the tolerance, the same control set, qubit count, target, operation kind, affected qubits and density-matrix kind and, for products and noise results of density matrices, the marks the nodes had been given. '
     'The answer is exactly the stored result, no part of it replaced. Storing overwrites the whole entry. After a memo table has been cleared, no earlier result is ever answered again.',
     ['histories', 'inputs'], 'every sequence of stores, lookups and clearings of every memo table, including colliding operands',
     'collisions of the hash slots of the memo tables are rare and unsampled; tests never inspect a memo table after clearing it',
     ['include/dd/ComputeTable.hpp', 'include/dd/UnaryComputeTable.hpp', 'include/dd/ToffoliTable.hpp', 'include/dd/DensityNoiseTable.hpp', 'include/dd/StochasticNoiseOperationTable.hpp'],
     [('ComputeTable::lookup/insert/clear', 'include/dd/ComputeTable.hpp'), ('UnaryComputeTable::lookup/insert/clear', 'include/dd/UnaryComputeTable.hpp'),
      ('ToffoliTable::lookup/insert/clear', 'include/dd/ToffoliTable.hpp'), ('DensityNoiseTable::lookup/insert/clear', 'include/dd/DensityNoiseTable.hpp'),
      ('StochasticNoiseOperationTable::lookup/insert/clear', 'include/dd/StochasticNoiseOperationTable.hpp')],
     ('must-compare dataflow: on every path that answers, each stored operand component is known equal to the requested one; full-range coverage of clearing loops',
      PATHS + 'Every table of the package is analysed at its own instantiation. The tolerance comparison and the hash functions are opaque.'))

prop('C13', 'Unique tables: no two equal nodes, lookups answer exactly',
     'Looking a node up returns a stored node of the same level and hash bucket exactly when one agrees with it in every successor (same node, weight equal within the tolerance) and, for density matrices, in its flags; the whole bucket is searched before concluding that there is none. '
     'Otherwise the node itself is stored at the front of that bucket, counted once and returned. The weight asked with is kept, terminal edges bypass the table, and no stored node is changed. '
     'A duplicate goes back to the pool exactly when it is a different node than the one found and the caller does not keep it. The hash of a node depends on its successors only.',
     ['histories', 'inputs'], 'every bucket content of any length and every node looked up, for vector, matrix and density-matrix nodes',
     'tests never inspect buckets; long chains, duplicates at their end and kept duplicates do not occur in them',
     [UT], [('UniqueTable::lookup/searchTable/nodesAreEqual/hash', UT)],
     ('inductive list-walk analysis: must-differ facts on passing, must-equal facts on answering, effect summary on storing',
      PATHS + 'One arbitrary iteration of the chain walk is decided for every combination of the comparison outcomes. Assumes acyclic chains.'))

prop('C14', 'Interning a number finds or stores it exactly once',
     'Interning a number answers with 0, 1 or sqrt(1/2) exactly when it is within tolerance of that constant, otherwise with a stored number known to be within tolerance, and stores a new one only if none within tolerance is in the bucket of its value, nor, at a bucket border, at the adjoining end of the neighbouring bucket. '
     'A new entry holds exactly the number, goes to the bucket of its value between the last smaller and the first larger number, becomes the tail iff it is last, and is counted once. Interning a complex number gives each part the entry of its magnitude, marked negative exactly for negative numbers; parts within tolerance of 0 become the one unmarked 0.',
     ['inputs', 'histories'], 'every number and every content of the table',
     'tests sample a few values and borders; the outcome depends on the whole content of two buckets and on values within 2e-13 of a border or of the tolerance itself',
     [CT, CN], [('ComplexTable::lookup/findOrInsert/insert/hash', CT), ('ComplexNumbers::lookup', CN)],
     ('inductive list-walk analysis with order facts and per-path obligations on answers and insertions',
      PATHS + 'Comparison of doubles is treated as exact order facts. Which of two stored numbers within tolerance is answered is not specified. Assumes buckets are wider than the tolerance and sorted before (inductive).'))

prop('C23', 'Clearing and resetting leave nothing behind',
     'After a unique table, the number table or the cache of scratch numbers has been cleared, it is empty: no bucket (or bucket tail) leads to an element, the free list is empty, every count of elements and of active nodes (in total and per variable) is zero, '
     'storage is handed out again from the start of the first chunk with reference counts zero, only that chunk is kept, and the collection limit is that of a new table. Clearing the numbers clears both the table and the cache. '
     'Resetting a package clears all unique tables, all memo tables including the identity table, and the numbers; clearing the memo tables clears all of them.',
     ['histories'], 'every content before the clearing',
     'tests clear tables and look at a few counters; leftovers show only in later lookups that happen to hit the same bucket',
     [UT, CT, CC, CN, PK], [('UniqueTable::clear', UT), ('ComplexTable::clear', CT), ('ComplexCache::clear', CC), ('ComplexNumbers::clear', CN), ('Package::reset', PK)],
     ('effect analysis: full-range coverage of the clearing loops and final value of every field, compared with what the constructor stores',
      PATHS + 'Statistics counters are not part of the property except as constants equal to those of a new table.'))

prop('C24', 'Storage is handed out to one user at a time',
     'The pools of nodes, numbers and scratch numbers hand an element out only if it is not in use: a returned element is reused first, leaving the free list, with its reference count reset to zero; otherwise the next element of the current chunk is handed out, '
     'never past its end; if the chunk is exhausted a new non-empty chunk is added and its first element handed out. The two parts of a scratch number are different elements. A returned element joins the free list and no free element is lost. '
     'A temporary scratch number stays available to the next request. The number of scratch numbers in use follows.',
     ['histories'], 'every sequence of taking and returning, including chunk borders',
     'tests allocate whole chunks once; mixing reuse, temporaries and chunk borders is not sampled',
     [UT, CT, CC], [('UniqueTable::getNode/returnNode', UT), ('ComplexTable::getEntry/returnEntry', CT), ('ComplexCache::getCachedComplex/getTemporaryComplex/returnToCache', CC)],
     ('typestate analysis of the pools: every path of taking and returning decided against the free-list/chunk protocol',
      PATHS + 'Relies on the invariant that the last chunk added is the current one, which clear() (C23) and every path preserve. Callers that return an element twice are out of scope here.'))

prop('C18', 'Gate matrices are the standard definitions',
     'Every gate matrix is, entry by entry and for all parameters, the textbook operator of its name: I, H, X, Y, Z, S, T, SX, V and their adjoints, U3(lambda, phi, theta), U2(lambda, phi), the phase gate, RX, RY, RZ, '
     'CX, CZ, SWAP, iSWAP and its inverse, ECR, DCX, RXX, RYY, RZZ, RZX, and the XX-YY and XX+YY interactions with angle theta and phase beta. Each is unitary, and the matrix named as an adjoint is the conjugate transpose of its partner.',
     ['inputs'], 'every real value of every parameter',
     'tests compare a few parameter values; an entry that is wrong only for a combination of angles passes',
     ['include/dd/GateMatrixDefinitions.hpp'], [('all gate matrices', 'include/dd/GateMatrixDefinitions.hpp')],
     ('value numbering into polynomial normal forms over sines and cosines, compared with the definitions',
      PATHS + 'Equality over the reals, rounding ignored.'))

prop('C25', 'Complex arithmetic is exact whatever numbers share storage',
     'Adding, subtracting, multiplying and dividing complex numbers leaves in the destination the real and imaginary part of the mathematical result of the operands as they were before, even if the destination is one of the operands or shares components with them, and changes nothing else; marks of negative components are respected. '
     'A product or quotient may only be shortened if an operand is within tolerance of 1 or 0, or the operands of a quotient within tolerance of each other. Magnitude, squared magnitude and argument are those of the number; conjugation flips the mark of the imaginary part and negation of both, never marking the static 0. '
     'The comparisons of numbers, exact and within tolerance, answer true exactly when both parts satisfy them. A new scratch number holds the value asked for.',
     ['inputs'], 'every operand values and every sharing of components between destination and operands',
     'tests compute a few results into fresh destinations; in-place results with shared components are produced only inside larger operations',
     [CN, CX, CT, CV], [('ComplexNumbers::add/sub/mul/div/mag/mag2/arg/conj/neg', CN), ('Complex predicates', CX), ('ComplexTable::Entry', CT), ('ComplexValue', CV)],
     ('value numbering over every path and every aliasing of the operands, compared as polynomials with the definitions',
      PATHS + 'Every sharing of destination and operand components is a separate initial state. Equality over the reals, rounding ignored.'))

OPS = [('Package::add/add2', PK), ('Package::multiply/multiply2', PK), ('Package::transpose', PK), ('Package::conjugateTranspose', PK), ('Package::innerProduct/fidelity/expectationValue', PK), ('Package::kronecker/kronecker2', PK), ('Package::partialTrace/trace', PK)]
PRE = 'Operands are diagrams over the same qubits whose zero edges are zero terminals; recursive calls are closed by the contract being checked (induction over the diagram). '

prop('C07', 'Memoised results belong to their operands',
     'While adding, multiplying, transposing, adjoining and taking Kronecker products of vector and matrix diagrams and taking inner products, what is recorded in a memo table is the result of that very operation for exactly the operands (nodes and weights) under which it is recorded, '
     'and a recorded result is used only as the result for the operands it is asked with, rescaled by factors that were not part of the request. No two of these operations share a memo table.',
     ['inputs', 'histories'], 'every pair of operands and every content of the memo tables that earlier operations left',
     'a wrong entry shows only when a later operation hits it; tests rarely repeat sub-operations with other weights',
     [PK], OPS[:6],
     ('value numbering over every path: recorded edge and recorded operands compared as polynomials with the definition of the operation',
      PATHS + PRE + 'Assumes the tables themselves (C06).'))

prop('C08', 'Scratch numbers and nodes are not leaked, reused or used after release',
     'Adding, multiplying, transposing, adjoining and taking Kronecker products of vector and matrix diagrams, traces, inner products, fidelities, expectation values and the construction of nodes give back every scratch number they take, exactly once, unless it is the weight of their result, '
     'never use one after giving it back, hand each scratch number to the construction of a node at most once, and use no node after a collection that may have reclaimed it. So an operation leaves as many scratch numbers in use as before.',
     ['inputs', 'histories'], 'every operands, including equal ones, zeros and terminals, with and without memo hits',
     'a leaked or doubly returned scratch number goes unnoticed until much later, on rarely taken paths',
     [PK, CC], OPS + [('Package::makeDDNode/normalize', PK)],
     ('typestate analysis of scratch numbers over every path of every operation, with contracts for recursive calls',
      PATHS + PRE))

prop('C10', 'Operations change nothing that is published',
     'Adding, multiplying, transposing, adjoining and taking Kronecker products of vector and matrix diagrams, traces, inner products, fidelities, expectation values and the construction of nodes write only to scratch numbers of their own and to a node that is not stored yet: operands, stored nodes and stored numbers keep their values. '
     'The weights of the edges these functions return to the user, of the edges they record in memo tables, and of the successors of stored nodes are stored numbers, never scratch numbers that will be reused.',
     ['inputs', 'histories'], 'every operands, including equal ones, zeros and terminals, with and without memo hits',
     'changing a shared number or publishing a scratch number corrupts unrelated diagrams later; tests compare results immediately',
     [PK, CN, CC], OPS + [('Package::makeDDNode/normalize', PK)],
     ('effect and ownership analysis of every store over every path of every operation',
      PATHS + PRE))

prop('C16', 'Addition and multiplication compute the sum and the product',
     'Adding two vector or two matrix diagrams, multiplying a matrix diagram with a vector diagram and multiplying two matrix diagrams give a diagram of the entry-wise sum, the matrix-vector product and the matrix product, '
     'whatever the weights of the operands, whether they coincide, are zero or terminal, whether results were memoised, and from whatever lowest level the operands start.',
     ['inputs'], 'all diagrams over the same qubits, any weights, any number of qubits',
     'tests multiply a few gates and states; a path that mixes up a successor or loses a weight needs particular operands',
     [PK], OPS[:2],
     ('value numbering into polynomials over the operands\' successors, compared with the definition, on every path (induction over the diagram)',
      PATHS + PRE + 'Up to rounding and tolerance. Assumes node construction (C30), memo tables (C06, C07) and number arithmetic (C14, C25).'))

prop('C17', 'Transpose, adjoint, inner product, fidelity and expectation are right',
     'Transposing a matrix diagram gives the diagram of the transposed matrix, adjoining it that of the conjugate transpose. The inner product of two vector diagrams is linear in the second and conjugate-linear in the first; the fidelity is its squared magnitude; '
     'the expectation value of a matrix for a state is the real part of the inner product of the state with the matrix applied to it. This holds for all weights, for equal, zero and terminal operands and with memoised results.',
     ['inputs'], 'all diagrams over the same qubits, any complex weights',
     'tests use mostly real weights and symmetric matrices, for which a missing conjugation or swap is invisible',
     [PK], OPS[2:5],
     ('value numbering into polynomials over the operands\' successors, compared with the definition, on every path (induction over the diagram)',
      PATHS + PRE + 'Up to rounding and tolerance. Assumes node construction (C30), memo tables (C06, C07), number arithmetic (C14, C25), and that a matrix flagged symmetric is its own transpose.'))

prop('C09', 'Kronecker products are products at the right levels',
     'The Kronecker product of two vector or two matrix diagrams has the entries of the first operand times those of the second, the first operand deciding the high bits. Its levels are those of the second operand and above them those of the first: moved up by the number of levels of the second '
     'where asked for (both operands starting at level 0), otherwise as they are (the first starting above the second). This holds for all weights, for identities, zero and terminal operands, and with memoised results.',
     ['inputs'], 'all pairs of diagrams of one kind, any weights and numbers of levels',
     'tests multiply a few gates and states with weight one',
     [PK], OPS[5:6],
     ('value numbering into polynomials over the operands\' successors, compared with the definition, on every path (induction over the diagram and, for identities, over the loop)',
      PATHS + 'Zero edges are zero terminals. Up to rounding and tolerance. Assumes node construction (C30), memo tables (C06, C07), number arithmetic (C14, C25), and that a matrix flagged as identity is the identity on all levels from 0 up to its own.'))

prop('C11', 'Traces sum the diagonal blocks of the levels traced out',
     'The partial trace of a matrix diagram over the levels marked in a list with one element per level of the diagram is the diagram of the matrix whose entries are the sums, over all values of the bits of the marked levels, of the entries with the same such value in row and column. '
     'The levels that are kept stay in their order, each lowered by the number of marked levels below it; nothing marked gives the operand itself. The trace of a matrix diagram is the sum of its diagonal entries. This holds for all weights, whichever levels are marked, for shared and zero successors and terminal operands.',
     ['inputs'], 'all matrix diagrams and all lists of levels',
     'tests trace the identity only',
     [PK], OPS[6:],
     ('value numbering into polynomials over the operand\'s successors, compared with the definition, on every path (induction over the diagram), with the marks of the levels as opaque facts',
      PATHS + 'Zero edges are zero terminals. Up to rounding and tolerance. Assumes node construction (C30), sums (C16) and number arithmetic (C14, C25).'))

prop('C30', 'Building a node keeps its meaning and yields the normal form',
     'Building a vector, matrix or density-matrix node from successor edges gives an edge whose weight times the weight of each stored successor is the weight of the successor handed over, with the same successor nodes, and zero if all successors are zero. '
     'In the stored node, successors with weight zero are zero terminals; for matrices some successor weight is exactly one and belongs to a successor of largest magnitude (up to the tolerance); for vectors the squared magnitudes sum up to one and a successor of largest magnitude is real. '
     'The node is at the level asked for, is looked up with no flag but that of density matrices where asked for, and the node taken from the pool is either stored or given back, once.',
     ['inputs'], 'all successor edges and weights, stored or scratch, with zeros, ties and nearly zero weights',
     'tests build nodes from a few weights; ties, near-zeros and scratch weights in a particular successor are not sampled',
     [PK], [('Package::makeDDNode', PK), ('Package::normalize', PK)],
     ('value numbering and typestate over every path of node construction with normalisation inlined',
      PATHS + 'Up to rounding and tolerance. Successors handed over that are zero are zero terminals. Assumes unique tables (C13), number table (C14), pools (C24) and arithmetic (C25).'))

prop('C26', 'Controls and edges compare as values',
     'Controls are totally ordered by qubit and, on the same qubit, negative before positive; they are equal exactly when qubit and type agree, and unequal otherwise. The comparison used by control sets orders the same way and compares a control with a bare qubit by its qubit alone, in either order. '
     'The literals give a positive respectively negative control on that qubit. Two edges, stored or memoised, are equal exactly when their nodes are the same and both parts of their weights are within tolerance, and unequal otherwise. '
     'An edge is terminal exactly when its node is the terminal of its kind, and the zero (one) terminal exactly when in addition its weight is the stored 0 (1). The ready-made terminal edges are what they are named after.',
     ['inputs'], 'every pair of controls, every pair of edges',
     'the tests compare a handful of controls; an inconsistent order shows only as a missing element of a set of controls',
     ['include/dd/Control.hpp', ED], [('Control operators, CompareControl', 'include/dd/Control.hpp'), ('Edge/CachedEdge operators and predicates', ED)],
     ('case analysis of every path over the orders of qubits, the types, and the outcomes of the comparisons of edge parts',
      PATHS + 'Whether a weight part is within tolerance is the outcome of the one tolerance comparison (C25).'))

prop('C27', 'Matrix nodes are marked as symmetric or identity exactly when they are',
     'The terminal matrix node is marked as symmetric and as identity. Any other stored matrix node is marked as symmetric exactly when the nodes of its two diagonal successors are and its other two successors are transposes of each other (same node, weights equal within the tolerance), '
     'and marked as identity exactly when the nodes of its diagonal successors are, both with weight exactly one, and its other two successors are zero. The marks of a node are determined when it is stored, whatever weights it is built from, are answered as they were determined, and setting one leaves the other as it is.',
     ['inputs'], 'all successors of matrix nodes',
     'the tests look at the marks of identities only; a wrong mark shows only in a later operation that takes a shortcut',
     [PK, 'include/dd/Node.hpp'], [('Package::checkSpecialMatrices/makeDDNode', PK), ('mNode::isIdentity/isSymmetric/setIdentity/setSymmetric', 'include/dd/Node.hpp')],
     ('must-facts on every path of the marking function (with the transpose replaced by its contract) against the definition, and call-graph reachability of the setters',
      PATHS + 'Assumes transposition (C17) and node construction (C30).'))

GM = 'include/dd/GateMatrixDefinitions.hpp'
prop('C31', 'Prepared states and imported operands hold what was asked for',
     'The zero state, the basis states given by bits or by kinds (|0>, |1>, |+>, |->, |R>, |L>) and the zero density operator have, for all numbers of qubits and lowest levels, exactly the amplitudes asked for: the state of level p is element p of the list, for p from the lowest level start to start+n-1. '
     'The diagram of a vector or matrix with a power of two of entries (per side) has every entry where its row and column bits, highest level first, lead; a single entry gives a terminal edge with that weight, an empty operand the terminal one. '
     'Every scratch number taken during an import is the weight of exactly one edge or is given back, and the weight of the result is a stored number.',
     ['inputs'], 'all lists of bits and kinds, numbers of qubits, lowest levels, vectors and matrices of any power-of-two size',
     'tests import vectors with up to 8 and matrices with up to 16 entries and make states of few qubits',
     [PK], [('Package::makeZeroState', PK), ('Package::makeBasisState', PK), ('Package::makeZeroDensityOperator', PK), ('Package::makeStateFromVector', PK), ('Package::makeDDFromMatrix', PK)],
     ('structural value numbering of the nodes built with roles inductive over the loops; index intervals of the recursive imports as linear forms over the size',
      PATHS + 'Operand sizes are powers of two. Assumes node construction (C30). Numbers that are kept are equal up to the tolerance (C01).'))

prop('C21', 'What a package cannot hold is refused and leaves no trace',
     'Zero states, basis states, one- and two-target gates (with no, one or many controls) on levels start to start+n-1, zero density operators, identities, imported vectors and matrices, and Kronecker products of two factors (their levels added up) are refused with std::runtime_error whenever they need more levels than the package has qubits; '
     'basis states also when the list of bits or kinds has fewer than start+n elements. Imports are refused with std::invalid_argument when the vector or matrix does not have a power of two of entries (per side) or when any row of the matrix is not as long as there are rows; so is resizing a package to more than 128 qubits. '
     'Requests that fit are not refused. A refused request has built no node, taken no number and changed nothing.',
     ['inputs'], 'all sizes, lowest levels, operands and sizes of the package',
     'tests try one size that does not fit for some of the functions, all with start 0',
     [PK], [('Package::makeZeroState', PK), ('Package::makeBasisState', PK), ('Package::makeGateDD', PK), ('Package::makeTwoQubitGateDD', PK), ('Package::makeZeroDensityOperator', PK), ('Package::makeIdent', PK),
            ('Package::makeStateFromVector', PK), ('Package::makeDDFromMatrix', PK), ('Package::kronecker', PK), ('Package::resize', PK)],
     ('path-sensitive facts about levels and sizes as linear inequalities at every construction step and every throw',
      PATHS + 'Numbers of levels fit their types. Targets and controls within the levels of the gate are a precondition.'))

prop('C20', 'Gate and identity diagrams apply the matrix where asked',
     'The diagram made for a 2x2 matrix, a target and any set of positive and negative controls acts as the matrix on the target where all controls are satisfied and as the identity elsewhere and on every other level, and has its top node at the highest of the levels start to start+n-1, whatever the positions of target and controls, with no, one or many controls. '
     'The diagram made for a 4x4 matrix and two targets acts as the matrix on them, the first target being the high bit of its row and column index, whichever target is above, and as the identity on all other levels. '
     'The identity diagram asked for covers exactly the levels asked for, whatever identities were asked for before; for no levels it is the terminal one.',
     ['inputs', 'histories'], 'all matrices, targets, sets of controls, lowest levels and numbers of qubits, every history of identities asked for',
     'tests build gates for a few control patterns on up to three qubits, mostly with start 0',
     [PK], [('Package::makeGateDD', PK), ('Package::makeTwoQubitGateDD', PK), ('Package::makeIdent', PK)],
     ('structural value numbering of the nodes built, with roles of edges inferred and proved inductive over the loops',
      PATHS + 'Controls lie on levels start..start+n-1 and are not the target, targets are different, numbers of levels fit their types. Assumes node construction (C30) and the order of controls (C26).'))

prop('C19', 'Composite two-target gates are the operators of their names',
     'SWAP, iSWAP and its inverse, DCX, ECR, RXX, RYY, RZZ, RZX and the XX-YY and XX+YY interactions, made without controls, are the standard operators on their two targets (first target: high bit) for all angles and any lowest level. '
     'Made with a set of controls they are the same operators where all controls are satisfied and the identity elsewhere. The Peres gate is a CX from the second to the first target followed by an X on the second, and its adjoint is the inverse, each under the controls.',
     ['inputs'], 'all real angles, all targets, sets of controls, lowest levels and numbers of qubits',
     'tests compare controlled and uncontrolled versions for one or two angles with one control on three qubits',
     [PK], [('Package::makeSWAPDD', PK), ('Package::makePeresDD', PK), ('Package::makePeresdagDD', PK), ('Package::makeiSWAPDD', PK), ('Package::makeiSWAPinvDD', PK), ('Package::makeDCXDD', PK),
            ('Package::makeRZZDD', PK), ('Package::makeRYYDD', PK), ('Package::makeRXXDD', PK), ('Package::makeRZXDD', PK), ('Package::makeECRDD', PK), ('Package::makeXXMinusYYDD', PK), ('Package::makeXXPlusYYDD', PK)],
     ('abstract evaluation of the composed gates as matrices of polynomials in sines and cosines, compared with the definitions',
      PATHS + 'Equality over the reals. The controls are not the targets. Assumes gate diagrams (C20), products (C16) and gate matrices where the definition is used (C18).'))

prop('C32', 'Reading amplitudes gives the numbers the diagram stands for',
     'For every vector, matrix and density-matrix diagram of at least one level, getVector, getMatrix and getDensityMatrix give 2^levels (by 2^levels) numbers, the number at an index (row, column) being the product of the weights along the path that takes at each level v the successor selected by bit v of the index (of row and column), and zero where a weight on the path is zero. '
     'getValueByPath with an index (or row and column) gives the same number. Exporting amplitudes into a vector writes, and adding amplitudes adds, these numbers at these indices for every index of the given number of levels, including the indices below a zero edge. '
     'Reading gives back every scratch number it takes, and leaves a density matrix\'s edges as they were.',
     ['inputs'], 'all diagrams, indices and numbers of levels',
     'tests read states and matrices of up to three qubits, mostly real or symmetric, where row and column or conjugate cannot be told apart',
     [PK], [('Package::getVector', PK), ('Package::getMatrix', PK), ('Package::getDensityMatrix', PK), ('Package::getValueByPath', PK), ('Package::exportAmplitudesRec', PK), ('Package::addAmplitudesRec', PK)],
     ('path enumeration of the reading recursions with products as polynomials and indices as linear forms over powers of two of levels',
      PATHS + 'Equal up to the tolerance of what counts as a zero weight. Diagrams skip levels only below zero edges; indices have no more bits than there are levels. Reading by a string of successors and printing are not covered.'))

prop('C33', 'Cutting blocks out of a diagram leaves the rest alone',
     'deleteEdge(x, v, i) of a vector or matrix diagram, for an existing successor index i, gives the diagram in which the i-th successor of every node of level v is zero and everything else, with all weights, is as in x, however nodes are shared. '
     'reduceAncillae(x, marks, regular), with one mark per level, gives the matrix in which, for every marked level, the entries whose column bit (regular) or row bit (not regular) of that level is 1 are zero and all other entries are those of x, for every set of marked levels and all weights, also of successors that share a node. '
     'When it returns a new diagram it has moved the caller\'s reference from x to it, one decRef and one incRef; when there is nothing to do it returns x and counts nothing. createInitialMatrix(n, marks) is this for the columns of the referenced identity on n levels.',
     ['inputs'], 'all diagrams, levels, successors and sets of marked levels',
     'deleteEdge and reduceAncillae are tested on one diagram each, with unit weights and no shared successors of different weights',
     [PK], [('Package::deleteEdge', PK), ('Package::reduceAncillae', PK), ('Package::reduceAncillaeRecursion', PK), ('Package::createInitialMatrix', PK)],
     ('path enumeration of the recursions with edge values as polynomials over the successors; invariant of the table of finished nodes; induction over the loop that finds the lowest mark',
      PATHS + 'Equal up to rounding. Assumes node construction (C30), number arithmetic (C25, C14) and the standard containers.'))

prop('C34', 'Counting nodes and testing for the identity miss nothing',
     'size(x) of a state or operator is the number of distinct nodes reached from its root, the terminal node included, each counted once however it is shared, whatever was counted before. '
     'isCloseToIdentity(m, tol) is true exactly when every node reached from the root by first and last successors, down to the terminal and to nodes marked as identities, has second and third successors of squared magnitude at most tol, a first successor whose squared magnitude is within tol of 1 and whose argument is within tol of 0, '
     'and a last successor which either is close to 1 in the same way or has a squared magnitude of at most tol; the weight of the root does not matter.',
     ['inputs'], 'all diagrams, however nodes are shared, and tolerances',
     'tests count nodes of a few small diagrams and test the identity on a handful of gates',
     [PK], [('Package::size', PK), ('Package::nodeCount', PK), ('Package::isCloseToIdentity', PK), ('Package::isCloseToIdentityRecursive', PK)],
     ('path enumeration of the recursions with the set of nodes met as an abstract growing set; the answer against the comparisons made on the path',
      PATHS + 'Diagrams have no cycles; marks as specified by C27; assumes std::unordered_set. Comparisons written as intervals instead of distances are not recognised.'))

prop('C22', 'Diagrams written in binary, read back or transferred are rebuilt node by node',
     'The binary form of a state or operator is a header (format version, real and imaginary part of the root weight) followed by one record per node: its number, its level and, for every successor in order, the number of its node (-1 for the terminal node) and the real and imaginary part of its weight, each with the sign and precision it has. Nodes are numbered 0, 1, 2, ... as they are written; the number of a successor is the one recorded for its node; the successors of an operator\'s node that were not written before are written before it. '
     'Reading takes exactly the same fields in the same order: every complete record yields a node built on the level read with, for successor number -1 the terminal node and otherwise the node read under that number, and with the weights read, and is remembered under its number. The result is the last node read, its weight multiplied by the root weight of the header. Another version, an incomplete record, a level the package does not have and a successor that was not defined before are refused with std::runtime_error. '
     'Transferring a diagram builds for every node it completes one node on the same level whose successors are the copies recorded for the successors (terminals stay) with interned weights of the same value, and records it as the copy of that node; the result is the copy of the root with its weight multiplied by the root weight, a terminal diagram keeps its weight. A diagram on more levels than the package has is refused. '
     'The order in which the explicit stacks of the state writer and of transfer reach the nodes, diagrams without nodes, and the text form are not covered.',
     ['inputs', 'histories'], 'every diagram of states and operators, every input stream, every pair of packages',
     'the tests write and read back a handful of diagrams and one wrong version; damaged input, negative and shared weights, and the layout of every record are not sampled',
     [PK, 'include/dd/Export.hpp', CX, CV, CT],
     [('dd::serialize/serializeMatrix', 'include/dd/Export.hpp'), ('Package::deserialize/deserializeNode/transfer', PK), ('Complex::writeBinary', CX), ('ComplexValue::readBinary', CV)],
     ('record-by-record effect analysis of writer and reader over all paths (streams, maps and stacks as abstract containers), compared with one layout; loops to a fixed point',
      PATHS + 'Standard-library streams and containers are modelled by their documented behaviour. Assumes node construction (C30) and interning (C14).'))

prop('C29', 'Marked density matrices: nodes entered are left as they were, products are right',
     'An edge of a density matrix may carry marks: density matrix, first path, conjugated. Entering a node through an edge marked as density matrix frees the pointer of its marks and makes the node read as the marks say: on a first path that is not conjugated its successors stay as they are; conjugated, successors 1 and 2 change places and all four are conjugated and marked conjugated and density matrix; otherwise all four are marked density matrix, successor 2 is conjugated and marked conjugated, successor 1 is marked first path. The node takes over the marks. Leaving it restores weights, nodes, order, pointers and marks exactly. Edges not marked as density matrix and terminals are not entered, and leaving a node that was not entered changes nothing. '
     'Forming products of density matrices and reading the matrix use a node only between entering and leaving it, leave every node they entered before they return, even when the result is zero, and leave the marks of the edges they were given. '
     'The product of two density-matrix diagrams is the product by successors; asked for as a density matrix, its successors 0 and 3 are formed as density matrices, successor 1 is the full product, successor 2 a copy of successor 1, and the node is flagged as density matrix; otherwise all successors are full products and the node is not flagged. '
     'Applying an operation U to a density matrix R gives U R U^dagger, of the two products only the last formed as a density matrix, and exactly if one is asked for; the result is referenced once and the former density matrix released once through its unmarked pointer; the edge handed over and the edge returned are the result, marked as density matrix exactly if one is asked for.',
     ['inputs', 'histories'], 'all nodes, marks and flags, whichever successors coincide or are terminals; every path of products, application and reading',
     'tests simulate a few gates on at most three qubits, where successors that coincide, vanishing products and reuse of a density matrix after a read do not occur',
     [NO, ED, PK], [('dNode::alignDensityNodeNode/applyDmChangesToNode/revertDmChangesToNode', NO), ('Package::multiply/multiply2', PK), ('Package::applyOperationToDensity', PK), ('Package::getDensityMatrix', PK)],
     ('exact effect of entering and leaving for every combination of marks; typestate of entered nodes and value numbering of products and references on every path',
      PATHS + 'At most one operand of a product carries marks and operands share no entered node (the in-place scheme supports no more); sums are formed of unmarked edges. Assumes node construction (C30), memo tables (C06) and adjoints (C17).'))

prop('C28', 'Measurement follows the squared magnitudes of the weights',
     'The probabilities determined for a qubit (determineMeasurementProbabilities) are, for outcomes 0 and 1, the sums over the nodes on the qubit\'s level of the node\'s share times the squared magnitude of the weight of its successor 0 or 1, times the total below that successor unless normalisation is assumed. '
     'The share of the root is the squared magnitude of its weight, that of any other node the sum, over all its predecessors and both their successors (also when both are this node), of the predecessor\'s share times the squared magnitude of the weight; zero edges pass nothing on and every node is handled once. The total of a node is the sum over its successors of squared magnitude of the weight times total, that of a terminal one. '
     'measureOneCollapsing refuses, with nothing changed, exactly when the two probabilities\' sum differs from one by more than the tolerance; otherwise the outcome is 0 exactly if one number drawn uniformly from 0 to 1 is below p0/(p0+p1), and the state is replaced by its projection on the outcome divided by the root of the probability of that outcome, the new state referenced and the old one released. '
     'measureAll walks from the root to the lowest qubit, at every node refusing exactly when the squared magnitudes of the two weights do not add up to one within the tolerance, drawing one number and going to successor 0 exactly if it is below the share of successor 0, and returns the outcomes from the highest qubit down; with collapse the state is replaced (and the references adjusted, before anything is collected) by the basis state of the outcomes, without it the state stays. '
     'fidelityOfMeasurementOutcomes is the sum over all indices of the product of the magnitudes of the weights on the path of the index times the root of the probability given for the index, zero if none is given.',
     ['inputs', 'histories'], 'all states, qubits, probability vectors, tolerances and random numbers',
     'the tests measure a few states on up to three qubits whose nodes are hardly shared and whose outcomes are certain or equally likely; statistics of samples cannot tell small errors from chance',
     [PK], [('Package::measureAll', PK), ('Package::measureOneCollapsing', PK), ('Package::determineMeasurementProbabilities', PK), ('Package::assignProbabilities', PK), ('Package::fidelityOfMeasurementOutcomes', PK)],
     ('effects of an arbitrary iteration of every walk and of every recursion, with sums and products compared as polynomials in the weights, and which comparison of the random number leads to which outcome',
      PATHS + 'Standard containers, texts and distributions are modelled by their documented behaviour. The qubit is one of the state; states have nodes on every level. Assumes products (C16), gates (C20), references (C04), numbers (C14).'))

prop('C03', 'Results stay close to the exact ones however long the computation',
     'The amplitudes of a state after any sequence of operations differ from the exact ones by no more than a bound proportional to the number of operations and the tolerance.',
     ['inputs', 'histories'], 'all circuits', 'tests run short circuits', [PK, CT], [('ComplexTable::lookup', CT)],
     na='Depends on how rounding and the merging of close numbers accumulate over a whole history; a static bound over unbounded histories and arbitrary weights does not exist in reach (the merging step is not even Lipschitz). The exact algebra of every operation is decided instead (C16-C20, C25, C29).')
prop('C05', 'Equal states and operators are always the same node',
     'Two computations with mathematically equal results give the same node and weight.',
     ['inputs', 'histories'], 'all pairs of computations', 'tests compare a few pairs', [PK, UT, CT], [('Package::makeDDNode', PK), ('ComplexTable::lookup', CT)],
     na='Not true in general with a tolerance: which of several close numbers is stored depends on the order in which they were seen, and closeness is not transitive. What canonicity rests on is decided instead: equal nodes are found (C13), stored numbers are looked up in all buckets within reach (C14) and weights are normalised (C30).')
prop('C12', 'Diagrams written as text read back as the same diagram',
     'Reading what serialize wrote in text form gives the same diagram.',
     ['inputs'], 'all diagrams', 'tests read back a few diagrams', [PK], [('Package::deserialize', PK)],
     na='What is read is decided by regular expressions evaluated at run time and by decimal conversions of the standard library; there is no static account of either in reach. The binary form is decided (C22).')
prop('C15', 'Reducing garbage qubits keeps the probabilities of the other qubits',
     'reduceGarbage yields a diagram with the same probabilities of the outcomes of all other qubits.',
     ['inputs'], 'all diagrams and sets of garbage qubits', 'tests reduce a few diagrams', [PK], [('Package::reduceGarbage', PK)],
     na='The function is a heuristic that does not have this property by design (weights above one are cut to one, sums of amplitudes stand for sums of probabilities), and the code states no weaker contract that could be decided.')
