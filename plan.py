"""What each property's check builds and runs, and what MANIFEST.json says about it (see mkmanifest.py)."""
ASSUME = [
    "only the executions produced by this run are judged; nothing is said about inputs outside the stated rule",
    "rustc, std, Miri/sanitizers and the num, typenum, approx, nodrop, unicode-width crates behave as documented",
]
R = lambda mode, **k: dict(mode=mode, **k)

PLAN = {}

def prop(pid, bin, level, rule, technique, note, runs, **k):
    PLAN[pid] = dict(bin=bin, level=level, rule=rule, technique=technique, note=note, runs=runs, **k)

X = "exploration"
# leaks are judged by the ledger (a panicking destructor may leak, legitimately)
NL = "-Zmiri-ignore-leaks"

prop("C03", "c03", X,
     "A case drives the owning iterator of a vector of length N through a history of next/next_back/nth/nth_back/try_fold/"
     "find/position/by_ref().take()... calls and one terminal adaptor, on the real iterator and on a deque model, comparing every "
     "result, len() and size_hint(); all short histories over a 10-call alphabet, then seeded random ones, for every N in 0..=32. "
     "Non-trivial: N > 0; distinct: by (element kind, N, history, terminal).",
     "online trace monitor against a deque model, plus Miri",
     "Every call history driven is judged call by call; lengths 0..=32 and all short histories are enumerated, longer ones sampled. Assumes std's provided Iterator methods.",
     [R("dbg"), R("plain"), R("rel"), R("miri", shards=4)])

prop("C04", "c04", X,
     "A case drives the chunk iterator of a vector of length N cut in chunks of I through histories of front/back steps and skips and "
     "one terminal adaptor, against a deque of whole chunks, for every dividing pair (N, I) with N <= 32; every yielded chunk is "
     "compared element by element and the concatenation with the source. Non-trivial: N > 0; distinct: by (kind, N, I, history, terminal).",
     "online trace monitor against a deque-of-chunks model, plus Miri",
     "All 120+ dividing pairs are driven; short histories enumerated, longer ones sampled.",
     [R("dbg"), R("plain"), R("rel"), R("miri", shards=4)])

prop("C05", "c05", X,
     "A case drives rows_iter, cols_iter, rows_iter_ref, cols_iter_ref and the element iterator of a column of an R x C matrix through "
     "histories of front/back steps and skips and one terminal adaptor, against deques of the expected rows, columns or element "
     "addresses (by-reference iterators are compared by address). Non-trivial: a non-empty sequence; distinct: by (iterator, kind, "
     "shape, history, terminal).",
     "online trace monitor against deque models (values and addresses), plus Miri",
     "About 85 shapes (every row and column count 0..=32 occurs) including all with both sides <= 5, empty ones, 32x32; short histories enumerated, longer ones sampled.",
     [R("dbg"), R("plain"), R("rel"), R("miri", shards=4)])

prop("C06", "c06", X,
     "A case builds a vector or matrix by one route (array, vector!/matrix! literal, generate, Default, collect, From a flat vector) at one "
     "length or shape with distinguishable elements and compares every position and the log of generator calls; collecting is driven with "
     "sources of every surplus/deficit, endless ones, sources that lie about their size or resume after None, counting every request. "
     "Non-trivial: at least one element; distinct: by (route, kind, size, source).",
     "constructor monitors: generator-call log and request-counting hostile sources",
     "All lengths 0..=32, ~85 shapes, all flat shapes with at most 32 elements, literals of every length 0..=32.",
     [R("dbg"), R("plain"), R("rel"), R("dbg", bin="c06m"), R("plain", bin="c06m")],
     must_compile={"c06m": "a vector!/matrix! literal that should be accepted is not"})

prop("C07", "c07", X,
     "A case evaluates every operand form of vector arithmetic at one length on symbolic elements of three different types, whose results "
     "record the operation, its form and both operands in order, and counts the element operations; then on f64 (NaN, infinities, signed "
     "zeros, subnormals; compared bit by bit), strings, wrapping, big, complex and 1..16-byte elements against element-wise results. "
     "Non-trivial: length > 0; distinct: by (form, values).",
     "symbolic-element monitor with an operation counter, plus bit-exact numeric comparison",
     "All lengths 0..=32 and all 17 operand forms; element values sampled. Assumes parametricity only in that one symbolic type stands for element types of its kind.",
     [R("dbg"), R("plain"), R("rel")])

prop("C08", "c08", X,
     "A case evaluates every operand form of matrix element-wise arithmetic at one shape on symbolic elements (operation, form and operands "
     "are recorded in the result) with a count of element operations; then on f64 (compared bit by bit), big and 1..16-byte elements. "
     "Non-trivial: a non-empty shape; distinct: by (form, values).",
     "symbolic-element monitor with an operation counter, plus bit-exact numeric comparison",
     "About 85 shapes (every row and column count 0..=32 occurs) and all 17 operand forms; element values sampled.",
     [R("dbg"), R("plain"), R("rel")])

prop("C09", "c09", X,
     "A case multiplies random and structured matrices (permutations, single entries, nilpotent, sparse, full) of one shape triple in every "
     "operand form and compares with the schoolbook sum, over polynomials in non-commuting symbols, a ring of 2x2 matrices, big integers, "
     "Z/256, GF(5), complex and i64; pow is compared with the repeated product for every small exponent and with binary powering for "
     "exponents up to usize::MAX. Non-trivial: a non-empty triple; distinct: by case randomness.",
     "reference-model monitor over non-commutative rings",
     "About 90 shape triples up to 32x32x32, every exponent to 70 (quick), huge exponents sampled; entries sampled.",
     [R("dbg", shards=2), R("plain", shards=2), R("rel")])

LIN = ("15 structured kinds of square matrix (random, sparse, permutation, rank deficient, triangular, singular leading minor at each step, "
       "proportional rows, hollow, anti-diagonal blocks, 0/1, LU, elementary, zero row/column, rank-one update) over GF(2), GF(3), GF(5), "
       "GF(2^61-1) and the rationals, plus all matrices of small size over small fields, plus diagonally dominant floats. ")
prop("C10", "c10", X,
     LIN + "The determinant is compared with an elimination that exchanges rows (cross-checked with Leibniz up to 4x4). Distinct: by matrix; every one is non-trivial.",
     "reference-model monitor over exact fields, small fields exhaustively",
     "All sizes 1..=32 with every kind (quick: fewer matrices above 8); zero and permutation matrices of size 16 and 32 must be answered within 60 s. Exhaustive: 1x1 and 2x2 GF(7), 3x3 GF(2) and GF(3); 4x4 GF(2) every third (thorough: all).",
     [R("dbg", shards=4), R("plain", shards=4), R("rel", shards=2)])

prop("C11", "c11", X,
     LIN + "Every cofactor (a sample of them for n > 6) is compared with the signed determinant of the minor; indices outside, up to "
     "usize::MAX and chosen to wrap around, must panic. Distinct: by (matrix, index); every one is non-trivial.",
     "reference-model monitor over exact fields, small fields exhaustively",
     "Sizes 2..8, 9, 12, 17 and 32 with every kind. Exhaustive (thorough): 2x2 GF(7), 3x3 GF(3), 4x4 GF(2), all indices.",
     [R("dbg", shards=4), R("plain", shards=4), R("rel", shards=2)])

prop("C12", "c12", X,
     LIN + "inverse() must return Some exactly when an elimination with row exchange finds full rank, and the result times the matrix on either "
     "side must be the identity. Distinct: by matrix; every one is non-trivial.",
     "reference-model monitor over exact fields, small fields exhaustively",
     "All sizes 1..=32 with every kind (quick: fewer matrices above 8). Exhaustive: 1x1 and 2x2 GF(7), 3x3 GF(2) and GF(3); 4x4 GF(2) every third (thorough: all).",
     [R("dbg", shards=4), R("plain", shards=4), R("rel", shards=2)])

prop("C13", "c13", X,
     "A case fills a vector or matrix of one length or shape with distinguishable elements and, for every position, compares the address and value "
     "reached by run-time and type-level indexing, slices, the dereferenced array, iteration, row slices and unchecked access (shared and mutable); "
     "writes through each mutable path and checks that only that element changed; and asserts that every out-of-range run-time index (next to "
     "the bound, wrapping, usize::MAX) panics. Type-level indices outside are probed for absence of the Index impl. Non-trivial: at least one "
     "element or one refused index; distinct: by (path, shape, position).",
     "address-identity monitor over all access paths, panic monitor for bad indices, trait-absence probes",
     "All lengths 0..=32 with every position and ~85 shapes; type-level indices: every (length, index) pair up to 32 inside, a band outside.",
     [R("dbg"), R("plain"), R("rel"), R("dbg", bin="c13s"), R("plain", bin="c13s")],
     must_compile={"c13s": "a type-level index inside the bounds is not accepted"})

prop("C14", "c14", X,
     "A case evaluates transposition (by value, twice, in place), map, all/any, zero/is_zero, one/identity, min/max_value, diag or conjugate at one "
     "shape: results are compared position by position with the definition; map, all and any log every (index, element) they pass to the callback, with "
     "the deciding element at every position, nowhere, at random positions and everywhere; is_zero is probed with one non-zero element at every "
     "position among zeros of two kinds. Non-trivial: at least one element; distinct: by (operation, shape, values or position).",
     "callback-log monitor plus position-wise comparison with the definition",
     "About 85 shapes (every row and column count 0..=32 occurs), vector lengths 0..=32, squares up to 32; element values sampled.",
     [R("dbg"), R("plain"), R("rel")])

prop("C15", "c15", X,
     "A case evaluates sum, dot, cross, norm, normalized, max/min/max_by/min_by, clamped and clamp on vectors and matrices of one size and element "
     "type: sums are compared with a pairwise sum (exactly, or within a rounding bound for floats), also with a single non-zero term at each "
     "position; extrema must be elements none of the others beats, under six orders with ties and with the extreme element at each position; "
     "clamping is judged per element with bounds at, next to and away from elements. Non-trivial: at least one element (two for extrema); "
     "distinct: by case randomness.",
     "definition-level oracle over exact and floating elements; comparator-call monitor for extrema",
     "Vector lengths 0..=32, ~85 shapes, squares up to 32, 13 element types; values sampled. Which of several tied elements is returned, and overflow or NaN behaviour, is not judged.",
     [R("dbg"), R("plain"), R("rel")])

prop("C16", "c16", X,
     "A case formats vectors or matrices of one size: Debug under 11-12 option sets against the slice formatting of the same elements; Display of random tables "
     "(empty, multi-line, wide, combining, full-width cells; one odd cell at every position; nested matrices) against an independent layout with its "
     "own width table; and both into sinks that refuse each write in turn, once or for good, which must be reported. Non-trivial: at least one "
     "element; distinct: by produced text.",
     "independent renderer as oracle, plus write-failure injection at every write",
     "About 85 shapes (every row and column count 0..=32 occurs); texts sampled; every write of an output refused in turn (a sample of them for long outputs). Single-line brackets, a newline after a single line, and matrices without columns are not judged; non-ASCII width only with the unicode_width feature.",
     [R("dbg"), R("plain"), R("rel"), R("nowidth", args=[])])

prop("C17", "c17", X,
     "A case compares vectors or matrices of one size with one (un)equal, or close/far, element pair at each position, all, none and random ones, over a "
     "relation that is neither reflexive nor symmetric and crosses types, over recorded tolerances of a non-Copy type (every pair must get the same ones), "
     "and over floats with NaN, signed zeros and neighbours against the element-wise result. Eq and PartialEq claims are probed per element type and size. "
     "Non-trivial: at least one element; distinct: by values or position.",
     "element-wise oracle with recorded comparisons; trait-presence probes for Eq",
     "All lengths 0..=32, ~85 shapes, every difference position (a sample for shapes over 300 elements).",
     [R("dbg"), R("plain"), R("rel")])

prop("C18", "c18", X,
     "A case takes bit-exact snapshots of every operand before a by-reference operation, compares them afterwards, then overwrites the result (and copies, "
     "clones, iterators' items) in place and compares again; runs every in-place form next to its value form and compares bits; or drives a random "
     "history of 34 operations over a pool of 3 matrices and 3 vectors, comparing the whole pool with nested lists after every step. Non-trivial: at "
     "least one element; distinct: by case randomness or history.",
     "operand-snapshot monitor and pool-history trace checker against a list model",
     "About 85 shapes (every row and column count 0..=32 occurs), all vector lengths, squares up to 32, 11 element types (floats with NaN, infinities and signed zeros; owning types); values and histories sampled.",
     [R("dbg"), R("plain"), R("rel")])

prop("C22", "c22", X,
     "A case is one pair of lengths or shapes (or a length and an index); whether each operator, comparison, conversion, index or square-only trait is implemented for "
     "it is observed by a probe whose constant is true exactly when the bound holds, and compared with arithmetic on the sizes. Methods without a trait are probed by "
     "type-checking one expression per line and comparing the lines the compiler refuses with the expected ones. Non-trivial: all; distinct: by pair and operation.",
     "trait-presence probes evaluated at run time, plus monitored compiler verdicts on generated expressions",
     "About 450 length pairs, 660 shape pairs, 150 shapes for square-only operations, 900 flat conversions, 1900 indices; 5700 expressions. Chunk length 0, determinant and inverse of 0x0 and cofactor of 1x1 are not judged.",
     [R("dbg")], refuse="c22r")

prop("C24", "c24", X,
     "A case takes one vector or matrix through random changes (replacing, swapping, collecting back, reversing, cloning, transposing) and after each compares every "
     "reported length or shape (len, is_empty, rows, cols, dim, slices, arrays, all iterators, rows and columns) with the size; array types and the 26 prelude aliases are compared "
     "by type identity. Non-trivial: all; distinct: by case randomness.",
     "agreement monitor over all length-reporting views; type-identity probes",
     "All lengths 0..=32 with 5 element kinds, ~85 shapes; random changes sampled. Iterators are judged when fresh (C03-C05 judge them part-way).",
     [R("dbg"), R("plain"), R("rel"), R("dbg", bin="c24a"), R("plain", bin="c24a")],
     must_compile={"c24a": "an alias of the prelude is missing or of another kind"})

prop("C02", "c02", X,
     "A case runs operations from the catalogue (94 kinds: every constructor, consuming, converting, replacing, in-place and iterator operation) over a pool of vectors and "
     "matrices of ledger elements, each operation alone and in random histories; after every operation the elements in existence must be exactly those in the pool, none "
     "dropped twice or used after its drop, and none may be left when the pool goes. Non-trivial: elements were involved; distinct: by case randomness.",
     "element ledger (birth/death conservation) checked after every operation",
     "All lengths 0..=32, every dividing chunk pair, about 26 shapes, eight ledger element kinds (inline, heap-owning, zero-sized, 56 to 2080 bytes, over-aligned); operands and histories sampled.",
     [R("dbg"), R("plain"), R("rel"), R("needsdrop"), R("nodef", thorough_only=True)])

prop("C19", "c19", "fault_enumeration",
     "A case runs one operation of the catalogue on ledger elements once without faults, counting callbacks (closures, operators, clones, comparisons, formatting, source "
     "pulls) and destructor calls, then again with each of them (a selection when there are many) panicking. After a callback panic the elements in existence must be exactly "
     "those in the surviving containers, all alive, the containers must be usable, and none may be left when they go; after a destructor panic none may be dropped twice. "
     "Non-trivial: every faulted run; distinct: by (operation, operands, fault point).",
     "fault injection at every callback and destructor call, judged by an element ledger; plus Miri",
     "All operations of the catalogue over about 26 shapes, all lengths and all chunk pairs; up to 24 (thorough: 400) fault points per run, operands sampled. A panic in a destructor during unwinding aborts and is not explored.",
     [R("dbg"), R("plain"), R("rel"), R("miri", shards=8, miriflags=NL), R("needsdrop", thorough_only=True), R("nodef", thorough_only=True)])

prop("C01", "c01", X,
     "A case runs operations from the catalogue over one element kind and shape, each alone and in random histories, with panics injected into a third of them, under a build "
     "that detects undefined behaviour; every index type accepted is shown to reach an element of its own; and the borrow checker is observed refusing about 420 safe programs that would "
     "alias, use after a move or outlive the value. Non-trivial: elements were read; distinct: by case randomness.",
     "Miri, AddressSanitizer with std UB checks, debug assertions and (thorough) valgrind, Tree Borrows, release-mode Miri over an operation fuzzer; element ledger and validity checks",
     "25 element kinds (owning, borrowing, niches, zero-sized, over-aligned, large), 10 shapes each, all lengths for two kinds; operands and histories sampled. User-written ArrayLen implementations are out of scope.",
     [R("dbg"), R("rel"), R("asan0"), R("miri", shards=8, miriflags=NL), R("rel", bin="c01s"), R("dbg", bin="c01s"), R("asan", thorough_only=True), R("mirir", shards=8, thorough_only=True, miriflags=NL), R("miritb", shards=8, thorough_only=True, miriflags=NL),
      R("asand", thorough_only=True), R("vg", thorough_only=True)], refuse="c01r", only_refuse=True)

prop("C20", "c20", X,
     "A case runs one operation of the catalogue, or a random history of them, on one element kind and shape from fixed seeds and folds every produced element, length, text, "
     "flag and whether a call panicked into a transcript; the driver compares the transcripts of all builds line by line. Non-trivial: elements were involved; distinct: by operation and seed.",
     "cross-build transcript comparison (debug, release, checked, without default features, without std, without unicode_width, with use_needs_drop)",
     "All vector lengths, chunk pairs and square sizes, and about 35 further subjects (exact, floating, owning, zero-sized, large; rectangular, empty, changing element type), every operation except the surplus-collect, whose documented difference C06 judges; operands sampled. Display is compared on ASCII cells only, among builds that have it. NaNs are compared as one value.",
     [R("dbg"), R("rel"), R("chk"), R("nodef"), R("nodefd", thorough_only=True), R("nostd"), R("nowidth"), R("needsdrop"), R("needsdropn"), R("plain", thorough_only=True)],
     compare=True, must_build=("nodef", "nodefd", "nostd", "nowidth", "needsdrop", "needsdropn"))

prop("C21", "c21", X,
     "A case runs one operation of the catalogue (all but Display and those that panic) on elements that do not allocate, under a counting global allocator, which must see no call from "
     "the start of the operation until the operands are dropped; or compares size, alignment and element distance of the values and types of one kind with N (R x C) elements. "
     "Non-trivial: all but the allocator self-test; distinct: by case randomness, or kind and size.",
     "counting global allocator around every operation; size and address monitor",
     "16 element kinds with 5 subjects each; all lengths (small and large elements), chunk pairs, shapes and squares; sizes: 21 kinds x all lengths 0..=32 and about 85 shapes.",
     [R("dbg"), R("plain"), R("rel")])

prop("C23", "c23", X,
     "A case lets 8 threads (Miri: 3), started together, each run a random history of catalogue operations on values of its own, or all by-reference calls on one shared value, and compares every "
     "thread's transcript with the same calls made alone, under a race detector; or hands values and half-used iterators from thread to thread; or probes Send and Sync of one type. "
     "Non-trivial: all; distinct: by histories and values.",
     "ThreadSanitizer and Miri race detection plus sequential-transcript oracle; auto-trait probes",
     "9 subjects, 3 shared values, 24 types x 4 kinds of element; interleavings as the scheduler gives them. The library has no synchronisation, so any conflicting access to shared state is a race in every interleaving that reaches it.",
     [R("tsan"), R("plain"), R("dbg"), R("miri", shards=4, miriflags=NL + " -Zmiri-deterministic-floats")])
