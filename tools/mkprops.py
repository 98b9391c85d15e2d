"""writes properties.jsonl (kept as a script so that the texts stay in one readable place)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
NEO = "src/neogb/"
MS = "src/msolve/"
TESTS = "The tests compare the answer for about 40 fixed systems with stored files; "

p("C01", "Groebner bases over prime fields are the reduced grevlex bases",
  "Over a prime field with characteristic below 2^31, `-g 2` prints exactly the reduced Groebner basis, for the degree reverse lexicographical order, of the ideal generated by the input: same leading monomials, tails fully reduced, leading coefficients 1, coefficients the canonical residues, nothing missing and nothing added. This holds for every choice of the linear algebra (-l), matrix chunking (-s), pair limit (-m), hash table reset (-r/-u) and thread options.",
  ["inputs", "configurations"], "every list of nonzero polynomials over F_p (p in the 8, 16, 17-18 and 31 bit classes), every documented value of -l -s -m -u -t",
  TESTS + "they sample a handful of primes and cannot vary the system, the prime class and the linear algebra variant together.",
  [NEO + f for f in ("f4.c", "gb.c", "update.c", "symbol.c", "convert.c", "la_ff_8.c", "la_ff_16.c", "la_ff_32.c", "hash.c", "basis.c", "sort_r.h", "order.c", "tools.c")] + [MS + "iofiles.c"],
  [("F4 round: select pairs, symbolic preprocessing, linear algebra, update", NEO + "f4.c:core_f4"), ("Gebauer-Moeller criteria", NEO + "update.c:insert_and_update_spairs"), ("final interreduction", NEO + "f4.c:reduce_basis"), ("row reduction per coefficient size", NEO + "la_ff_*.c")],
  [("bs", "polynomials found so far with redundancy flags", NEO + "data.h"), ("ht", "monomial hash table", NEO + "hash.c")], ["output file of msolve -g 2"])
p("C02", "Elimination: -e k yields the elimination-order basis and elimination ideal",
  "With `-g 2 -e k` over a prime field the output is the reduced Groebner basis with respect to the block order eliminating the first k variables, and over the rationals it is the reduced Groebner basis of the elimination ideal in the remaining variables. In particular, the listed elements without the first k variables generate exactly the intersection of the ideal with the smaller polynomial ring.",
  ["inputs", "configurations"], "every system, every 1 <= k < number of variables, prime fields and Q, every -l/-s/-m/-u/-t value",
  TESTS + "a few of them use -e; the block order code has its own comparison and hashing paths that depend on k and on the data.",
  [NEO + "order.c", NEO + "hash.c", NEO + "convert.c", NEO + "update.c", NEO + "symbol.c", MS + "lifting-gb.c", MS + "iofiles.c"],
  [("block order comparison", NEO + "order.c"), ("elimination block handling in pair degrees", NEO + "update.c"), ("lifting only the elimination part", MS + "lifting-gb.c")], observe=["output file of msolve -g 2 -e k"])
p("C03", "Groebner bases over the rationals are exact",
  "Over Q, `-g 2` prints the reduced grevlex Groebner basis of the input ideal with primitive integer coefficients: every printed coefficient is exactly right, whatever the size of the coefficients, the primes drawn and the number of primes needed. A basis reconstructed from too few or from unlucky primes is never printed.",
  ["inputs", "configurations"], "every system over Q including rational and huge coefficients, every random seed, every documented option value",
  TESTS + "the multi-modular lifting depends on random primes; unlucky primes, coefficient sizes and reconstruction bounds are not reachable by fixed files.",
  [MS + "lifting-gb.c", NEO + "modular.c", NEO + "f4.c", "src/crt/mpz_CRT_ui.c", "src/crt/mpq_reconstruct.c", MS + "iofiles.c"],
  [("F4 tracer and applying the trace", NEO + "modular.c"), ("CRT, rational reconstruction, stability and verification primes", MS + "lifting-gb.c")], observe=["output file of msolve -g 2"])
p("C04", "-g 1 prints exactly the minimal generators of the leading ideal",
  "`-g 1` prints the minimal monomial generators of the leading ideal (grevlex, or the block order with -e over a prime field), each once and no others. In particular the unit ideal gives 1.",
  ["inputs", "configurations"], "every system over F_p or Q, every documented option value",
  TESTS + "hardly any of them uses -g 1; over Q a single wrong prime gives another leading ideal.",
  [MS + "iofiles.c", MS + "lifting-gb.c", MS + "msolve.c", NEO + "f4.c"], [("leading monomial printing", MS + "iofiles.c:print_lead_monomials_from_basis_data"), ("basis computation", NEO + "f4.c")], observe=["output file of msolve -g 1"])
p("C05", "The solution set is classified correctly: none, finitely or infinitely many",
  "In solving mode the first entry of the answer is -1 exactly when the system has no solution over the algebraic closure, 1 (with the number of variables, the characteristic and -1) exactly when it has infinitely many, and 0 exactly when it has finitely many and at least one. This holds over Q and over prime fields in the range supported for solving, for every option value and seed.",
  ["inputs", "configurations"], "every system over Q or F_p with 2^15 < p < 1518500213, every documented value of -l -s -m -u -t -d -P",
  TESTS + "almost all of those are zero-dimensional; the border between the classes (redundant, inconsistent, underdetermined generators, bad primes) needs many inputs.",
  [MS + "msolve.c", MS + "hilbert.c", MS + "main.c", NEO + "f4.c"], [("dimension from the staircase", MS + "hilbert.c / msolve.c:zero_dim checks"), ("answer printing", MS + "msolve.c:display_arrays_of_real_roots and core_msolve")], observe=["first entry of the answer"])
p("C06", "Over a prime field the printed parametrization describes all solutions",
  "For a zero-dimensional system over a prime field (2^15 < p < 1518500213), the printed rational parametrization is consistent (degrees, field, variable names, announced quotient dimension) and its points are exactly the solutions of the system over the algebraic closure, each once. When no parametrization can be given in the user's coordinates the extra linear form that is announced is the one that was used.",
  ["inputs", "configurations"], "every zero-dimensional system, generic or not, radical or not, every documented option value and seed",
  TESTS + "only few are over finite fields; shape position, multiplicities, change of variable order and random linear forms are separate code paths selected by data.",
  [MS + "msolve.c", MS + "iofiles.c", "src/fglm/fglm_core.c", "src/fglm/berlekamp_massey.c", "src/fglm/linalg-fglm.c", "src/upolmat/nmod_poly_mat_pmbasis.c", "src/fglm/data_fglm.c", MS + "primes.c"],
  [("sparse FGLM (Wiedemann, Berlekamp-Massey)", "src/fglm/fglm_core.c"), ("variable swap / random linear form when not generic", MS + "msolve.c:core_msolve"), ("multiplication matrix from the basis", "src/fglm/matrix-mult.c")], observe=["parametrization in the output"])
p("C07", "Over Q the printed rational parametrization describes all complex solutions",
  "For a zero-dimensional system over Q, the rational parametrization printed with -P 1/-P 2 has exact coefficients and its points are exactly the complex solutions of the system, each once. The announced degree, dimension of the quotient, variables and linear form agree with it.",
  ["inputs", "configurations"], "every zero-dimensional system over Q, every documented option value and every random seed",
  TESTS + "lifting of the parametrization depends on random primes and on data-dependent generic position; stored files only fix the classical cases.",
  [MS + "msolve.c", MS + "lifting.c", MS + "iofiles.c", "src/fglm/fglm_core.c", "src/crt/mpz_CRT_ui.c", NEO + "modular.c"],
  [("lifting with rational reconstruction and check primes", MS + "lifting.c, msolve.c:new_rational_reconstruction"), ("linear form handling", MS + "msolve.c:core_msolve")], observe=["parametrization in the output"])
p("C08", "Printed boxes enclose every real solution, one box per solution",
  "For a zero-dimensional system over Q there is exactly one printed box per real solution and each box contains its own solution, with rational endpoints lower <= upper in the order of the printed variables. The boxes are disjoint whenever no extra variable had to be added, the endpoints are dyadic, and for small systems the relative width follows the requested precision (-p).",
  ["inputs", "configurations"], "every zero-dimensional system over Q with any number of real solutions, every -p, -P 0/1 and documented option value",
  TESTS + "real root position relative to dyadic points, precision and multiplicity cannot be covered by stored files, and a file comparison does not say whether a box contains a root.",
  [MS + "msolve.c", "src/usolve/usolve.c", "src/usolve/refine.c", "src/usolve/descartes.c", "src/usolve/taylor_shift.c", "src/usolve/evaluate.c", "src/usolve/bisection.h"],
  [("isolation of the eliminating polynomial", "src/usolve/usolve.c:real_roots"), ("interval evaluation of the parametrization with growing precision", MS + "msolve.c:extract_real_roots_param")], observe=["boxes in the output of -P 0 and -P 1"])
p("C09", "-n prints the normal forms of the last polynomials modulo the others",
  "With `-n k` over a prime field the k printed polynomials are, in input order, the normal forms of the last k input polynomials with respect to the reduced grevlex basis of the ideal of the other ones. With -i 1 the same holds when the first generators are declared to be a Groebner basis.",
  ["inputs", "configurations"], "every ideal and every list of polynomials to reduce (including 0, members, high degree), every documented option value",
  TESTS + "hardly any of them uses -n.",
  [NEO + "nf.c", NEO + "engine.c", NEO + "symbol.c", NEO + "la_ff_8.c", NEO + "la_ff_16.c", NEO + "la_ff_32.c", MS + "msolve.c", MS + "iofiles.c"],
  [("normal form by one linear algebra step", NEO + "nf.c:core_nf")], observe=["output of msolve -n"])
p("C10", "-S prints the reduced basis of the saturation by the last polynomial",
  "With `-S -g 2` over a prime field the output is a reduced grevlex Groebner basis, contains every generator of the ideal, and consists only of elements of the saturation of the ideal of the first polynomials by the last one. It is the whole saturation.",
  ["inputs", "configurations"], "every ideal and saturating polynomial, zero- or positive-dimensional, p >= 65537, every documented option value and random multiplier",
  TESTS + "three of them saturate; kernel elements, multipliers and the stopping test depend on data and random numbers.",
  [NEO + "f4sat.c", NEO + "la_ff_32.c", NEO + "convert.c", NEO + "symbol.c"], [("kernel computation and insertion", NEO + "f4sat.c:core_f4sat"), ("saturation test", NEO + "f4sat.c:is_already_saturated")], observe=["output of msolve -S -g 2"])
p("C11", "Performance options never change the answer",
  "The linear algebra variant, number of threads, matrix chunking, pair limit, hash table size and reset, verbosity and the lifting/linear algebra strategy switches do not change any printed Groebner basis, leading ideal, normal form or parametrization, for the same input and mode. The output files are identical byte by byte wherever the mathematical object is canonical.",
  ["configurations", "inputs"], "every pair of option vectors that differ in documented performance options only, on systems up to several thousand matrix columns",
  TESTS + "each under a few fixed options; agreement over option pairs on the same larger input is never examined.",
  [NEO + "la_ff_8.c", NEO + "la_ff_16.c", NEO + "la_ff_32.c", NEO + "symbol.c", NEO + "update.c", NEO + "hash.c", MS + "main.c", MS + "msolve.c"],
  [("function pointer selection by option and prime size", NEO + "tools.c / engine.c:set_function_pointers"), ("probabilistic and exact row reduction", NEO + "la_ff_32.c")], observe=["output files"])
p("C12", "No memory error or undefined behaviour on valid inputs",
  "On every valid input and option vector msolve neither reads nor writes outside of live objects, never uses a value it did not initialise to decide its answer, frees nothing twice, and executes no operation that C leaves undefined (shift, overflow of signed integers, alignment, null arithmetic). It ends with exit code 0 and an answer.",
  ["inputs", "configurations"], "every valid system in every mode (-g, -e, -n, -S, solving), every documented option value, SIMD and scalar code",
  "The tests run without instrumentation: an overflow inside a heap block or an uninitialised read rarely changes a stored output.",
  ["src/neogb", "src/fglm", "src/msolve", "src/usolve", "src/crt", "src/upolmat"], [("capacity checks: check_enlarge_basis, enlarge_hash_table, check_enlarge_pairset, reserve of trace and lifting arrays", NEO + "basis.c, hash.c, update.c, modular.c")], observe=["AddressSanitizer, UBSan and poisoned-allocator runs"])
p("C13", "Unusual but legal input spelling and unusable input are handled safely",
  "Whatever bytes the input file contains, msolve does not corrupt memory: it either answers or stops with a message. A missing, unreadable or empty file ends with a non-zero exit code and an error message, not with a crash.",
  ["inputs"], "arbitrary byte strings as input files (mutations of valid ones, truncations, hostile numbers, names and exponents)",
  "The tests contain valid files only.",
  [MS + "iofiles.c", MS + "main.c"], [("file reader: variable line, characteristic, terms", MS + "iofiles.c:get_data_from_file")], observe=["exit status and sanitizer reports"])
p("C14", "Parallel runs are free of data races",
  "When msolve runs with several threads no two threads access the same memory without synchronisation if one of them writes, other than through the atomic publication of pivot rows. This holds in the linear algebra, conversion, symbolic preprocessing, lifting and root isolation.",
  ["schedules", "inputs"], "every schedule of every parallel region, in every mode with -t > 1",
  "The tests compare outputs for one schedule per run; a race that is usually benign shows in no output.",
  [NEO + "la_ff_8.c", NEO + "la_ff_16.c", NEO + "la_ff_32.c", NEO + "convert.c", NEO + "symbol.c", NEO + "update.c", MS + "msolve.c", MS + "lifting-gb.c", "src/usolve/usolve.c", "src/usolve/taylor_shift.c"],
  [("private clauses of the OpenMP loops, compare-and-swap on pivots", NEO + "la_ff_*.c"), ("per-thread structures in the multi-modular loop", MS + "msolve.c, lifting-gb.c")], observe=["ThreadSanitizer with an instrumented OpenMP runtime"])
p("C15", "The number of threads and the schedule do not change the answer",
  "For the same input, seed and other options every printed object is the same for -t 1 and every larger number of threads and under every schedule of the parallel loops; the run terminates. This covers Groebner bases, normal forms, saturation, parametrizations and boxes.",
  ["schedules", "configurations"], "every interleaving of loop chunks over 2-16 threads including starved, reversed and serialised orders",
  "The tests run each parallel loop under the one schedule the machine happens to take.",
  [NEO + "la_ff_8.c", NEO + "la_ff_16.c", NEO + "la_ff_32.c", NEO + "convert.c", MS + "msolve.c", MS + "lifting-gb.c", "src/usolve/usolve.c"],
  [("pivot publication by compare-and-swap and retry", NEO + "la_ff_32.c"), ("bad prime flags collected over threads", MS + "lifting-gb.c")], observe=["output files under a controlled OpenMP runtime"])
p("C16", "The answer depends on the input system, not on how it is written",
  "Spaces, line breaks, term order, order of factors, explicit coefficients and exponents 1, repeated terms, unreduced residues, fractions in another form, sign placement, generator order and variable names do not change the printed answer, except for the names themselves. Over a prime field multiplying generators by units does not either.",
  ["inputs"], "every pair of spellings of the same system in every mode",
  "The tests have one spelling per system.",
  [MS + "iofiles.c", NEO + "io.c"], [("input reader", MS + "iofiles.c:get_data_from_file"), ("import into the basis, sorting and normalising terms", NEO + "io.c:import_input_data")], observe=["output files for re-spelled inputs"])
p("C17", "The library functions agree with the program, call after call",
  "The exported functions for Groebner bases and normal forms return the same objects as the program on the same data, whatever calls were made before in the same process, leave the caller's arrays as they were, and report sizes that match the returned data. Memory obtained through the caller's allocator is obtained and released consistently.",
  ["histories", "inputs"], "every sequence of library calls (different primes, sizes, orders, options) in one process",
  "No test calls the library interface more than once per process or mixes fields.",
  [NEO + "engine.c", NEO + "gb.c", NEO + "modular.c", NEO + "io.c", NEO + "tools.c", NEO + "libneogb.h", MS + "msolve.c"],
  [("export_f4, export_nf, f4 entry points", NEO + "engine.c, gb.c, nf.c"), ("global function pointers set per call", NEO + "tools.c:set_function_pointers")], observe=["return values and arrays in a harness linked with libneogb/libmsolve"])
p("C18", "Univariate real root isolation is complete and correct",
  "For a univariate polynomial over Q every real root lies in exactly one printed box and every box contains exactly one, whatever the distribution of the roots (clustered, dyadic, huge, tiny, zero, multiple). For a squarefree polynomial the boxes are refined to the requested precision.",
  ["inputs"], "every univariate polynomial with rational coefficients, any degree and bit size, every precision and thread count",
  TESTS + "very few are univariate; root clusters, dyadic roots and bounds near powers of two need targeted families.",
  ["src/usolve/usolve.c", "src/usolve/descartes.c", "src/usolve/taylor_shift.c", "src/usolve/refine.c", "src/usolve/bisection.h", "src/usolve/evaluate.c", "src/usolve/utils.c", MS + "msolve.c"],
  [("Descartes/Vincent bisection", "src/usolve/usolve.c:bisection_rec"), ("root bounds", "src/usolve/usolve.c:positive root bound"), ("refinement by evaluation", "src/usolve/refine.c")], observe=["boxes in the output"])
p("C19", "Answers over Q do not depend on the random seed",
  "For a system over Q, the printed Groebner basis, leading ideal and solution class are identical for every random seed, in particular when one of the primes drawn divides leading coefficients or discriminants; only the choice of an extra linear form may vary. A run never stops with an error because of the primes it drew.",
  ["configurations", "inputs"], "every value of the clock that seeds the random generators; systems with many bad primes",
  "Each test runs under one seed per execution and its bad primes have probability about 2^-30.",
  [MS + "lifting-gb.c", MS + "msolve.c", NEO + "modular.c", MS + "primes.c"], [("bad prime detection against the trace", NEO + "modular.c:f4_trace_application_test"), ("verification primes", MS + "lifting-gb.c")], observe=["output files under a pinned clock"])
p("C20", "SIMD and scalar builds give identical answers",
  "Builds for processors with no vector extension, with AVX2 and with AVX-512 print identical output for the same input, seed and options.",
  ["configurations", "inputs"], "every input and option vector; code paths HAVE_AVX2, HAVE_AVX512 and plain C",
  "The tests run one build, the one for the machine at hand.",
  [NEO + "la_ff_8.c", NEO + "la_ff_16.c", NEO + "la_ff_32.c", "src/fglm/linalg-fglm.c", "src/fglm/inner-product.c", "src/fglm/matrix-mult.c", "src/fglm/fglm_core.c"],
  [("vectorised row operations", NEO + "la_ff_*.c"), ("vectorised matrix-vector product", "src/fglm/inner-product.c")], observe=["output files of three builds"])
p("C21", "Output goes where it was asked and only there, in a consistent form",
  "The answer written with -o equals the answer on standard output, is complete and well-formed, is written in place of old contents, and is independent of verbosity; -P 0, 1 and 2 print the same boxes and parametrization. An input that cannot be answered gives a message and a non-zero exit code rather than an empty success.",
  ["configurations", "inputs"], "every mode, -P, -v and -o choice; missing files and unwritable outputs",
  "The tests always use -o and one -P value per system.",
  [MS + "main.c", MS + "iofiles.c", MS + "msolve.c"], [("output selection", MS + "main.c"), ("printers", MS + "iofiles.c, msolve.c")], observe=["standard output, output file, exit code"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    for f in x["anchors"]["files"]:
        q = os.path.normpath(os.path.join("/repo", f))
        if not os.path.exists(q): print("missing", x["id"], f)
