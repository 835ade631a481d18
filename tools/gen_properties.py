#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  Kept as a script so that the list stays readable.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- concurrency
p("S01", "Concurrent callers with their own values get the sequential answers",
  "Any number of threads of one program may each compute with values of their own - arithmetic, inverses, factoring, polynomial division, matrix work, cyclotomic polynomials, orders, logarithms, printing and parsing - and every call returns exactly what it returns when it is made alone, whatever the interleaving. No call crashes, throws, blocks or corrupts another caller's result because another caller is inside the library at the same moment. Only the default pseudorandom generator, which is documented as non-reentrant, is excluded; the generator variants whose state the caller owns are included.",
  ["schedules", "inputs"],
  "every assignment of library calls on distinct values to threads, and every interleaving of their memory accesses",
  "All tests are single-threaded; an unsynchronised cache or scratch buffer gives the right answer in every one of them and is wrong only when a second caller arrives between two of its accesses.",
  ["spffl/intmath/intmod_t.cpp", "spffl/q_cyclotomic/cyclo_poly.cpp", "spffl/intmath/is_prime.cpp", "spffl/bits/count_bits.cpp", "spffl/bitrand/psdes.cpp", "spffl/factorization", "spffl/polynomials", "spffl/linalg", "spffl/units"],
  [("totient remembered between inversions", "spffl/intmath/intmod_t.cpp:recip"),
   ("table of small cyclotomic polynomials filled on demand", "spffl/q_cyclotomic/cyclo_poly.cpp:get_cyclo_qpoly"),
   ("caller-owned generator state", "spffl/bitrand/psdes.cpp:iran32_r")],
  state=[("mlast, phi", "totient of the modulus inverted last", "spffl/intmath/intmod_t.cpp:recip"),
         ("memo_flags, memo_data", "cyclotomic polynomials computed so far", "spffl/q_cyclotomic/cyclo_poly.cpp")],
  observe=["return values and exceptions of library calls"])

# ---------------------------------------------------------------- allocation failure
p("A01", "An out-of-memory failure is reported, harms nothing, and can be retried",
  "When memory runs out at any point inside a library call, the call ends with the standard out-of-memory exception (or, when it reads from or writes to a stream, with that stream failed) or still completes with its ordinary answer; it never crashes, hangs, touches memory it does not own, or returns a different answer. The arguments the call only reads are unchanged, the object it was modifying is still a whole object, of whatever value, that can be used, assigned to and destroyed, and repeating the call once memory is available gives the ordinary answer.",
  ["fault_sequences", "crash_points", "inputs"],
  "every library call, every argument, and every choice of which of its allocations fail",
  "No test makes an allocation fail; each call has one failure path per allocation and all of them are unexecuted.",
  ["spffl/polynomials", "spffl/bits", "spffl/containers", "spffl/factorization", "spffl/linalg", "spffl/units", "spffl/rationals", "spffl/q_cyclotomic"],
  [("storage owned by polynomials, vectors, matrices and factor lists", "spffl/polynomials/fp_poly_t.cpp:operator=, spffl/bits/bit_vector_t.cpp:operator=, spffl/containers/tvector.h:operator=, spffl/containers/tmatrix.h, spffl/containers/tfacinfo.h:insert_factor, spffl/containers/tstack.h:push")],
  observe=["exceptions, return values, operands afterwards, address sanitizer"])

p("A02", "Every computation gives back all the memory it took",
  "Once a library call has ended and the values it produced have been destroyed, all the memory it took has been given back, whether it completed, rejected its input with an exception, or was abandoned because memory ran out. A long-running program's memory therefore does not grow with the number of calls it has made, except for bounded tables the library fills once.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of library calls, including calls that end in an exception at any allocation or on any malformed input",
  "The tests never look at memory; a leak on a normal or exceptional path leaves every result correct.",
  ["spffl/polynomials", "spffl/bits", "spffl/containers", "spffl/cli_parser/cmd_line_matrix_ops.h", "spffl/units", "spffl/linalg"],
  [("ownership of coefficient, row and word arrays", "spffl/polynomials/q_poly_t.cpp, spffl/polynomials/f2n_poly_t.cpp, spffl/bits/bit_vector_t.cpp, spffl/containers/tmatrix.h, spffl/containers/tvector.h"),
   ("work arrays in discrete logarithms and elimination", "spffl/units/fp_units.cpp, spffl/bits/bit_matrix_t.cpp")],
  observe=["live allocations after each call"])

p("H01", "An answer depends only on the arguments, not on what the process did before",
  "A library call returns the same answer whatever the process computed earlier, in whatever order, and whether those earlier computations succeeded, rejected their input or were abandoned because memory ran out. Tables and remembered values kept between calls are never visible in an answer.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of library calls on every argument, with any of them made to fail, followed by any call",
  "Tests run a handful of calls in one fixed order, so a stale or half-filled table left by an earlier - in particular a failed - computation is never consulted.",
  ["spffl/intmath/intmod_t.cpp", "spffl/q_cyclotomic/cyclo_poly.cpp", "spffl/intmath", "spffl/factorization", "spffl/linalg", "spffl/bits"],
  [("totient remembered between inversions", "spffl/intmath/intmod_t.cpp:recip"),
   ("table of small cyclotomic polynomials filled on demand", "spffl/q_cyclotomic/cyclo_poly.cpp:get_cyclo_qpoly")],
  observe=["return values and exceptions of library calls"])

p("H02", "Numbers, containers and polynomials behave as independent values through any history",
  "Bits, integers modulo m, rational numbers, bit vectors and matrices, vectors, matrices, stacks, factor lists, polynomials, residue classes of polynomials and quotients of polynomials behave as plain values: after any sequence of constructions, copies, assignments (also to themselves and between different sizes), element updates, insertions, removals and arithmetic, each object holds exactly what a simple list-of-numbers model holds, and changing one never changes another. Comparison agrees with the model's equality, and this stays true for every object not being modified when one of the steps is abandoned because memory ran out.",
  ["histories", "fault_sequences", "inputs"],
  "every finite history of operations over a pool of objects, with any step interrupted by an allocation failure",
  "Tests build an object, apply one operation and compare; aliasing, growth on assignment, and comparison of the last storage word only show up in longer histories.",
  ["spffl/bits/bit_vector_t.cpp", "spffl/bits/bit_matrix_t.cpp", "spffl/containers/tvector.h", "spffl/containers/tmatrix.h", "spffl/containers/tstack.h", "spffl/containers/tfacinfo.h", "spffl/polynomials", "spffl/rationals", "spffl/intmath/intmod_t.cpp", "spffl/intmath/intrat_t.cpp"],
  [("copy construction and assignment", "spffl/bits/bit_vector_t.cpp, spffl/containers/tvector.h, spffl/containers/tmatrix.h, spffl/containers/tstack.h, spffl/containers/tfacinfo.h, spffl/polynomials/f2_poly_t.cpp, spffl/polynomials/fp_poly_t.cpp"),
   ("degree bookkeeping", "spffl/polynomials/f2_poly_t.cpp, spffl/polynomials/fp_poly_t.cpp, spffl/polynomials/q_poly_t.cpp")],
  observe=["element reads, comparisons, printing"])

# ---------------------------------------------------------------- input streams
p("R01", "What is read does not depend on how the bytes are delivered",
  "Reading a number, polynomial, vector or matrix from a file, from standard input or from any input stream gives the same value - or the same rejection - however the operating system cuts the bytes into pieces: one at a time, in blocks of any size, with interrupted reads in between, or all at once. The number and length of lines and the line-ending and final-newline conventions used by the producer of the data do not change which elements are read.",
  ["schedules", "inputs", "fault_sequences"],
  "every well-formed or malformed text and every division of it into deliveries",
  "Tests read short literals in one piece; nothing varies delivery, so a dependence on buffer boundaries, long lines or line endings cannot show.",
  ["spffl/containers/tmatrix.h", "spffl/containers/tvector.h", "spffl/bits/bit_matrix_t.cpp", "spffl/bits/bit_vector_t.cpp", "spffl/base/line_scan.h", "spffl/polynomials", "spffl/intmath/intmod_t.cpp", "cli/spiff/f2_handlers.cpp", "cli/spiff/fp_handlers.cpp"],
  [("line-by-line matrix and vector readers", "spffl/containers/tmatrix.h:operator>>, spffl/containers/tvector.h:operator>>, spffl/bits/bit_matrix_t.cpp:operator>>, spffl/bits/bit_vector_t.cpp:operator>>"),
   ("element readers", "spffl/polynomials/f2_poly_t.cpp:operator>>, spffl/polynomials/fp_poly_t.cpp:operator>>, spffl/intmath/intmod_t.cpp:operator>>")],
  observe=["value read, stream state, load result"])

p("R02", "A read error is never mistaken for the end of the data",
  "If the device delivering a vector or matrix fails part-way - from a file or from standard input - the load reports failure; it never succeeds with the part that happened to arrive before the error. After the failure the destination can still be used, and loading again from a healthy source succeeds with exactly that source's contents.",
  ["fault_sequences", "crash_points", "inputs"],
  "every input and every byte position at which the read fails",
  "No test makes a read fail; streams report an error and an end of file in ways that look alike unless the reader asks.",
  ["spffl/containers/tmatrix.h", "spffl/containers/tvector.h", "spffl/bits/bit_matrix_t.cpp", "spffl/bits/bit_vector_t.cpp", "cli/spiff/f2_handlers.cpp", "cli/spiff/fp_handlers.cpp", "cli/spiff/fp_polymod_handlers.cpp", "cli/spiff/f2_polymod_handlers.cpp"],
  [("end-of-input test in the matrix and vector readers", "spffl/containers/tmatrix.h:operator>>, spffl/bits/bit_matrix_t.cpp:operator>>"),
   ("load result", "spffl/containers/tmatrix.h:load_from_file, spffl/containers/tvector.h:load_from_file, spffl/bits/bit_matrix_t.cpp:load_from_file")],
  observe=["load result, stream state, exit status of the command-line tool"])

p("R03", "Truncated or damaged matrix input gives a whole-row prefix or a rejection",
  "When the text of a matrix or vector is cut off at any byte, or one of its bytes is damaged, the reader either reports failure or accepts exactly the numbers written in the text that arrived, with every row the same length; a comment line after the rows may end the matrix or be skipped. It never drops a complete row, invents an element, reuses elements of an earlier load, or reads or writes memory outside its own.",
  ["crash_points", "fault_sequences", "inputs"],
  "every text, every truncation point and every damaged byte, into fresh and previously used destinations",
  "The regression inputs are complete files ending in a newline; no test truncates or damages one or loads into a non-empty object.",
  ["spffl/containers/tmatrix.h", "spffl/containers/tvector.h", "spffl/bits/bit_matrix_t.cpp", "spffl/bits/bit_vector_t.cpp"],
  [("row-length check and last-row handling", "spffl/containers/tmatrix.h:operator>>, spffl/bits/bit_matrix_t.cpp:operator>>"),
   ("growth of the row and element arrays", "spffl/containers/tmatrix.h:operator>>, spffl/containers/tvector.h:operator>>, spffl/bits/bit_vector_t.cpp:operator>>")],
  observe=["value read, stream state, address sanitizer"])

p("W01", "A matrix reported as stored can be loaded back unchanged",
  "Storing a matrix or vector to a file or to standard output reports success only if every byte was accepted by the operating system, and then loading it back gives an equal object. When the disk fills, the device fails or writes are cut short at any point, either the write is completed by retrying or the store reports failure.",
  ["fault_sequences", "crash_points", "inputs"],
  "every matrix and every sequence of short, interrupted and failing writes",
  "No test stores anything, let alone to a full or failing disk.",
  ["spffl/containers/tmatrix.h", "spffl/containers/tvector.h", "spffl/bits/bit_matrix_t.cpp"],
  [("store result", "spffl/containers/tmatrix.h:store_to_file"),
   ("element printing and reading", "spffl/containers/tmatrix.h:operator<<, operator>>")],
  observe=["store result, bytes in the file, value loaded back"])

# ---------------------------------------------------------------- command-line tool
p("C01", "A braced sub-command means exactly its own output",
  "A command line in which a braced sub-command appears gives the same output as the command line in which the sub-command has been run by itself and its output words put in its place, for any nesting depth, any number of sub-commands and any amount of output. This does not depend on how the inner command's output is cut into lines or pipe reads, or on characters in the arguments that a shell would treat specially.",
  ["inputs", "schedules", "programs"],
  "every command line with balanced braces, every output size, and every division of the inner output into reads",
  "The regression cases with braces have short outputs that arrive in one read and hold no character special to a shell; long, split and awkward outputs are never run.",
  ["spffl/cli_parser/cmd_interp.cpp", "spffl/base/tokenize.cpp", "cli/spiff/spiff_main.cpp"],
  [("running the inner command and splicing its words", "spffl/cli_parser/cmd_interp.cpp:replace, cmd_interpolate_once"),
   ("matching of braces", "spffl/cli_parser/cmd_interp.cpp:find_matching_right_bracket, check_balance")],
  observe=["standard output and exit status of the outer command"])

p("C02", "When an inner command fails, the outer command does not answer",
  "If a braced sub-command cannot be started, exits with a failure, is killed, or its output cannot be read completely, the outer command reports the failure and exits with a non-zero status; it never prints an answer computed from missing or partial words.",
  ["fault_sequences", "crash_points", "programs"],
  "every command line with a sub-command, and every point at which starting, running or reading the sub-command fails",
  "No test makes a sub-command fail to start, die part way, or lose output.",
  ["spffl/cli_parser/cmd_interp.cpp", "cli/spiff/spiff_main.cpp"],
  [("exit status of the inner command", "spffl/cli_parser/cmd_interp.cpp:replace"),
   ("exit status of the tool", "cli/spiff/spiff_main.cpp:main")],
  observe=["standard output and exit status of the outer command"])

p("C03", "Lost output is reported in the exit status",
  "If any part of what a command of the spiff tool prints cannot be delivered - the disk is full, the device fails or the reader has gone - the command's exit status is non-zero; a zero exit status means every byte of the complete answer was delivered. Short and interrupted writes alone never lose, repeat or reorder output.",
  ["fault_sequences", "crash_points", "programs"],
  "every command and every byte position at which writing standard output fails or is cut short",
  "Tests compare complete output on a healthy disk and never look at the exit status.",
  ["cli/spiff/spiff_main.cpp", "cli/spiff"],
  [("exit status of the tool", "cli/spiff/spiff_main.cpp:main")],
  observe=["bytes delivered on standard output, exit status"])

p("C04", "A command that could not do its job exits with a failure status",
  "When a command of the spiff tool rejects its arguments, cannot read its input, hits an arithmetic error such as division by zero or runs out of memory, it exits with a non-zero status and a message on standard error, and does not claim success; a command that did its job exits with status zero. This holds at whatever point of the command the failure strikes.",
  ["fault_sequences", "inputs", "crash_points"],
  "every command with every valid or invalid argument list, and every allocation or read that fails inside it",
  "The regression suite compares only standard output; exit statuses are never examined.",
  ["cli/spiff/spiff_main.cpp", "cli/spiff/f2_handlers.cpp", "cli/spiff/fp_handlers.cpp", "cli/spiff/z_handlers.cpp"],
  [("exit status of the tool", "cli/spiff/spiff_main.cpp:main, try_main"),
   ("argument and input checks", "cli/spiff/*_handlers.cpp")],
  observe=["exit status, standard error, standard output"])

# ---------------------------------------------------------------- randomness
p("G01", "The pseudorandom sequence is a pure function of the seed and draw count",
  "After seeding, the n-th step of a generator yields a fixed function of the seed and n: it steps a 64-bit counter with carry and hashes it, so the sequence never depends on the clock, the process, other generators, or the mix of 32-bit, 64-bit and floating-point draws that came before. Floating-point draws lie in [0,1), reseeding restarts the sequence exactly, and the caller-owned and built-in generators agree; an unseeded built-in generator seeds itself from the clock and process id exactly once, at the first draw.",
  ["histories", "schedules", "inputs"],
  "every history of seedings and draws over any number of generators, every seed including those about to carry, and every clock",
  "No test touches the generator, and drawing far enough to see a carry or a second self-seeding takes a chosen seed, not a long test.",
  ["spffl/bitrand/psdes.cpp", "spffl/bitrand/psdes.h"],
  [("counter step with carry", "spffl/bitrand/psdes.cpp:iran32_r, iran64_r"),
   ("self-seeding", "spffl/bitrand/psdes.cpp:iran32, iran64, fran32, sran32_timeofday")],
  state=[("non_reentrant_state0/1, non_reentrant_seeded", "state of the built-in generator", "spffl/bitrand/psdes.cpp")],
  observe=["values drawn, caller-owned state"])

p("G02", "Random elements are what was asked for, for every outcome of the random source",
  "Whatever the random source delivers, a random residue lies in range for its modulus, a random polynomial has exactly the requested degree with coefficients in its field, a random residue-class element is reduced and carries the requested modulus, and a random irreducible polynomial is irreducible of the requested degree. Every admissible element can be produced (irreducibles are searched among polynomials with a non-zero constant term, which leaves out only the multiples of x in degree 1), and none is produced outside the requested set.",
  ["inputs", "fault_sequences", "schedules"],
  "every modulus, degree and field, and every sequence of words from the random source, including all-zero, all-one and repeating ones",
  "No test draws a random element; a fixed seed would show one outcome of the source.",
  ["spffl/random/int_random.cpp", "spffl/random/intmod_random.cpp", "spffl/random/f2_poly_random.cpp", "spffl/random/f2_polymod_random.cpp", "spffl/random/fp_poly_random.cpp", "spffl/random/fp_polymod_random.cpp", "spffl/random/f2n_poly_random.cpp", "spffl/random/f2n_polymod_random.cpp", "spffl/factorization"],
  [("reduction of source words to elements", "spffl/random/intmod_random.cpp, spffl/random/f2_poly_random.cpp, spffl/random/fp_poly_random.cpp"),
   ("search for irreducibles", "spffl/factorization/f2_poly_factor.cpp, spffl/factorization/fp_poly_factor.cpp")],
  observe=["elements returned"])

p("G03", "Only bytes the system actually supplied are used as randomness",
  "In a build that takes randomness from the system's random device, every word returned was supplied by the device, whole, in order and used once, through short reads, interrupted reads, and end of file. If the device cannot be opened or read, the caller gets an error, not old, zero or partly-filled data, and a later draw works again once the device does.",
  ["fault_sequences", "histories"],
  "every sequence of opens and reads of the random device that fail, are interrupted or return any number of bytes, over any number of draws",
  "The tests do not build this configuration and cannot make the system's random device misbehave.",
  ["spffl/random/int_random.cpp"],
  [("buffered device reads", "spffl/random/int_random.cpp:get_random_int")],
  state=[("fd, buf, bufpos", "device handle and words fetched but not yet returned", "spffl/random/int_random.cpp:get_random_int")],
  observe=["values drawn, exceptions"],
  hook=None)

p("G04", "Random commands print only well-formed answers of the requested shape",
  "Every command of the spiff tool that prints random numbers, polynomials, vectors or matrices prints exactly the requested number of well-formed elements of the requested kind and size, for every clock reading and process id, and the tool's own parsers accept what was printed. Running such a command again at the same clock reading and process id prints the same answer.",
  ["inputs", "schedules", "configurations"],
  "every random command and argument, every clock value and process id at start-up",
  "The regression suite leaves the random commands out because their output changes from run to run.",
  ["cli/spiff/f2_handlers.cpp", "cli/spiff/f2_poly_handlers.cpp", "cli/spiff/f2_polymod_handlers.cpp", "cli/spiff/f2n_poly_handlers.cpp", "cli/spiff/f2n_polymod_handlers.cpp", "cli/spiff/fp_handlers.cpp", "cli/spiff/fp_poly_handlers.cpp", "cli/spiff/fp_polymod_handlers.cpp", "cli/spiff/f2_polyrat_handlers.cpp", "spffl/random"],
  [("random commands", "cli/spiff/*_handlers.cpp:*_random_main, *_find_main"),
   ("self-seeding of the generator", "spffl/bitrand/psdes.cpp:sran32_timeofday")],
  observe=["standard output and exit status"])

# ---------------------------------------------------------------- pure functions: listed, not claimed
pure_why = "Tests compare a few dozen small cases; the statement quantifies over all inputs."
p("M01", "Arithmetic in every ring and field obeys its axioms",
  "Addition, subtraction, multiplication, division and powers of integers modulo m, polynomials, residue classes and quotients satisfy the ring or field axioms, with results in canonical form.",
  ["inputs"], "every pair or triple of elements of every supported structure with moduli up to 32 bits", pure_why,
  ["spffl/intmath", "spffl/polynomials", "spffl/rationals", "spffl/bits"],
  [("arithmetic operators", "spffl/intmath/intmod_t.cpp, spffl/polynomials/f2_poly_t.cpp, spffl/polynomials/fp_poly_t.cpp, spffl/rationals")])
p("M02", "Factorizations multiply back and consist of irreducibles",
  "Factoring an integer or polynomial gives irreducible factors whose product with multiplicities is the input, and the divisor list contains each divisor once.",
  ["inputs"], "every integer and every polynomial over every supported field", pure_why,
  ["spffl/factorization", "spffl/containers/tfacinfo.h"],
  [("Berlekamp factoring", "spffl/factorization/f2_poly_factor.cpp, spffl/factorization/fp_poly_factor.cpp, spffl/factorization/f2n_poly_factor.cpp")])
p("M03", "Greatest common divisors, totients, primality and irreducibility are right",
  "Gcd and lcm, extended gcd coefficients, totients, primality and irreducibility tests, and periods agree with their definitions.",
  ["inputs"], "every argument", pure_why,
  ["spffl/intmath", "spffl/factorization"],
  [("integer and polynomial number theory", "spffl/intmath/int_gcd.cpp, spffl/intmath/is_prime.cpp, spffl/intmath/int_totient.cpp, spffl/factorization")])
p("M04", "Linear algebra over every field is right",
  "Determinants, inverses, kernels, row reduction, solutions and characteristic and minimal polynomials satisfy their defining equations.",
  ["inputs"], "every matrix over every supported field", pure_why,
  ["spffl/containers/tmatrix.h", "spffl/bits/bit_matrix_t.cpp", "spffl/linalg"],
  [("elimination", "spffl/containers/tmatrix.h, spffl/bits/bit_matrix_t.cpp, spffl/linalg")])
p("M05", "Orders, generators and discrete logarithms are right",
  "The reported order of a unit is its exact order, a reported generator generates, and a reported logarithm exponentiates back to its argument.",
  ["inputs"], "every unit of every supported finite field", pure_why,
  ["spffl/units"], [("order and baby-step giant-step", "spffl/units/fp_units.cpp, spffl/units/f2_polymod_units.cpp, spffl/units/f2n_polymod_units.cpp")])
p("M06", "Element lists and tables are complete and free of repeats",
  "Listing elements, units or polynomials of a degree gives each exactly once in order, and operation tables agree with the arithmetic.",
  ["inputs"], "every supported ring, degree and modulus", pure_why,
  ["spffl/list/list_elements.cpp", "cli/spiff"], [("enumeration", "spffl/list/list_elements.cpp")])
p("M07", "Cyclotomic polynomials and bit counts agree with their definitions",
  "The product of the cyclotomic polynomials of the divisors of n is x^n - 1, and bit counts, bit positions and base-2 logarithms are exact.",
  ["inputs"], "every n and every machine word", pure_why,
  ["spffl/q_cyclotomic", "spffl/bits/count_bits.cpp", "spffl/intmath/log2.cpp"], [("recursive division", "spffl/q_cyclotomic/cyclo_poly.cpp")])
p("M08", "Printing and reading back an element gives the same element",
  "The printed form of every element, polynomial and rational is accepted by the corresponding reader and gives an equal value.",
  ["inputs"], "every element of every type", pure_why,
  ["spffl/intmath", "spffl/polynomials", "spffl/rationals"], [("operator<< and operator>>", "spffl/polynomials/*.cpp, spffl/intmath/*.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
