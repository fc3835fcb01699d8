
prop("P01", "The result stream is one well-formed JSON array on every exit",
     "Whatever the options, the input and the point at which generation fails, everything the program writes to its result stream before it ends normally is either nothing or one complete JSON array: an opening bracket, curve objects separated by single commas, and a closing bracket. Curves written by worker threads follow the same framing as those of the single-threaded mode. No diagnostic or other text is ever mixed into the stream.",
     ["configurations", "inputs", "fault_sequences", "schedules"],
     "every option combination, number of curves/primes/threads, and every point at which generating a curve can fail or the input can end",
     "Unit tests print single curves; the framing depends on which curve of a sequence fails, on the number of primes left and on the thread schedule.",
     ["src/ecgen.c", "src/io/output.c", "src/exhaustive/exhaustive.c", "src/invalid/invalid.c", "src/cm/cm.c"],
     ["output_o_begin/output_o/output_o_separator/output_o_end@src/io/output.c", "exhaustive_generate@src/exhaustive/exhaustive.c", "invalid_do@src/invalid/invalid.c"],
     check="output_framing", technique="abstract interpretation of the LLVM IR from main() with a property automaton over writes to the result stream (loops to fixpoint)",
     note="Covers every path of main() with loops solved to a fixpoint over automaton states; abnormal termination (allocation failure, PARI errors, signals) is outside the claim.")

prop("P02", "A zero exit status means the requested curves were written",
     "Outside the invalid-curve method the program exits with status 0 only after writing exactly the requested number of curves, and never writes more than that. It never writes a curve whose generation failed, and it never exits with status 0 after a write to the result stream failed.",
     ["configurations", "inputs", "fault_sequences"],
     "every requested count, every failing curve position and every failing write",
     "Tests never run the program to the point where the third of five curves fails or the disk is full.",
     ["src/ecgen.c", "src/exhaustive/exhaustive.c", "src/io/output.c", "src/cm/cm.c"],
     ["exhaustive_generate@src/exhaustive/exhaustive.c", "quit@src/ecgen.c", "output_quit@src/io/output.c"],
     check="exit_status", technique="abstract interpretation of the LLVM IR from main() with linear loop invariants relating written curves to the requested count, and a typestate for the stream error test",
     note="All paths of main(); the generation engine is abstracted to its verdict. The invalid-curve method is only covered for write errors.")

prop("P03", "A curve is accepted only after every stage was generated and checked",
     "Whatever generators and checks are set up for a run, generation reports success only if every stage of the requested range, in order, produced its parameter and all checks attached to that stage accepted it, with nothing below it redone since. A stage that rejects by going back k stages makes generation resume at exactly that earlier stage (the first stage of the range at the lowest), a timed-out attempt restarts from the first stage, and a verdict that no attempt can succeed ends generation with failure. Every generator and check is applied to the curve being generated, with the argument set for it and its own stage number.",
     ["configurations", "inputs", "fault_sequences"],
     "every combination of generators and checks, every sequence of rejections, retries and timeouts",
     "The retry engine is a loop over verdicts of other code; tests run it with one or two short verdict sequences.",
     ["src/exhaustive/exhaustive.c", "src/exhaustive/exhaustive.h"],
     ["exhaustive_gen_retry@src/exhaustive/exhaustive.c"],
     check="engine_protocol", technique="abstract interpretation of the engine for a symbolic setup with ghost state (valid-up-to stage) and inferred inductive loop invariants",
     note="All verdict sequences and all setups; the generators themselves are abstracted to any verdict they may return.")

prop("P04", "Order and subgroup requests hold for every accepted curve",
     "With curves of the ordinary, twist and ANSI seed methods the options for a prime order, a cofactor, a smooth order and a unique generator are always taken into account; with every other method except CM and invalid curves they are at least honoured whenever the program treats them as used. A curve is accepted only if its recorded order is a proven prime (prime order), the requested cofactor times a proven prime (cofactor), free of prime factors longer than the requested number of bits (smooth), with one generator at most (unique), or with a first generator whose order is the curve order divided by the requested cofactor (cofactor without unique). No later stage replaces the order, curve, field or coefficients of the accepted curve.",
     ["configurations", "inputs", "random_choices"],
     "all combinations of field, method, order option, unique and Koblitz, on an arbitrary curve",
     "Whether a random curve has the requested order depends on the curve; tests only sample orders of a few small curves.",
     ["src/gen/order.c", "src/gen/gens.c", "src/exhaustive/exhaustive.c", "src/exhaustive/brainpool.c", "src/exhaustive/nums.c"],
     ["exhaustive_ginit/exhaustive_ainit@src/exhaustive/exhaustive.c", "order_gen_*@src/gen/order.c", "gens_gen_*@src/gen/gens.c"],
     check="order_requests", technique="interpretation of main() per class of command lines to resolve the wired stages, then must-fact analysis of each wired stage on a symbolic curve (loops by induction)",
     note="isprime(), ellcard(), ellsea(), factor() and ellff_get_gens() of PARI are trusted; every option combination and every path of the stage functions is covered.")

prop("P05", "Recorded generators and points lie on the curve with their true orders",
     "Every generator and every listed point recorded for a curve is a point of that very curve, obtained by its group operations, and is recorded with its own exact order; the cofactor recorded with a generator is the number of points of the curve divided by the order of that generator. The recorded generators fill the list without gaps, and unless a generator of a given cofactor, or the deterministic generator of Brainpool or NUMS, is asked for they are all the generators of the group structure.",
     ["configurations", "inputs", "random_choices"],
     "all curves, all methods and options that select generators or points, all random choices",
     "Unit tests check a few points of a few small curves; the relation must hold for every curve and every loop iteration.",
     ["src/gen/gens.c", "src/gen/point.c", "src/exhaustive/brainpool.c", "src/exhaustive/nums.c"],
     ["gens_point/gens_put/gens_gen_*@src/gen/gens.c", "points_from_orders/points_gen_*@src/gen/point.c", "nums_gen_gens@src/exhaustive/nums.c", "brainpool_gen_gens@src/exhaustive/brainpool.c"],
     check="group_points", technique="symbolic value analysis of every wired generator/point stage on an arbitrary curve; a rule on each point object at every loop back edge and at acceptance",
     note="ellorder, ellmul, ellordinate and ellff_get_gens of PARI are trusted. Which points are listed (which orders, how many) is not decided.")

prop("P06", "The curve computed with is the recorded non-singular curve",
     "Whatever method and options are in use, the curve object that points, orders and metadata are computed with is the non-singular curve over the recorded field with exactly the recorded coefficients a and b, in short Weierstrass form over a prime field and in the form y^2 + xy = x^3 + ax^2 + b over a binary one. The twist method records the quadratic twist of the curve it generated, and no other method records a twist in place of the requested curve.",
     ["configurations", "inputs", "random_choices"],
     "all methods, fields and coefficients, including singular ones and values left by an earlier try",
     "Tests build a few curves; that a, b, the field and the curve object always describe the same curve has to hold for each generated value and each retry.",
     ["src/gen/curve.c", "src/math/twists.c", "src/cm/cm_any.c", "src/cm/cm_prime.c"],
     ["curve_gen_any/curve_gen_any_twist@src/gen/curve.c", "twist_rand@src/math/twists.c", "cm_gen_curve_any@src/cm/cm_any.c", "cm_gen_curve_prime@src/cm/cm_prime.c"],
     check="curve_model", technique="symbolic value analysis of every wired curve stage on an arbitrary field and arbitrary coefficients, obligations at every accepting state",
     note="ellinit, elltwist and ellfromj of PARI are trusted; in the CM method, curves constructed from a discriminant are not required to be untwisted.")

prop("P07", "The recorded order is the number of points of the curve",
     "Whatever method and options are in use, the order recorded for a curve is the number of points of exactly that curve: counted, tabulated for the very Koblitz curve (not for its twist and not for another field), p for anomalous and p + 1 for supersingular curves, or, in the CM method, the requested order of which the curve has been shown to be. A point count that was abandoned early is never recorded. The number cached for later computations with the curve is the same one.",
     ["configurations", "inputs", "random_choices"],
     "all methods, fields and order options, all curves",
     "A wrong order shows only for particular curves or table rows; the tests compare a handful.",
     ["src/gen/order.c", "src/math/koblitz.c", "src/math/twists.c", "src/cm/cm_any.c", "src/cm/anomalous.c", "src/cm/supersingular.c", "src/exhaustive/nums.c", "src/exhaustive/family.c"],
     ["order_gen_*@src/gen/order.c", "koblitz_curves@src/math/koblitz.c", "cm_has_order/cm_gen_order@src/cm/cm_any.c", "anomalous_gen_order@src/cm/anomalous.c", "supersingular_gen_order@src/cm/supersingular.c"],
     check="order_truth", technique="symbolic value analysis of every wired order stage, post-condition analysis of the CM order test, and recomputation of the constant order table from the Frobenius recurrence",
     note="PARI's point counting and CM theory (a curve with a root of the class polynomial has one of the twist orders) are trusted; that the anomalous and supersingular equations really give such curves is a separate property.")

prop("P08", "A printed record shows exactly the generated curve",
     "For every curve that is printed, each key of its JSON record holds the complete hexadecimal (for metadata, decimal) value of exactly the parameter it names: the field, a, b, the order, the seed with its sign, the coordinates, order and cofactor of generators and points, and the metadata. Nothing that was generated is left out and nothing else appears. The lists of subgroups and of points hold one entry per generator and per point, in order, and the exponents printed for a binary field are those of the non-zero terms of its polynomial, in descending order.",
     ["inputs", "configurations", "random_choices"],
     "all curves: any field, coefficients, number of generators and points, seeds and metadata present or absent",
     "Tests compare the output of two or three curves; a swapped or missing key shows only for curves with particular contents.",
     ["src/io/output.c", "src/gen/field.c"],
     ["output_jjson/output_json_point@src/io/output.c", "field_params/field_elementi@src/gen/field.c"],
     check="record_truth", technique="symbolic execution of the renderer on an arbitrary curve with JSON objects as ghost maps; loop invariants for list lengths and positions",
     note="parson's serialization and the conversions of pari_sprintf are trusted.")

prop("P09", "The field is a field of the requested kind and size",
     "Every recorded field is what was asked for: over a prime field the modulus is prime, of exactly the requested number of bits where it is chosen by ecgen (random, anomalous, Brainpool), of at most that many where it is read from input; over a binary field it is GF(2^m) for the requested m given by an irreducible polynomial with the recorded exponents, whether read from input or taken from the tables, which hold a suitable polynomial for every m from 2 to 10000.",
     ["inputs", "configurations", "random_choices"],
     "all methods, all field sizes, all input values",
     "The tables have over 9000 entries and each size is used only when asked for; a composite modulus or a wrong degree depends on the input or on the random choice.",
     ["src/gen/field.c", "src/math/poly.c", "src/util/random.c", "src/io/input.c", "src/cm/anomalous.c", "src/exhaustive/brainpool.c", "src/exhaustive/nums.c", "src/exhaustive/family.c", "src/cm/cm_any.c", "src/cm/cm_prime.c"],
     ["field_gen_random/field_gen_input@src/gen/field.c", "poly_find/poly_gen@src/math/poly.c", "random_prime@src/util/random.c", "anomalous_prime@src/cm/anomalous.c", "brainpool_gen_field@src/exhaustive/brainpool.c"],
     check="field_truth", technique="symbolic value analysis of every wired field generator; the table lookup is solved for each size from its path conditions and each table entry tested by Rabin's irreducibility criterion",
     note="PARI's primality test and random prime generator are trusted. The number of bits is not claimed for NUMS, family and CM primes. Quick runs skip the irreducibility test of polynomials listed in data/irreducible.txt (recomputed by thorough runs).")

prop("P10", "The points listed with a generator are exactly those asked for",
     "With --points=prime, nonprime or all, the list of points printed for a generator holds exactly one point for each prime divisor, each composite divisor or each divisor above one of the generator's order; with none the lists are empty; with random there are as many points in total as requested (one when no number is given); and in the invalid-curve method each curve's generators list one point for each prime being covered that divides their order. Every entry of a list holds a point.",
     ["inputs", "configurations", "random_choices"],
     "all curves: any number of generators, any factorization of their orders, any requested number of points and any set of primes to cover",
     "Tests see a few curves; a divisor that is missed or listed twice needs an order with a particular factorization, such as a repeated prime.",
     ["src/gen/point.c", "src/math/subgroup.c", "src/exhaustive/exhaustive.c", "src/invalid/invalid.c"],
     ["points_gen_*/points_from_orders@src/gen/point.c", "subgroups_*@src/math/subgroup.c", "exhaustive_ginit@src/exhaustive/exhaustive.c"],
     check="listed_points", technique="abstract interpretation of every wired point generator over orders that are products of unknown distinct primes of each shape", level="other",
     note="Orders of every shape with at most three distinct primes (quick: exponents up to 3, thorough: up to 4), one and two generators, up to three random points and three primes to cover; PARI's factorization is trusted. That each listed point has the order it is listed with is P05.")

prop("P11", "Recorded metadata are those of the recorded curve",
     "With --metadata, every curve is recorded with its own j-invariant and discriminant and with the trace of Frobenius q + 1 - n for its order n over the field with q elements; over a prime field also with the embedding degree, which is the multiplicative order of p modulo n, or 0 if p divides n, and with the fundamental discriminant and the conductor of t^2 - 4p. Computing them never ends the program. Without --metadata none of them is recorded.",
     ["inputs", "configurations", "random_choices"],
     "all curves over prime and binary fields, generated by any method",
     "Tests look at metadata of a few curves; a wrong formula can agree on those, and orders divisible by p are very rare.",
     ["src/gen/metadata.c", "src/gen/gens.c", "src/gen/field.c", "src/exhaustive/exhaustive.c"],
     ["metadata_gen@src/gen/metadata.c", "gens_get_embedding@src/gen/gens.c", "exhaustive_ginit@src/exhaustive/exhaustive.c"],
     check="metadata_truth", technique="symbolic value analysis of the wired metadata stage over an arbitrary curve; polynomial identity for the formulas",
     note="PARI's j-invariant, discriminant, znorder and coredisc2 are trusted.")

prop("P12", "Parameters come from the source the options select",
     "Each parameter comes from the source the command line selects. What --random names is drawn at random (coefficients from the whole field), the rest is read from the input; with --koblitz a is its value and b is 1; a seed given as an argument is used. An entered number is taken exactly: with its sign and modulo p over prime fields, as the polynomial of its binary digits over binary ones; an entered field is the prime entered. No coefficient is refused for being a particular number such as -1, and when the input ends the generation stops instead of asking again.",
     ["inputs", "configurations", "random_choices"],
     "all subsets of --random, all methods with free parameters, both kinds of field, all entered values",
     "Tests enter a handful of values and cannot tell a random value from one drawn from a part of the field or from the wrong source.",
     ["src/gen/equation.c", "src/gen/field.c", "src/gen/seed.c", "src/io/input.c", "src/exhaustive/exhaustive.c", "src/exhaustive/ansi.c", "src/exhaustive/brainpool.c", "src/exhaustive/family.c", "src/invalid/invalid.c", "src/cm/cm.c"],
     ["a_gen_*/b_gen_*@src/gen/equation.c", "input_i@src/io/input.c", "field_gen_*@src/gen/field.c", "exhaustive_ginit@src/exhaustive/exhaustive.c"],
     check="param_sources", technique="provenance analysis of the recorded values in every accepting state of every wired seed, field and coefficient generator",
     note="The parser of numbers is PARI's (strtoi). A line ended by the end of the input instead of a newline, text that is not a number and the fixed curve of random binary fields (a table) are outside the property.")

prop("P13", "Anomalous and supersingular curves are what they are called",
     "Every curve constructed by --anomalous has trace of Frobenius one: its prime satisfies 4p = 1 + D y^2 for a discriminant -D of class number one, its j-invariant is the one of that discriminant, and of the two twists it is always the one with p points. Every curve constructed by --supersingular over a prime field p > 3 is supersingular, hence has p + 1 points: b = 0 only for p = 3 mod 4, a = 0 only for p = 2 mod 3, and otherwise its j-invariant is a root modulo p of the class polynomial of a discriminant in whose field p is inert, and which always has such a root.",
     ["inputs", "random_choices"],
     "all primes that can be chosen or entered, all random twists",
     "The order is not counted for these curves but recorded as p or p + 1, so a wrong curve looks right; the wrong twist or a splitting discriminant shows only for some primes.",
     ["src/cm/anomalous.c", "src/cm/supersingular.c", "src/cm/cm.c"],
     ["anomalous_prime/anomalous_c/anomalous_gen_equation@src/cm/anomalous.c", "supersingular_gen_equation@src/cm/supersingular.c"],
     check="special_curves", technique="symbolic value analysis of the wired field and equation stages; identities between the extracted formulas and the path conditions are tested at sample points",
     note="Complex multiplication theory and PARI's class polynomials and roots are trusted; an identity of rational functions is decided by evaluation at random points (error probability negligible).")

prop("P14", "Every command-line option has exactly its documented effect",
     "Each documented option, in its long and short form and with every documented form of its value (names, lists, suffixes k/m/g and s/m/h/d, seeds, ranges, orders), sets exactly the settings it documents, independently of the options before it. Values outside the documented vocabulary (unknown names, malformed ranges, orders, seeds, hex strings or sizes) and combinations of options that exclude each other (two fields, two methods, two order conditions, prime-field methods over binary fields, deterministic NUMS with --random, anomalous without it) are refused; all other combinations are accepted, given values are kept and missing ones replaced by the defaults.",
     ["inputs", "configurations"],
     "all options, all documented words and lists of words, all combinations of a field, up to two methods, order conditions and randomness, sizes 10 to 600",
     "There are thousands of combinations of options and values and the tests use a few dozen; a value silently misread gives curves the user did not ask for.",
     ["src/io/cli.c", "src/ecgen.c", "src/util/str.c", "src/exhaustive/ansi.c", "src/exhaustive/brainpool.c"],
     ["cli_options/cli_parse/cli_end/cli_parse_memory/cli_parse_time@src/io/cli.c", "str_is_hex@src/util/str.c"],
     check="command_line", technique="abstract interpretation of the option parser on constant words (exact models of the libc string functions), enumeration of option sequences", level="other",
     note="Numbers are sampled; malformed numbers given to -c, -k and -B and text after a valid number or point type are outside the property. The semantics of argp is trusted.")

prop("P15", "Options that do not affect the result are reported",
     "ecgen warns about every option among --random, --koblitz (and its value), --hex-check, --metadata, --points, --unique, --count and a given seed that the chosen method ignores, and only about those: whenever such an option was given and none of the stages of the generation depends on it, a warning naming it is printed, and no warning is printed for options the generation depends on. Every method prints its warnings, every option given on the command line is remembered as given, and each warning names the option it is about.",
     ["configurations", "inputs"],
     "all methods and fields, each option absent and present, alone and with the other options",
     "An option that silently stops having an effect leaves every other output unchanged; tests would have to compare runs for each of the hundreds of combinations.",
     ["src/misc/config.c", "src/misc/config.h", "src/io/cli.c", "src/exhaustive/exhaustive.c", "src/cm/cm.c", "src/invalid/invalid.c"],
     ["config_report_unused@src/misc/config.c", "exhaustive_ginit@src/exhaustive/exhaustive.c", "cm_ginit@src/cm/cm.c", "cli_parse@src/io/cli.c"],
     check="ignored_options", technique="interprocedural comparison of the wired generators, arguments and checks with each option absent and present, against the marks the warnings are printed from",
     note="That --prime, --cofactor, --smooth and --unique hold where they are not reported is P04.")

prop("P16", "Recorded values outlive the reclaiming of temporary memory",
     "Curve generation works on PARI's stack and reclaims its temporaries: stages reset or compact the stack, retries go back to the state before the rejected stage, and clones are freed. Nothing reclaimed is used afterwards: whenever a function of the program succeeds, no value it leaves in the curve, its points, seed and metadata, in global state or returns lies in memory it has reclaimed; no value is read or kept once its memory may hold something else; every address given to gerepileall is counted; and when generation goes back to an earlier stage, what the stages before that one recorded stays intact.",
     ["inputs", "fault_sequences", "configurations"],
     "every path of every function reachable from main that resets or compacts PARI's stack or frees clones, and every sequence of verdicts and timeouts of the generation engine up to the stated number of generator calls",
     "Reclaimed memory keeps its contents until something happens to be allocated over it, so a value that was not preserved looks right in most runs and sizes; sanitizers do not see PARI's stack.",
     ["src/exhaustive/*.c", "src/gen/*.c", "src/cm/*.c", "src/invalid/*.c", "src/math/*.c", "src/obj/*.c", "src/util/random.c"],
     ["exhaustive_gen_retry@src/exhaustive/exhaustive.c", "every function that reads or writes avma, or calls gerepile*, gclone or gunclone"],
     check="memory_lifetime", technique="abstract interpretation of the LLVM IR with a ghost PARI stack (allocation, reset, compaction and clone typestate), loops to fixpoint; the engine with bounded verdict sequences", level="other",
     note="Allocation is per value, not per byte; which PARI functions allocate is read from PARI's headers. A caller passing a value of its own to a function that reclaims it is only seen where the function is interpreted inlined.")

prop("P17", "Every prime of the invalid-curve method is served exactly once",
     "For an invalid-curve request the primes are exactly those of the given range, or else the smallest primes with a product above the square of the order, and each gets exactly one curve, printed exactly once: a curve with the field and the coefficient a of the original one, an order divisible by the prime and a point of that order. With several threads this holds under every schedule: the shared tables are only touched under their mutex, a prime is claimed by one worker at a time and only if it divides the order of that worker's curve, claims are never abandoned, the count of curves is exact, the coordinator never waits for a signal that has already come, every worker seeds its own random generator, nothing recorded is reused or reclaimed, and nothing else that is shared by the process is changed by workers.",
     ["schedules", "inputs", "histories"],
     "every interleaving of any number of workers, every outcome of divisibility and of generator retries, up to three primes (four for the coordinator); constant ranges and orders for the list of primes",
     "Tests run one schedule of a few workers; a missed lock, signal or claim shows once in thousands of runs, as a hang, a missing or a repeated curve.",
     ["src/invalid/invalid.c", "src/invalid/invalid_thread.c", "src/util/random.c", "src/util/timeout.c"],
     ["invalid_thread@src/invalid/invalid_thread.c", "invalid_curves_threaded/invalid_curves_single/invalid_primes@src/invalid/invalid.c"],
     check="invalid_workers", technique="lock-set and thread-modular (rely-guarantee) abstract interpretation of worker and coordinator with symbolic primes and divisibility; effect analysis of process-wide variables over the resolved call graph", level="other",
     note="The number of primes is bounded (small tables); workers are unbounded in number because siblings are abstracted to any allowed progress. Liveness (that a fitting curve is eventually found) is not claimed. PARI's own thread safety is trusted.")

prop("P18", "Copied curves are complete, released ones are released once",
     "A copy of a curve (made for each further prime of the invalid-curve method, and by its workers) equals the original in everything that is printed: field, coefficients, order, every subgroup with its generator's order and cofactor and every point; and it shares no memory with the original. Releasing a curve, after any sequence of the stage unrolls a retry performs, frees every block the curve owns exactly once, touches none afterwards, releases the cached data of the elliptic curve object once and leaves no pointer to it.",
     ["inputs", "histories"],
     "curves with every combination of set parts, with and without seeds of each kind, up to two subgroups of up to two points, values on the stack or cloned, all retry sequences of the wired unroll functions and two in a row",
     "Copies are made only for curves that serve several primes or come from workers, and double frees only follow particular retry sequences; sanitizers see those that a test happens to run.",
     ["src/obj/*.c", "src/obj/obj.h", "src/gen/seed.c", "src/gen/curve.c", "src/gen/gens.c", "src/gen/point.c"],
     ["curve_new_copy/curve_free@src/obj/curve.c", "curve_unroll/gens_unroll/points_unroll@src/gen"],
     check="curve_objects", technique="ownership/typestate analysis: abstract interpretation of the copy, release and unroll functions on object graphs of every small shape", level="other",
     note="Copies are analysed for curves without a seed and without metadata, the only ones that are copied; cloned PARI values may leak on an unroll.")

prop("P19", "Recorded coefficients are reduced elements of the recorded field",
     "Whatever method or option a curve comes from, the coefficients a and b that generation accepts and prints are elements of the very field that is printed, in reduced form: over a prime field residues between 0 and p − 1, over a binary field elements of that field, never an integer that nothing reduced and never an element of another field (such as the field of a rejected attempt); and no success leaves one of them unrecorded.",
     ["inputs", "histories", "configurations"],
     "every wired generator of a coefficient × class of command lines (method, field, seed procedure, options), on an arbitrary field",
     "An unreduced coefficient defines the same curve for PARI, so every test that computes with the curve passes; it shows only in the printed value, and often only for some seeds or sizes.",
     ["src/gen/equation.c", "src/gen/curve.c", "src/exhaustive/*.c", "src/cm/custom.c", "src/invalid/*.c", "src/misc/*.c"],
     ["a_gen_*/b_gen_*@src/gen/equation.c", "ansi_gen_equation@src/exhaustive/ansi.c", "brainpool_gen_equation@src/exhaustive/brainpool.c", "every generator wired for the coefficients by exhaustive_ginit@src/exhaustive/exhaustive.c"],
     check="coefficients", technique="abstract interpretation of the wired coefficient stages; membership of the recorded term in the recorded field decided by its structure (residue, element, bounded integer)", level="other",
     note="Coefficients the user enters are converted by the input code; that they are read as entered is not claimed. Terms whose reduction cannot be decided are passed over.")

prop("P20", "Curves made from a seed are the ones their procedure prescribes",
     "A curve made from a seed is the one that seed determines: for Brainpool and the RFC 5639 variant the prime, the coefficients a and b and the generator are exactly those the procedure derives from the seed and from its successors after each rejection (the seed recorded with the curve is the last of that sequence), for ANSI X9.62 the coefficients satisfy the equation with the r hashed from the recorded seed of whatever length, over prime and binary fields, and the NUMS prime, a, b and generator are those of its deterministic search. A new random seed draws every one of its bits. Candidates are rejected by exactly the procedure's conditions (squares, wrong residues, order and embedding degree), never silently kept.",
     ["inputs", "histories", "configurations"],
     "every seed (its bits are symbols), seed lengths 160 and above, field sizes from 6 bits over the boundaries of the hash width (160, 161, 320, 321), histories of up to three rejections at each step",
     "Tests check that some curve results; a wrong hash offset, a missed seed update or a bit cut off changes every curve (or only those of some sizes, or those after a rare rejection) into another valid curve.",
     ["src/exhaustive/brainpool.c", "src/exhaustive/ansi.c", "src/exhaustive/nums.c", "src/exhaustive/seed.c", "src/util/bits.c", "src/gen/seed.c", "src/gen/gens.c"],
     ["brainpool_gen_field/brainpool_gen_equation/brainpool_rfc_gen_equation/brainpool_gen_gens@src/exhaustive/brainpool.c", "ansi_gen_equation@src/exhaustive/ansi.c", "nums_gen_field/nums_gen_a/nums_gen_b/nums_gen_gens@src/exhaustive/nums.c"],
     check="seed_procedures", technique="abstract interpretation of the wired seed stages on symbolic seed bits with SHA-1 uninterpreted; the path conditions and recorded formulas are compared with an independent statement of the procedure by identity testing", level="other",
     note="Formulas are compared at sample points (identity testing), sizes and number of attempts are bounded. Termination of the searches, and PARI's primality and order computations, are not claimed.")

prop("P21", "Bit string operations are exact for every length and content",
     "The bit strings that seeds, hashes and field bits are made of behave as sequences of bits of any length: conversions to and from integers, hexadecimal, binary text, raw bytes and vectors keep the value; shifts, rotations, concatenation, shortening, lengthening, bitwise operations, comparison and hashing act on exactly the bits of the string, never on bytes beyond it, and leave the unused bits of its last byte zero; a copy shares nothing with its source.",
     ["inputs"],
     "every content (bits are symbols; all combinations in windows where the code branches on bits), every length around the byte boundaries, all offsets and amounts in range, positive and negative",
     "Tests use a few strings whose lengths are multiples of eight; errors at the last partial byte or for amounts beyond the length leave those results correct.",
     ["src/util/bits.c", "src/util/bits.h"],
     ["every exported bits_* function@src/util/bits.h"],
     check="bit_strings", technique="abstract interpretation of each exported function on bit-level symbolic strings; the resulting bit terms are compared with the meaning of the operation", level="other",
     note="Lengths up to a few bytes (more in the thorough tier). Copying from an empty string is not claimed (the test suite pins that it leaves the destination unchanged).")

prop("P22", "A time limit bounds each generation step and nothing else",
     "With --timeout=T every generator call of a run, in whichever thread, is made under a timer of exactly T seconds that fires once, in the generating thread, with the signal the program handles; when it fires the step is abandoned by a jump to the point marked for this very step, any number of times in a run. Whatever way a step ends (success, rejection, failure, timeout), its timer is removed before checks, retries or unrolls run and before generation ends: no alarm ever interrupts anything else or jumps into a step that is over, and timers do not pile up. Without the option no timer is created.",
     ["fault_sequences", "schedules", "configurations"],
     "every sequence of verdicts and timeouts of up to five generator calls (six in the thorough tier), an alarm at any of the observed points, several limits, with and without checks, unrolls and retry limits",
     "Tests set no limit that expires; a timer left behind strikes seconds later in an unrelated step, and a jump into a dead one corrupts the stack only then.",
     ["src/exhaustive/exhaustive.c", "src/util/timeout.c", "src/util/timeout.h"],
     ["exhaustive_gen_retry@src/exhaustive/exhaustive.c", "timeout_start/timeout_stop@src/util/timeout.h", "timeout_handle/timeout_init@src/util/timeout.c"],
     check="time_limits", technique="typestate analysis of the timer protocol by abstract interpretation of the generation engine, with the signal handler interpreted at every observed state", level="other",
     note="Alarms are considered at generator, check and unroll calls and at return, not between the instructions that set a timer up; that PARI can be interrupted safely is not claimed. That each thread sets its timer up is part of P17.")
