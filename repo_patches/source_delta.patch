From dc167474fa43c35b3a6da030f63c7143df2afb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 01/25] fix: write the curve separator only once the next curve
 exists

A curve whose generation failed after the first one left a trailing comma in
the printed JSON array.
---
 src/exhaustive/exhaustive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e8870f8..1649cd7 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -476,10 +476,10 @@ int exhaustive_generate(exhaustive_t *setup) {
 		}
 		debug_log_end("Generated new curve");
 
-		output_o(curve);
-		if (i != cfg->count - 1) {
+		if (i != 0) {
 			output_o_separator();
 		}
+		output_o(curve);
 		curve_free(&curve);
 	}
 	output_o_end();
-- 
2.43.0


From 798ce78c1d69f888c0ae82906665315238cbb4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 02/25] fix: separate invalid curves as they are printed

With several threads the separator was left out between the curves printed
after the last one was generated.
---
 src/invalid/invalid.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3679c6b..2350d69 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -197,10 +197,8 @@ static size_t invalid_curves_single(const curve_t *curve, pari_ulong *primes,
 						// copy if pointer already assigned
 						curves[i] = curve_new_copy(invalid);
 					}
+					output_o_separator();
 					output_o(curves[i]);
-					if (ncurves != nprimes - 1) {
-						output_o_separator();
-					}
 					ncurves++;
 					count++;
 				}
@@ -281,10 +279,8 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		pthread_cond_wait(&generated_cond, &state_mutex);
 		for (size_t i = 0; i < nprimes; ++i) {
 			if (old_states[i] != states[i] && states[i] == STATE_GENERATED) {
+				output_o_separator();
 				output_o(local_curves[i]);
-				if (*generated != nprimes) {
-					output_o_separator();
-				}
 				old_states[i] = states[i];
 			}
 		}
@@ -361,7 +357,6 @@ int invalid_do() {
 
 	output_o_begin();
 	output_o(curve);
-	output_o_separator();
 
 	debug_log_start("Starting to generate primes to product over order^2");
 	pari_ulong *primes;
-- 
2.43.0


From fcd990bb440494826cf387849d3a4380bcc08dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 03/25] fix: close the output when no primes are requested for
 invalid curves

---
 src/invalid/invalid.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 2350d69..89b7d81 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -108,10 +108,12 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 		}
 	}
 	/* realloc to smaller size, to tightly fit all generated primes */
-	pari_ulong *new_primes =
-	    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
-	if (new_primes) {
-		*primes = new_primes;
+	if (nprimes) {
+		pari_ulong *new_primes =
+		    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
+		if (new_primes) {
+			*primes = new_primes;
+		}
 	}
 	avma = ltop;
 
@@ -365,6 +367,11 @@ int invalid_do() {
 
 	if (!nprimes) {
 		fprintf(err, "No orders to generate curves for, quitting.");
+		output_o_end();
+		try_free(primes);
+		curve_free(&curve);
+		exhaustive_clear(&original_setup);
+		exhaustive_clear(&invalid_setup);
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 0022d90e52fba588b51f0acf4fa676d949cef866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 04/25] fix: stop when the input ends instead of asking forever

The binary field, order, family and seed inputs did not recognise the end of
the input and were retried without end.
---
 src/exhaustive/ansi.c      |  4 ++++
 src/exhaustive/brainpool.c |  4 ++++
 src/exhaustive/family.c    |  8 ++++++++
 src/gen/field.c            | 18 +++++++++++++++++-
 src/gen/order.c            |  3 +++
 src/io/input.c             |  4 +++-
 src/io/input.h             |  2 +-
 7 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index e369fb2..2345cda 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -58,6 +58,10 @@ GENERATOR(ansi_gen_seed_input) {
 	pari_sp ltop = avma;
 
 	GEN str = input_string("seed:");
+	if (!str) {
+		avma = ltop;
+		return INT_MIN;
+	}
 	const char *cstr = GSTR(str);
 	if (!ansi_seed_valid(cstr)) {
 		fprintf(err, "SEED must be at least 160 bits(40 hex characters).\n");
diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 56c095d..6364077 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -84,6 +84,10 @@ GENERATOR(brainpool_gen_seed_input) {
 	pari_sp ltop = avma;
 
 	GEN str = input_string("seed:");
+	if (!str) {
+		avma = ltop;
+		return INT_MIN;
+	}
 	const char *cstr = GSTR(str);
 	if (!brainpool_seed_valid(cstr)) {
 		fprintf(err, "SEED must be exactly 160 bits(40 hex characters).\n");
diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 08505b6..86fd0e3 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -85,7 +85,15 @@ GENERATOR(family_gen_seed_random) {
 }
 
 GENERATOR(family_gen_seed_input) {
+	pari_sp ltop = avma;
 	GEN inp = input_int("z:", cfg->bits);
+	if (inp == gen_m1) {
+		avma = ltop;
+		return 0;
+	} else if (inp == gen_m2) {
+		avma = ltop;
+		return INT_MIN;
+	}
 	curve->seed = family_new_seed();
 	curve->seed->family.z = inp;
 	curve->seed->seed = bits_from_i(curve->seed->family.z);
diff --git a/src/gen/field.c b/src/gen/field.c
index 3c93880..5770522 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -50,22 +50,38 @@ GENERATOR(field_gen_input) {
 		}
 		case FIELD_BINARY: {
 			GEN m = input_short("m:");
+			if (equalii(m, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (!equalis(m, cfg->bits)) {
 				avma = ltop;
 				return 0;
 			}
 
 			GEN e1 = input_short("e1:");
+			if (equalii(e1, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e2 = input_short("e2:");
+			if (equalii(e2, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e3 = input_short("e3:");
+			if (equalii(e3, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
 				avma = ltop;
 				return 0;
@@ -114,7 +130,7 @@ GENERATOR(field_gen_once) {
 		curve_field = curve;
 		return 1;
 	} else {
-		return 0;
+		return inp;
 	}
 }
 
diff --git a/src/gen/order.c b/src/gen/order.c
index a9d22b2..e9c252f 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -14,6 +14,9 @@ GENERATOR(order_gen_input) {
 	if (gequalm1(ord)) {
 		avma = ltop;
 		return -4;
+	} else if (equalii(ord, gen_m2)) {
+		avma = ltop;
+		return INT_MIN;
 	} else {
 		curve->order = ord;
 		obj_insert_shallow(curve->curve, 1, ord);
diff --git a/src/io/input.c b/src/io/input.c
index 507bd59..1813173 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -80,7 +80,9 @@ GEN input_string(const char *prompt) {
 
 	ssize_t len = getdelim(&line, &n, delim, in);
 	if (len <= 0) {
-		return strtoGENstr("");
+		fprintf(err, "Couldn't read a string.\n");
+		free(line);
+		return NULL;
 	}
 	if (len == 1) {
 		free(line);
diff --git a/src/io/input.h b/src/io/input.h
index a56347a..478169b 100644
--- a/src/io/input.h
+++ b/src/io/input.h
@@ -37,7 +37,7 @@ GEN input_short(const char *prompt);
 /**
  * @brief Input a string.
  * @param prompt
- * @return the string as a t_STR
+ * @return the string as a t_STR, or NULL on error/EOF
  */
 GEN input_string(const char *prompt);
 
-- 
2.43.0


From 1cd5b4a2bbb2214f66f3ca32d2b4a68ff28d0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 05/25] fix: accept -1 and -2 as curve coefficients on input

---
 src/gen/equation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gen/equation.c b/src/gen/equation.c
index 619378f..adaabb5 100644
--- a/src/gen/equation.c
+++ b/src/gen/equation.c
@@ -14,10 +14,10 @@ GENERATOR(a_gen_random) {
 GENERATOR(a_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("a:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
@@ -68,10 +68,10 @@ GENERATOR(b_gen_random) {
 GENERATOR(b_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("b:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
-- 
2.43.0


From 653143245d8eb75f0ee1609347787c0261d6e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:16 +0000
Subject: [PATCH 06/25] fix: pick the twist with the requested order in the CM
 method

The test for composite orders mixed points of one curve with the other, was
fooled by points of low order, and the sextic and quartic twists of curves
with j = 0 and j = 1728 were never considered, so curves of another order
were printed with the requested one.
---
 src/cm/cm_any.c   | 112 +++++++++++++++++++++++++---------------------
 src/cm/cm_any.h   |   3 +-
 src/cm/cm_prime.c |   2 +-
 3 files changed, 64 insertions(+), 53 deletions(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index f948ac1..c788cd8 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -133,7 +133,64 @@ static cm_any_qdisc_t *good_qdisc_brute(GEN order, GEN alpha, GEN beta) {
 }
 */
 
-GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
+/**
+ * @brief Does the curve have the given order?
+ * A point not killed by order rules it out. For a curve with only a quadratic
+ * twist, a point not killed by the order of the twist proves it, everything
+ * else is counted.
+ */
+static bool cm_has_order(GEN e, GEN order, GEN p) {
+	pari_sp ltop = avma;
+	GEN twist_order = subii(mulis(addis(p, 1), 2), order);
+	bool generic =
+	    !gequal0(ell_get_j(e)) && !gequal0(gsubgs(ell_get_j(e), 1728));
+	for (int i = 0; i < 10; ++i) {
+		GEN point = genrand(e);
+		if (!ell_is_inf(ellmul(e, point, order))) {
+			avma = ltop;
+			return false;
+		}
+		if (generic && !ell_is_inf(ellmul(e, point, twist_order))) {
+			avma = ltop;
+			return true;
+		}
+	}
+	bool result = equalii(ellff_get_card(e), order);
+	avma = ltop;
+	return result;
+}
+
+/**
+ * @brief Find the twist of e with the given order.
+ * @return the curve or NULL
+ */
+static GEN cm_twist_of_order(GEN e, GEN order, GEN p) {
+	if (cm_has_order(e, order, p)) {
+		debug_log("Got curve.");
+		return e;
+	}
+	GEN twist = ellinit(elltwist(e, NULL), p, 0);
+	if (cm_has_order(twist, order, p)) {
+		debug_log("Got curve twist.");
+		return twist;
+	}
+	bool j0 = gequal0(ell_get_j(e));
+	if (!j0 && !gequal0(gsubgs(ell_get_j(e), 1728))) {
+		return NULL;
+	}
+	// Curves with j = 0 have sextic twists, those with j = 1728 quartic ones.
+	for (long c = 1; c <= 100; ++c) {
+		GEN v = j0 ? mkvec2(gen_0, stoi(c)) : mkvec2(stoi(c), gen_0);
+		twist = ellinit(v, p, 0);
+		if (glength(twist) != 0 && cm_has_order(twist, order, p)) {
+			debug_log("Got curve twist.");
+			return twist;
+		}
+	}
+	return NULL;
+}
+
+GEN cm_construct_curve(GEN order, GEN d, GEN p) {
 	debug_log("Constructing a curve with N = %Pi, d = %Pi, p = %Pi", order, d,
 	          p);
 	pari_sp ltop = avma;
@@ -157,54 +214,9 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 		pari_TRY { checkell(e); };
 		pari_ENDCATCH{};
 
-		if (ord_prime) {
-			// Easy part, the requested order is prime so
-			// [order]G = 0 iff the curve has exactly order points, for any G on
-			// it. otherwise it is the twist
-			GEN g = genrand(e);
-			if (ell_is_inf(ellmul(e, g, order))) {
-				debug_log("Got curve.");
-				return gerepilecopy(ltop, e);
-			} else {
-				debug_log("Got curve twist.");
-				return gerepilecopy(ltop, ellinit(elltwist(e, NULL), p, 0));
-			}
-		} else {
-			// Hard part, requested order is composite, so it might share a
-			// factor with the order of the twist, which means [order]G = 0
-			// might be true for a point on the twist as well as a point o the
-			// right curve.
-			//
-			// We calculate what the twist order is, then compute gcd of the
-			// orders which leads to the product of the factors that the orders
-			// do not share. By multiplying a random point by this product on
-			// some curve, we can determine that that curve has that number of
-			// points.
-			GEN twist_order = subii(addis(p, 1), subii(order, addis(p, 1)));
-			GEN twist = ellinit(elltwist(e, NULL), p, 0);
-			GEN gcd = gcdii(order, twist_order);
-			GEN orig_mul = divii(order, gcd);
-			GEN twist_mul = divii(twist_order, gcd);
-			while (true) {
-				GEN orig_point = genrand(e);
-				if (ell_is_inf(ellmul(e, orig_point, orig_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, orig_point, twist_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
-				GEN twist_point = genrand(twist);
-				if (ell_is_inf(ellmul(e, twist_point, twist_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, twist_point, orig_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
-			}
+		GEN result = cm_twist_of_order(e, order, p);
+		if (result) {
+			return gerepilecopy(ltop, result);
 		}
 	}
 	avma = ltop;
@@ -255,7 +267,7 @@ GENERATOR(cm_gen_curve_any) {
 	cm_any_qdisc_t min_disc = {0};
 	good_qdisc_minimal(&min_disc, order);
 	debug_log("Got min D = %Pi", min_disc.d);
-	GEN e = cm_construct_curve(order, min_disc.d, min_disc.p, false);
+	GEN e = cm_construct_curve(order, min_disc.d, min_disc.p);
 	if (e == NULL) {
 		fprintf(err, "Could not construct curve.");
 		avma = ltop;
diff --git a/src/cm/cm_any.h b/src/cm/cm_any.h
index a49fd7f..d434695 100644
--- a/src/cm/cm_any.h
+++ b/src/cm/cm_any.h
@@ -18,10 +18,9 @@ typedef struct {
  * @param order
  * @param d
  * @param p
- * @param ord_prime
  * @return
  */
-GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime);
+GEN cm_construct_curve(GEN order, GEN d, GEN p);
 
 /**
  * @brief Construct an elliptic curve given a factor of its order, CM
diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 33d2a12..3904f7c 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -148,7 +148,7 @@ GENERATOR(cm_gen_curve_prime) {
 	qdisc_init(&qdisc, order);
 	do {
 		qdisc_next(&qdisc);
-		e = cm_construct_curve(order, qdisc.D, qdisc.p, true);
+		e = cm_construct_curve(order, qdisc.D, qdisc.p);
 	} while (e == NULL);
 	qdisc_free(&qdisc);
 
-- 
2.43.0


From 3c36ab6aa49ee3bd732fc928c72e06c1d7d35c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:01 +0000
Subject: [PATCH 07/25] fix: do not shrink an empty list of primes to zero
 bytes in the CM method

---
 src/cm/cm_prime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 3904f7c..ff71977 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -45,7 +45,9 @@ static size_t add_primes(GEN r, GEN order, GEN **primes, size_t nprimes) {
 		}
 	}
 
-	*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	if (nprimes) {
+		*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	}
 
 	return nprimes;
 }
-- 
2.43.0


From 201dbf0725ce448471e06a401d8b35a18a768174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 08/25] fix: report a missing binary field through the
 generator

exit() here left the JSON array of the curves open.
---
 src/gen/field.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen/field.c b/src/gen/field.c
index 5770522..d6c1ab8 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -16,7 +16,7 @@ static GEN field_binaryr(unsigned long bits) {
 	} else {
 		fprintf(err,
 		        "Unable to find a suitable binary field. Use an explicit one.");
-		exit(1);
+		return NULL;
 	}
 }
 
@@ -27,7 +27,7 @@ GENERATOR(field_gen_random) {
 			return 1;
 		case FIELD_BINARY:
 			curve->field = field_binaryr(cfg->bits);
-			return 1;
+			return curve->field ? 1 : INT_MIN;
 		default:
 			return INT_MIN; /* NOT REACHABLE */
 	}
-- 
2.43.0


From d8e7fe9ddaf4cb873ac241cdb2f10429ca947846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 09/25] fix: use the table of Koblitz curve orders only for
 binary Koblitz curves

Prime field curves and twists got the order of the binary curve.
---
 src/gen/order.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index e9c252f..65a4317 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -107,7 +107,11 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	GEN order = koblitz_get_order(cfg->bits, itou(curve->a));
+	GEN order = NULL;
+	// The known orders are those of the (untwisted) binary Koblitz curves.
+	if (cfg->field == FIELD_BINARY && cfg->method != METHOD_TWIST) {
+		order = koblitz_get_order(cfg->bits, itou(curve->a));
+	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
 		obj_insert_shallow(curve->curve, 1, curve->order);
-- 
2.43.0


From 38dd46a3c4a5d92588662064289892e7bc3f8161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 10/25] fix: do not derive the twist order from that of a
 previous try

A curve that was regenerated after its order was known, got an order computed
from the one of the curve before.
---
 src/gen/curve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/curve.c b/src/gen/curve.c
index 7ea2fb5..22791d0 100644
--- a/src/gen/curve.c
+++ b/src/gen/curve.c
@@ -39,6 +39,8 @@ GENERATOR(curve_gen_any_twist) {
 	if (result != 1) {
 		return result;
 	} else {
+		// any order left is of the curve of a previous try
+		curve->order = NULL;
 		twist_rand(curve);
 		return 1;
 	}
-- 
2.43.0


From b42c1347d0963a0fb4b2e3cb63e4a218833f5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 11/25] fix: only take a cofactor generator of the requested
 order

On a curve with two generators the multiple could have a smaller order.
---
 src/gen/gens.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index a743e79..c16e36e 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -69,6 +69,7 @@ GENERATOR(gens_gen_cofactor) {
 
 		if (dvdiu(gen_order, cofactor)) {
 			GEN res = diviuexact(gen_order, cofactor);
+			if (!equalii(order, res)) continue;
 			p = point_new();
 			p->point = gcopy(ellmul(curve->curve, gen, utoi(cofactor)));
 			p->order = res;
-- 
2.43.0


From 8b606fab4e9861bf904557690f27c26563922f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 12/25] fix: do not generate the point at infinity as a random
 point

---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 21d0c26..3af4b06 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -12,7 +12,7 @@ GENERATOR(point_gen_random) {
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
-	GEN mul = random_range(gen_0, subgroup->generator->order);
+	GEN mul = random_range(gen_1, subgroup->generator->order);
 	GEN p = ellmul(curve->curve, subgroup->generator->point, mul);
 	point_t *point = point_new();
 	point->point = p;
-- 
2.43.0


From 937dac13312f511ae8970490949e518250d1a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 13/25] fix: fail when the curves could not be written to the
 output

---
 src/ecgen.c     |  4 +++-
 src/io/output.c | 20 +++++++++++++++-----
 src/io/output.h |  3 ++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/ecgen.c b/src/ecgen.c
index 307960e..d513280 100644
--- a/src/ecgen.c
+++ b/src/ecgen.c
@@ -98,7 +98,9 @@ int quit(int status) {
 
 	timeout_quit();
 
-	output_quit();
+	if (!output_quit() && status == EXIT_SUCCESS) {
+		status = EXIT_FAILURE;
+	}
 	input_quit();
 
 	return status;
diff --git a/src/io/output.c b/src/io/output.c
index c4704c1..6960196 100644
--- a/src/io/output.c
+++ b/src/io/output.c
@@ -274,14 +274,24 @@ static bool output_is_std(FILE *stream) {
 	return (stream == stdout || stream == stderr || stream == stdin);
 }
 
-void output_quit(void) {
-	if (!output_is_std(out)) {
-		fclose(out);
+bool output_quit(void) {
+	bool result = true;
+	if (out) {
+		if (ferror(out)) {
+			result = false;
+		}
+		if (!output_is_std(out) && fclose(out)) {
+			result = false;
+		}
+		if (!result) {
+			perror("Failed to write the output.");
+		}
 	}
-	if (!output_is_std(err)) {
+	if (err && !output_is_std(err)) {
 		fclose(err);
 	}
-	if (!output_is_std(verbose)) {
+	if (verbose && !output_is_std(verbose)) {
 		fclose(verbose);  // My name is fClose Verbose!
 	}
+	return result;
 }
diff --git a/src/io/output.h b/src/io/output.h
index f68acfc..43ddc92 100644
--- a/src/io/output.h
+++ b/src/io/output.h
@@ -199,7 +199,8 @@ bool output_init();
 
 /**
  * @brief Deinitialize output.
+ * @return whether everything was written to the output
  */
-void output_quit(void);
+bool output_quit(void);
 
 #endif  // ECGEN_IO_OUTPUT_H
-- 
2.43.0


From 336631436b227cb50f1e90c3f55638ae7dd67920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:45 +0000
Subject: [PATCH 14/25] fix: warn about cofactor and smooth options the seed
 algorithm ignores

---
 src/exhaustive/exhaustive.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 1649cd7..ab6dc7c 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -47,11 +47,13 @@ static void exhaustive_ginit(gen_f *generators) {
 	GET(field);
 
 	if (GET_BOOL(seed_algo)) {
+		// the Brainpool and NUMS procedures always generate prime order curves
+		bool prime_only = cfg->seed_algo != SEED_ANSI;
 		if (GET_BOOL(prime)) {
 			generators[OFFSET_ORDER] = &order_gen_prime;
-		} else if (GET_BOOL(cofactor)) {
+		} else if (!prime_only && GET_BOOL(cofactor)) {
 			generators[OFFSET_ORDER] = &order_gen_cofactor;
-		} else if (GET_BOOL(smooth)) {
+		} else if (!prime_only && GET_BOOL(smooth)) {
 			generators[OFFSET_ORDER] = &order_gen_smooth;
 		} else {
 			generators[OFFSET_ORDER] = &order_gen_any;
@@ -59,7 +61,7 @@ static void exhaustive_ginit(gen_f *generators) {
 
 		if (GET_BOOL(unique)) {
 			generators[OFFSET_GENERATORS] = &gens_gen_one;
-		} else if (GET_BOOL(cofactor)) {
+		} else if (!prime_only && GET_BOOL(cofactor)) {
 			generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
 		} else {
 			generators[OFFSET_GENERATORS] = &gens_gen_any;
-- 
2.43.0


From b718d2b1c0dd8e157c7706f5221feef4f7634eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 15/25] fix: honour --points for curves of prime order in the
 CM method

---
 src/cm/cm.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 9dffc1d..0a76483 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -68,7 +68,6 @@ static void cm_ginit(gen_f *generators, bool prime) {
 		generators[OFFSET_B] = &gen_skip;
 		if (prime) {
 			generators[OFFSET_CURVE] = &cm_gen_curve_prime;
-			generators[OFFSET_POINTS] = &points_gen_prime;
 		} else {
 			generators[OFFSET_CURVE] = &cm_gen_curve_any;
 		}
-- 
2.43.0


From b2945d3b87fa14e6482eb41c154fea13b87cf5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:43 +0000
Subject: [PATCH 16/25] fix: generate a point for every prime dividing the
 order of a generator

---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 3af4b06..833a3f1 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -118,7 +118,7 @@ GENERATOR(points_gen_trial) {
 				if (orders_per_gen[i] == gen_0) {
 					orders_per_gen[i] = gtovec(num);
 				} else {
-					vec_append(orders_per_gen[i], num);
+					orders_per_gen[i] = vec_append(orders_per_gen[i], num);
 				}
 			}
 		}
-- 
2.43.0


From 6ac2bd6388817e7dad43db1d5cc4812c6beb5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:17 +0000
Subject: [PATCH 17/25] fix: anomalous prime has the requested number of bits

---
 src/cm/anomalous.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index 70df8e4..edc136d 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -42,7 +42,8 @@ static GEN anomalous_prime(size_t i, unsigned long bits) {
 
 	pari_sp ltop = avma;
 	GEN last = divis(addis(D, 1), 4);
-	GEN lower = divii(subii(int2n(bits - 1), last), D);
+	// ceil, so that p has at least the requested number of bits
+	GEN lower = divii(addii(subii(int2n(bits - 1), last), subis(D, 1)), D);
 	GEN upper = divii(subii(int2n(bits), last), D);
 
 	GEN lower_bound = gceil(
-- 
2.43.0


From 7a4f9e5bbf18580734d212bffe00d8cd6009da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 18/25] fix: add the missing polynomial for binary fields of
 degree 1060

---
 src/math/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/poly.c b/src/math/poly.c
index 0a042c4..5bc2fe1 100644
--- a/src/math/poly.c
+++ b/src/math/poly.c
@@ -963,7 +963,7 @@ static polynomial_t ansi_trinomials[] = {
     {1028, 119}, {1029, 98},  {1030, 93},  {1031, 68},  {1033, 108},
     {1034, 75},  {1036, 411}, {1039, 21},  {1041, 412}, {1042, 439},
     {1044, 41},  {1047, 10},  {1049, 141}, {1050, 159}, {1052, 291},
-    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1062, 49},
+    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1060, 439}, {1062, 49},
     {1063, 168}, {1065, 463}, {1071, 7},   {1078, 361}, {1079, 230},
     {1081, 24},  {1082, 407}, {1084, 189}, {1085, 62},  {1086, 189},
     {1087, 112}, {1089, 91},  {1090, 79},  {1092, 23},  {1094, 57},
-- 
2.43.0


From 164689b20b3c1fcc18851316024f9dd29cbcc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:52 +0000
Subject: [PATCH 19/25] fix: embedding degree of an order that is a multiple of
 the characteristic

---
 src/gen/gens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index c16e36e..09db08a 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -105,7 +105,7 @@ CHECK(gens_check_anomalous) {
 }
 
 GEN gens_get_embedding(GEN prime, GEN generator_order) {
-	if (gequal(prime, generator_order)) {
+	if (dvdii(generator_order, prime)) {
 		return stoi(0);
 	}
 	return znorder(mkintmod(prime, generator_order), NULL);
-- 
2.43.0


From e439fad3c25dbd864822fd0a0fd01549b58816d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:42 +0000
Subject: [PATCH 20/25] fix: refuse an order with trailing or leading garbage

---
 src/io/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index d98a0c0..1854975 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -100,7 +100,7 @@ static regex_t re_cm_order;
 bool cli_init() {
 	int error = regcomp(
 	    &re_cm_order,
-	    "((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*",
+	    "^((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*$",
 	    REG_EXTENDED);
 	if (error) {
 		size_t length = regerror(error, &re_cm_order, NULL, 0);
-- 
2.43.0


From 44686c70a15f95594ab820f219841bea203bd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:34 +0000
Subject: [PATCH 21/25] fix: pick another field and seed when the ANSI seed
 yields r = 0

---
 src/exhaustive/ansi.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 2345cda..3d49d2a 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -128,6 +128,13 @@ static GENERATOR(ansi_gen_equation_fp) {
 	curve->seed->ansi.r = r;
 
 	GEN r_inv = Fp_invsafe(r, curve->field);
+	if (!r_inv) {
+		bits_free(&c0);
+		bits_free(&W0);
+		bits_free(&W);
+		avma = ltop;
+		return -3;
+	}
 	GEN a;
 	GEN b2;
 	do {
-- 
2.43.0


From 9ad200dd767a35726bb04a26a8f94bbe6fe072c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:52 +0000
Subject: [PATCH 22/25] fix: record the ANSI coefficients as elements of the
 field

---
 src/exhaustive/ansi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 3d49d2a..f1cb64e 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -143,8 +143,8 @@ static GENERATOR(ansi_gen_equation_fp) {
 	} while (!Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
 
-	curve->a = a;
-	curve->b = b;
+	curve->a = Fp_to_mod(a, curve->field);
+	curve->b = Fp_to_mod(b, curve->field);
 
 	gerepileall(ltop, 3, &curve->seed->ansi.r, &curve->a, &curve->b);
 	bits_free(&c0);
-- 
2.43.0


From 99a0500d62d684c33cd4952e37cd78791c8dcde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:39 +0000
Subject: [PATCH 23/25] fix: refuse anomalous primes of fewer than 6 bits
 instead of returning 41

---
 src/cm/anomalous.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index edc136d..95929a4 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -44,7 +44,7 @@ static GEN anomalous_prime(size_t i, unsigned long bits) {
 	GEN last = divis(addis(D, 1), 4);
 	// ceil, so that p has at least the requested number of bits
 	GEN lower = divii(addii(subii(int2n(bits - 1), last), subis(D, 1)), D);
-	GEN upper = divii(subii(int2n(bits), last), D);
+	GEN upper = truedivii(subii(int2n(bits), last), D);
 
 	GEN lower_bound = gceil(
 	    gdiv(gsub(gsqrt(addis(mulis(lower, 4), 1), BIGDEFAULTPREC * 2), gen_1),
-- 
2.43.0


From 05a2059e68ce185db90fc09c2f04509a6753eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:32 +0000
Subject: [PATCH 24/25] fix: draw all bits of the last byte of a random bit
 string

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 0d60c26..cb238d5 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -20,7 +20,7 @@ bits_t *bits_new_rand(size_t bit_len) {
 	bits_t *result = bits_new(bit_len);
 	for (size_t i = 0; i < result->allocated; ++i) {
 		if (i == result->allocated - 1) {
-			size_t last_bits = bit_len % 8;
+			size_t last_bits = bit_len % 8 ? bit_len % 8 : 8;
 			result->bits[i] = (unsigned char)random_bits(last_bits)
 			                  << (8 - last_bits);
 		} else {
-- 
2.43.0


From bf461925addbdc047a37b2e079374248f300a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:31 +0000
Subject: [PATCH 25/25] fix: rotate bit strings to the right by any amount

---
 src/util/bits.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index cb238d5..c5ce0f6 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -406,7 +406,8 @@ void bits_shiftrz(bits_t *bits, long amount) {
 		} else if (amount > 0) {
 			new_pos = (i + amount) % bits->bitlen;
 		} else if (amount < 0) {
-			long mod_amount = amount % bits->bitlen;
+			long bitlen = (long)bits->bitlen;
+			long mod_amount = amount % bitlen + bitlen;
 			new_pos = (i + mod_amount) % bits->bitlen;
 		}
 		new_bit = (unsigned char)GET_BIT(original_bits, new_pos);
-- 
2.43.0

