#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

prop("A01", "Field arithmetic is exact and canonical for every odd 32-bit prime",
 "For every odd prime modulus p up to 4294967291, initialisation from any 64-bit integer, addition, subtraction, multiplication, multiply-add and inversion of field elements return the exact result modulo p. Every result is the unique balanced representative, i.e. lies in [-(p-1)/2, (p-1)/2]. Inverting any non-zero element x gives y with x*y == 1.",
 ["inputs"], "all odd primes p <= 4294967291 and all operands in the balanced range (all int64 for initialisation)",
 "The arithmetic test samples a handful of random triples for one modulus; the floating-point quotient estimate can only go wrong for particular operands near multiples of p and for moduli near 2^31/2^32.",
 ["src/spasm_ZZp.c", "src/spasm.h"],
 [("floating-point quotient estimate followed by one normalisation step", "src/spasm_ZZp.c: spasm_ZZp_mul, spasm_ZZp_axpy"), ("extended Euclid inverse", "src/spasm_ZZp.c: gcdext")],
 ["spasm_field_init", "spasm_ZZp_init/add/sub/mul/axpy/inverse"])

prop("A02", "SHA-256 digests are correct for any message and any chunking",
 "Hashing a byte string yields its FIPS 180-4 SHA-256 digest, for every length and however the bytes are split into successive update calls. Two hash computations that are interleaved do not disturb each other.",
 ["inputs", "histories"], "all byte strings and all partitions of them into (possibly empty) update calls",
 "One test prints the digest of a few fixed strings; block-boundary and padding behaviour depends on length mod 64 and on the split points.",
 ["src/sha256.c"], [("block buffering and padding", "src/sha256.c: spasm_SHA256_update, spasm_SHA256_final")],
 ["spasm_SHA256_init/update/final"])

prop("A03", "The random generator is a deterministic, documented, in-range stream",
 "Two generators seeded with the same (seed, prime, sequence number) produce the same stream, and different seeds, primes or sequence numbers produce different streams. The 32-bit output is SHA-256 in counter mode over (seed, prime, counter, sequence), and field elements are obtained from it by rejection sampling on just enough bits, so every produced element is a canonical field element. Interleaving several generators does not change any of their streams.",
 ["inputs", "histories"], "all 32-byte seeds, 64-bit simple seeds, odd 32-bit primes, sequence numbers and interleavings of draws",
 "The test compares five outputs for one seed and one prime; certificates depend on prover and verifier agreeing on arbitrarily long streams for every prime.",
 ["src/spasm_prng.c"], [("counter-mode rehash", "src/spasm_prng.c: rehash"), ("rejection sampling", "src/spasm_prng.c: spasm_prng_ZZp")],
 ["spasm_prng_seed", "spasm_prng_seed_simple", "spasm_prng_u32", "spasm_prng_ZZp"])

prop("B01", "Assembling a matrix from entries sums duplicates and stores no zero",
 "Building a compressed matrix from any sequence of (row, column, value) entries gives exactly the matrix whose (i,j) coefficient is the sum modulo p of all values added at (i,j). The result has well-formed row pointers, stores each position at most once, stores no zero coefficient, has every coefficient in canonical form, and its dimensions are the declared ones enlarged to contain every entry. Pattern-only matrices keep exactly the set of positions.",
 ["inputs", "histories"], "all sequences of entries (in any order, with duplicates and cancellations), declared dimensions and initial capacities",
 "Test matrices come from files without duplicates or cancelling entries, so the summing, zero-removal and growth paths are never reached.",
 ["src/spasm_triplet.c", "src/spasm_util.c"],
 [("bucket sort by row", "src/spasm_triplet.c: spasm_compress"), ("duplicate summing", "src/spasm_triplet.c: deduplicate"), ("zero removal", "src/spasm_triplet.c: remove_explicit_zeroes"), ("geometric growth", "src/spasm_triplet.c: spasm_add_entry")],
 ["spasm_add_entry", "spasm_compress"])

prop("B02", "Transpose, permute and submatrix are exact re-indexings",
 "Transposing, permuting rows/columns and extracting a rectangular window of any matrix yield exactly the matrix with the correspondingly re-indexed coefficients (or just the pattern when values are not requested), with well-formed storage and the right dimensions. Vector permutation, its inverse, permutation inversion and in-range permutation obey their definitions, a random permutation is always a permutation, and the inputs are left unchanged.",
 ["inputs"], "all matrices (including empty rows/columns, unsorted rows, pattern-only), permutations (including identity) and windows",
 "Tests use sorted-by-construction matrices from files, one window and identity-like permutations.",
 ["src/spasm_transpose.c", "src/spasm_permutation.c", "src/spasm_submatrix.c"],
 [("counting-sort transpose", "src/spasm_transpose.c: spasm_transpose"), ("row gather and column relabel", "src/spasm_permutation.c: spasm_permute"), ("window filter", "src/spasm_submatrix.c: spasm_submatrix")],
 ["spasm_transpose", "spasm_permute", "spasm_submatrix", "spasm_pvec", "spasm_ipvec", "spasm_pinv", "spasm_random_permutation", "spasm_range_pvec"])

prop("B03", "Any history of matrix-container operations preserves the matrix",
 "After any sequence of entry additions, capacity changes, trimming, growing the dimensions, transpositions, compressions, permutations, window extractions and save/load cycles, the container holds exactly the mathematical matrix that the sequence defines. No operation reads or writes outside the storage it owns and no stored coefficient is lost when capacity grows or is trimmed.",
 ["histories"], "all operation sequences on triplet and compressed containers",
 "Each test performs one fixed operation on a freshly loaded matrix; interactions between growth, trimming, transposition and resizing are never exercised.",
 ["src/spasm_util.c", "src/spasm_triplet.c", "src/spasm_transpose.c", "src/spasm_permutation.c", "src/spasm_submatrix.c"],
 [("capacity management", "src/spasm_util.c: spasm_csr_realloc, spasm_triplet_realloc, spasm_csr_resize")],
 ["spasm_csr_realloc", "spasm_csr_resize", "spasm_triplet_realloc", "spasm_triplet_transpose", "spasm_nnz"])

prop("B04", "Saving then loading a matrix gives back the same matrix",
 "Writing any matrix (either container, with or without values) and reading it back modulo the same prime yields the same dimensions and the same coefficients. Any valid SMS or MatrixMarket 'matrix coordinate integer general' file, including one with comments, duplicate entries, arbitrary 64-bit values or no entries, is read as the matrix it denotes reduced modulo p. When a digest is requested it is the SHA-256 of all the bytes of the file.",
 ["inputs"], "all matrices, moduli and valid SMS / MatrixMarket files",
 "The tests load fixed small SMS files; MatrixMarket input, out-of-range values, negative values and empty matrices are never loaded.",
 ["src/spasm_io.c", "src/spasm_triplet.c"],
 [("format autodetection and parsing", "src/spasm_io.c: spasm_triplet_load"), ("SMS writers", "src/spasm_io.c: spasm_csr_save, spasm_triplet_save")],
 ["spasm_triplet_load", "spasm_triplet_save", "spasm_csr_save"])

prop("B05", "Any input file is either rejected cleanly or loaded as a valid matrix",
 "For every byte stream, loading a matrix either terminates the program with an error message and a non-zero exit status, or returns a well-formed matrix whose entries are all inside its dimensions. A file whose lines are all unmistakable is loaded as exactly the matrix it describes, and refused when it is truncated or has an entry with an invalid position. It never crashes, never touches memory it does not own and never loops forever. The same holds for loading a rank certificate, which reports failure on truncated or non-numeric input.",
 ["inputs"], "all byte streams offered as matrix files or certificate files",
 "The tests only load well-formed files.",
 ["src/spasm_io.c", "src/spasm_certificate.c"],
 [("line reader and validation", "src/spasm_io.c: read_line, validate_mm_header, spasm_triplet_load"), ("certificate reader", "src/spasm_certificate.c: spasm_rank_certificate_load")],
 ["spasm_triplet_load", "spasm_rank_certificate_load", "process exit status"])

prop("B06", "Exported images are well-formed and show where the non-zeros are",
 "For every matrix and requested size, the exported image is a well-formed PBM/PGM/PPM file whose dimensions are the requested ones capped to those of the matrix. In the black-and-white image a pixel is set exactly when the rectangle of the matrix it stands for contains an entry, and in the grey and colour images exactly the pixels containing entries are darker than background. The background colour of a pixel lying in a single block of the decomposition tells the kind of block it lies in.",
 ["inputs"], "all matrices, requested image sizes and the three image modes (colour with the Dulmage-Mendelsohn decomposition of the matrix)",
 "No test exports an image.",
 ["src/spasm_io.c", "tools/bitmap.c"],
 [("bucketing of entries into pixels", "src/spasm_io.c: spasm_save_pnm")], ["spasm_save_pnm"])

prop("C01", "Sparse row scatter and matrix-vector products are exact",
 "Adding a multiple of a matrix row to a dense vector, and adding x*A or A*x to a dense vector y, give the exact result modulo p in canonical form, and modify nothing else.",
 ["inputs"], "all matrices, moduli and canonical dense vectors",
 "One fixed matrix and one modulus are compared with a stored output.",
 ["src/spasm_scatter.c", "src/spasm_spmv.c"],
 [("accumulate with multiply-add", "src/spasm_scatter.c: spasm_scatter; src/spasm_spmv.c: spasm_xApy, spasm_Axpy")],
 ["spasm_scatter", "spasm_xApy", "spasm_Axpy"])

prop("C02", "Dense triangular solves return a solution exactly when there is one",
 "Solving x*L = b with a (row-permuted) lower-triangular or trapezoidal L with non-zero diagonal always returns x, supported on the pivotal rows, with x*L = b. Solving x*U = b with a (column-permuted) unit upper-triangular or trapezoidal U reports success exactly when b is in the row space of U, and then x*U = b.",
 ["inputs"], "all permuted triangular/trapezoidal matrices, moduli, right-hand sides inside and outside the row space, and permutations (including none)",
 "Two fixed matrices in natural order with one right-hand side each.",
 ["src/spasm_triangular.c"],
 [("column-by-column elimination", "src/spasm_triangular.c: spasm_dense_back_solve, spasm_dense_forward_solve")],
 ["spasm_dense_back_solve", "spasm_dense_forward_solve"])

prop("C03", "Sparse triangular solve is exact and its pattern is sound",
 "For any matrix with unit pivots that is triangular up to permutation and any sparse right-hand side row, the sparse solve returns coefficients x_b on pivotal columns and a remainder x_a on the others such that x_b*U + x_a equals that row. The returned pattern lists each reachable column exactly once, in an order in which eliminations can be carried out, contains every non-zero of the result, and equals the set reachable along alternating paths; the shared workspace is left reusable for the next call.",
 ["inputs", "histories"], "all permuted unit-triangular matrices, right-hand sides and sequences of solves sharing a workspace",
 "Tests use a few fixed matrices and check only numeric residuals for consecutive rows.",
 ["src/spasm_triangular.c", "src/spasm_reach.c", "src/spasm_scatter.c"],
 [("Gilbert-Peierls solve", "src/spasm_triangular.c: spasm_sparse_triangular_solve"), ("depth-first reachability", "src/spasm_reach.c: spasm_dfs, spasm_reach")],
 ["spasm_reach", "spasm_dfs", "spasm_sparse_triangular_solve"], state=[("xj", "pattern, stack and marks workspace shared by successive calls", "src/spasm_reach.c")])

prop("C04", "Structural pivots always form a unit triangular system of original rows",
 "The pivot search returns a row ordering that is a permutation with the pivotal rows first, and a set of pivots on distinct rows and distinct columns. The pivotal rows, scaled to unit pivots and stored pivot-first in that order, form an upper-triangular system up to column permutation and are multiples of the corresponding input rows, and the elimination coefficients recorded for them reproduce the input rows. A non-zero matrix always yields at least one pivot.",
 ["inputs", "configurations", "schedules"], "all value-carrying matrices, with and without the greedy search, with and without elimination coefficients, starting from an empty or a partially filled echelon form, for any number of threads",
 "Tests check consequences on fixed matrices; whether the greedy search ever selects a cycle depends on the matrix and on the interleaving of the threads.",
 ["src/spasm_pivots.c", "src/spasm_reach.c"],
 [("Faugere-Lachartre selection", "src/spasm_pivots.c: spasm_find_FL_pivots, spasm_find_FL_column_pivots"), ("transactional greedy search", "src/spasm_pivots.c: spasm_find_cycle_free_pivots"), ("topological sort", "src/spasm_pivots.c: spasm_pivots_reorder")],
 ["spasm_pivots_extract_structural"])

prop("C05", "The sparse Schur complement is the exact remainder of each row",
 "Every row of the sparse Schur complement equals the corresponding input row minus a combination of the known echelonized rows, has no entry on a pivotal column, no stored zero and no duplicate, and each requested row appears exactly once with its origin correctly reported. When elimination coefficients are requested, they are exactly the coefficients of that combination, recorded under the original row numbers.",
 ["inputs", "configurations", "schedules"], "all matrices, pivot sets, subsets of rows, density estimates (given, wrong or unknown) and thread counts/interleavings",
 "The test only checks the absence of entries under pivots; the values of the complement and of the coefficients are not compared.",
 ["src/spasm_schur.c", "src/spasm_triangular.c"],
 [("per-row elimination and reserved slots in the output", "src/spasm_schur.c: spasm_schur")], ["spasm_schur"],
 state=[("snz/Sn/lnz/writing", "shared output cursors and number of threads currently writing", "src/spasm_schur.c")])

prop("C06", "Dense and randomized Schur complements agree with exact elimination",
 "The dense Schur complement holds, row by row and in the chosen machine representation, exactly the remainder of the requested rows on the non-pivotal columns, with the column map and row origins correctly reported and the elimination coefficients exact. Each row of the randomized complement is the remainder of some linear combination of the requested rows, and every remainder direction can appear. The estimated density always lies in [0, 1].",
 ["inputs", "configurations", "schedules"], "all matrices, pivot sets, row subsets, block sizes, weights, machine representations and thread counts/interleavings",
 "The dense version is tested on fixed matrices at one size; the randomized version is not tested on its own.",
 ["src/spasm_schur.c", "src/spasm_ffpack.cpp"],
 [("dense gather", "src/spasm_schur.c: spasm_schur_dense, gather, row_pointer"), ("random combinations", "src/spasm_schur.c: spasm_schur_dense_randomized"), ("sampling", "src/spasm_schur.c: spasm_schur_estimate_density")],
 ["spasm_schur_dense", "spasm_schur_dense_randomized", "spasm_schur_estimate_density"])

prop("C07", "Dense echelon form and dense LU are correct for every modulus and type",
 "For every dense matrix and every modulus, with the machine representation the library selects for it, the dense reduced echelon form has the right rank, a column map that is a permutation, and describes a reduced basis of the row space with canonical coefficients. The dense LU factorization has the right rank, row and column maps that are permutations, and its factors multiply back to the input. Reading and writing individual coefficients in each representation round-trips.",
 ["inputs", "configurations"], "all dense matrices up to moderate size and all odd 32-bit primes, in particular those at the limits of the float, double and 64-bit integer representations",
 "Six moduli are tested; none is at the boundaries between representations.",
 ["src/spasm_ffpack.cpp"],
 [("choice of representation", "src/spasm_ffpack.cpp: spasm_datatype_choose"), ("FFPACK wrappers", "src/spasm_ffpack.cpp: ffpack_rref, ffpack_LU")],
 ["spasm_ffpack_rref", "spasm_ffpack_LU", "spasm_datatype_*"])

prop("D01", "Echelonization returns a basis of the row space, whatever the strategy",
 "For every matrix and every setting of the options in which a finishing method is available, echelonization terminates and returns rows that span exactly the row space of the input, so that their number is the rank. The rows are in echelon form up to a column permutation: each starts with its pivot equal to 1, pivots are on distinct columns correctly located by the returned map, and no row has an entry on the pivot column of an earlier row. The input matrix is not modified.",
 ["inputs", "configurations"], "all matrices (any shape, rank, density, modulus) and all option settings (greedy search, dense, tall-and-skinny and GPLU modes, round limits, thresholds, block sizes, weights)",
 "Tests run default options on about thirty small matrices with six moduli; most combinations of strategy switches, multi-round runs, multi-block dense runs and low-rank restarts are never reached.",
 ["src/spasm_echelonize.c", "src/spasm_pivots.c", "src/spasm_schur.c", "src/spasm_ffpack.cpp"],
 [("rounds of structural pivots + Schur complement", "src/spasm_echelonize.c: spasm_echelonize"), ("finishing strategies", "src/spasm_echelonize.c: echelonize_GPLU, echelonize_dense, echelonize_dense_lowrank"), ("completion test", "src/spasm_echelonize.c: spasm_echelonize_test_completion")],
 ["spasm_echelonize"], state=[("fact->U, fact->qinv", "echelon form built so far and pivot locations", "src/spasm.h: struct spasm_lu")])

prop("D02", "A complete factorization satisfies A = L*U with triangular factors",
 "When a complete factorization is requested, the product of the returned factors equals the input matrix; when only the factor for pivotal rows is requested, the product equals the input on those rows. The left factor is lower triangular with non-zero diagonal once its rows are ordered by the reported pivotal rows, which are distinct, and the right factor is an echelonized basis of the row space; the reported rank is the rank of the input.",
 ["inputs", "configurations"], "all matrices, moduli and option settings with the left factor requested (complete or not)",
 "Only default thresholds are tested on fixed matrices, so the sparse-round, dense multi-block and GPLU bookkeeping of the left factor is combined in very few ways.",
 ["src/spasm_echelonize.c", "src/spasm_schur.c", "src/spasm_pivots.c"],
 [("recording of elimination coefficients", "src/spasm_echelonize.c: echelonize_GPLU, update_fact_after_LU; src/spasm_schur.c; src/spasm_pivots.c")],
 ["spasm_echelonize with L/complete"], state=[("fact->L, fact->p", "left factor and pivotal rows", "src/spasm.h: struct spasm_lu")])

prop("D03", "The reduced echelon form is reduced and spans the same row space",
 "From any echelonization, the reduced form has as many rows, spans the same row space, starts each row with a pivot equal to 1, has no other entry on any pivotal column, stores no zero, and reports pivot locations that match (and absence of pivot elsewhere). It is therefore the unique reduced basis for those pivot columns.",
 ["inputs", "configurations", "schedules"], "all echelonized matrices (from any strategy), moduli and thread counts/interleavings",
 "Fixed matrices with default options.",
 ["src/spasm_rref.c", "src/spasm_triangular.c"],
 [("per-row back elimination with private pivot map", "src/spasm_rref.c: spasm_rref")], ["spasm_rref"])

prop("D04", "The kernel basis is exactly a basis of the kernel",
 "For every matrix, the rows returned as kernel basis are linearly independent, each is orthogonal to every row of the matrix, and there are exactly (number of columns - rank) of them. The same holds for the basis computed from the reduced echelon form, for every modulus, and all coefficients are canonical.",
 ["inputs", "configurations", "schedules"], "all matrices, moduli, echelonization strategies and thread counts/interleavings",
 "The test checks membership of the vectors but not independence or count, and never calls the variant working from the reduced form.",
 ["src/spasm_kernel.c"],
 [("one triangular solve per non-pivotal column", "src/spasm_kernel.c: spasm_kernel"), ("read-off from the reduced form", "src/spasm_kernel.c: spasm_kernel_from_rref")],
 ["spasm_kernel", "spasm_kernel_from_rref"])

prop("D05", "Linear systems: solvability is reported exactly and solutions check",
 "Given a factorization of A, solving x*A = b reports success exactly when b is in the row space of A, and then the returned x satisfies x*A = b. Solving for a whole matrix of right-hand sides gives the same answer row by row, with each row's solvability reported on its own row, and each solution is supported on the pivotal rows.",
 ["inputs", "configurations", "schedules"], "all matrices, moduli, factorization options, consistent and inconsistent right-hand sides, and thread counts/interleavings",
 "Tests solve for a right-hand side in the row space and (only for wide matrices) one random one; near-consistent right-hand sides and mixtures are not tried.",
 ["src/spasm_solve.c", "src/spasm_triangular.c"],
 [("forward then back substitution", "src/spasm_solve.c: spasm_solve"), ("parallel multi-RHS", "src/spasm_solve.c: spasm_gesv")],
 ["spasm_solve", "spasm_gesv"])

prop("D06", "The factorization checker accepts valid and rejects wrong factorizations",
 "Checking a factorization produced by the library against its matrix succeeds for every seed. If any row of the product of the factors that corresponds to a pivotal row differs from the matrix (because a factor or the matrix was altered), checking with random seeds fails except with probability about 1/p per seed.",
 ["inputs"], "all factorizations, seeds, and alterations of the factors or of the matrix on pivotal rows",
 "Tests only exercise acceptance of correct factorizations.",
 ["src/spasm_certificate.c"],
 [("Freivalds-style check", "src/spasm_certificate.c: spasm_factorization_verify")], ["spasm_factorization_verify"])

prop("D07", "Every genuine rank certificate verifies, also after save and load",
 "For every matrix and factorization, the rank certificate created for it carries the true rank and is accepted by the verifier. Saving it to a file and loading it back gives an identical certificate, which is accepted as well.",
 ["inputs", "configurations"], "all matrices, moduli, digests and factorization options",
 "Creation and verification are tested in memory on fixed matrices; saving and loading are never tested.",
 ["src/spasm_certificate.c", "src/spasm_prng.c", "src/spasm_solve.c"],
 [("prover", "src/spasm_certificate.c: spasm_certificate_rank_create"), ("verifier", "src/spasm_certificate.c: spasm_certificate_rank_verify"), ("serialisation", "src/spasm_certificate.c: spasm_rank_certificate_save/load")],
 ["spasm_certificate_rank_create/verify", "spasm_rank_certificate_save/load"])

prop("D08", "Invalid rank certificates are rejected",
 "The verifier accepts a certificate exactly when it satisfies the published protocol for the given matrix and digest: matching digest and prime, in-range row and column indices, the challenge reproduced on the claimed columns, and the claimed combination of all rows vanishing. In particular certificates with a wrong rank, another matrix, another digest or prime, out-of-range indices or altered values are rejected except with negligible probability for large p, without touching memory out of bounds.",
 ["inputs"], "all certificates obtained by altering genuine ones (any field), certificates of other matrices, and arbitrary well-typed certificates",
 "No test offers an invalid certificate to the verifier.",
 ["src/spasm_certificate.c"],
 [("verifier", "src/spasm_certificate.c: spasm_certificate_rank_verify")], ["spasm_certificate_rank_verify"])

prop("E01", "The matching is valid and maximum",
 "For every sparse pattern, the computed matching pairs rows and columns one-to-one along entries of the matrix, the two maps are inverse of each other with unmatched marked, the returned size is the number of pairs, and no larger matching exists. Restricting a matching to a window or transporting it through row/column permutations gives the corresponding matching.",
 ["inputs"], "all sparse patterns (rectangular, with empty rows/columns, pattern-only), permutations and windows",
 "Nine fixed matrices; maximality is not compared with an independent algorithm.",
 ["src/spasm_matching.c"],
 [("augmenting paths with lookahead", "src/spasm_matching.c: spasm_augmenting_path, spasm_lookahead, spasm_augment_matching")],
 ["spasm_maximum_matching", "spasm_permute_row_matching", "spasm_permute_column_matching", "spasm_submatching"])

prop("E02", "The coarse Dulmage-Mendelsohn decomposition is the canonical one",
 "For every sparse pattern, the returned row and column orders are permutations, and their coarse blocks are exactly the canonical horizontal, square and vertical sets: those reachable by alternating paths from unmatched columns, those reachable from unmatched rows, and the rest, with unmatched rows and columns in their own groups. Consequently the permuted matrix has its prescribed zero blocks, and the sizes give the structural rank.",
 ["inputs"], "all sparse patterns",
 "The test checks some zero blocks on nine fixed matrices.",
 ["src/spasm_dm.c", "src/spasm_matching.c"],
 [("two breadth-first searches from unmatched nodes", "src/spasm_dm.c: bfs, collect_unmatched, collect_matched, spasm_dulmage_mendelsohn")],
 ["spasm_dulmage_mendelsohn"])

prop("E03", "Fine decomposition blocks are the strong components, in triangular order",
 "For every square pattern seen as a directed graph, the strongly connected components returned are exactly the classes of mutually reachable vertices, ordered so that the permuted matrix is block upper triangular. Inside a Dulmage-Mendelsohn decomposition the fine blocks partition the square part, are square with a non-zero diagonal, are irreducible and in block triangular order, and block boundaries cover all rows and columns.",
 ["inputs"], "all square patterns / all sparse patterns with a non-empty square part",
 "Nine fixed matrices; components are not compared with an independent algorithm.",
 ["src/spasm_scc.c", "src/spasm_dm.c"],
 [("iterative Tarjan search", "src/spasm_scc.c: spasm_strongly_connected_components"), ("fine blocks", "src/spasm_dm.c: spasm_dulmage_mendelsohn")],
 ["spasm_strongly_connected_components", "spasm_dulmage_mendelsohn"])

prop("F01", "Results are correct under every thread count and interleaving",
 "For any number of threads and any interleaving of their steps, every parallel computation (pivot search, sparse and dense Schur complements, echelonization, factorization, reduced form, kernel, multiple right-hand sides) terminates and returns a result that satisfies its sequential specification. In particular the rank, solvability answers and kernel dimension do not depend on the number of threads or on scheduling.",
 ["schedules", "inputs"], "all interleavings (at the granularity of single memory accesses) of 1 to 8 threads, all matrices and options",
 "Tests run with two threads on whatever interleavings the machine produces; most test matrices are too small for several threads to ever work at the same time.",
 ["src/spasm_pivots.c", "src/spasm_schur.c", "src/spasm_rref.c", "src/spasm_kernel.c", "src/spasm_solve.c", "src/spasm_echelonize.c"],
 [("transactions on the pivot journal", "src/spasm_pivots.c: spasm_find_cycle_free_pivots"), ("reserve-then-write with growth under a critical section", "src/spasm_schur.c, src/spasm_rref.c, src/spasm_kernel.c"), ("atomic cursors", "src/spasm_schur.c: spasm_schur_dense; src/spasm_solve.c: spasm_gesv")],
 ["all OpenMP-parallel entry points"])

prop("F02", "Running out of memory is reported, never turned into a wrong result",
 "If any single memory allocation made by the library fails, the program terminates with an error message and a non-zero exit status, or the operation completes with a correct result. It never crashes on a null pointer and never returns a wrong result.",
 ["fault_sequences"], "every allocation point of every operation, failing alone or together with all later ones",
 "No test injects allocation failures.",
 ["src/spasm_util.c", "src/spasm_certificate.c"],
 [("checked allocators", "src/spasm_util.c: spasm_malloc, spasm_calloc, spasm_realloc")],
 ["all library entry points under allocation failure"])

prop("F03", "Operations have no hidden state: any call history gives correct results",
 "The result of each library call depends only on its arguments: in any sequence of echelonizations, reduced forms, kernels, solves, certificates, decompositions and loads over different matrices and moduli in one process, every result is correct and input matrices are bit-for-bit unchanged. Objects returned earlier remain valid and unchanged until freed, and freeing them is safe.",
 ["histories"], "all sequences of library calls over several live matrices, factorizations and moduli in one process",
 "Every test program performs one computation on one matrix in a fresh process.",
 ["src/spasm_echelonize.c", "src/spasm_util.c"],
 [("ownership and const inputs", "src/spasm_echelonize.c: spasm_echelonize (discarded const only on intermediate matrices)"), ("release functions", "src/spasm_util.c: spasm_lu_free, spasm_csr_free, spasm_dm_free")],
 ["all library entry points"])

prop("F04", "Library calls release all the memory they do not return",
 "Once the objects returned by a successful library call have been freed with their release functions, no memory allocated during the call remains in use. This holds for loading, conversions, echelonization and factorization under all options, pivot search, sparse and dense complements, reduced forms, kernels, solving, certificates, matchings and decompositions, in any sequence, for any number of threads and schedule.",
 ["histories", "schedules", "inputs"], "all sequences of successful library calls, all matrices, options, thread counts and schedules",
 "No test looks at memory that remains in use; each test program performs one computation and exits.",
 ["src/spasm_util.c", "src/spasm_echelonize.c", "src/spasm_dm.c", "src/spasm_schur.c", "src/spasm_pivots.c"],
 [("workspace allocated and freed within each call", "src/spasm_schur.c, src/spasm_pivots.c, src/spasm_dm.c, src/spasm_scc.c, src/spasm_kernel.c"), ("release functions", "src/spasm_util.c: spasm_lu_free, spasm_csr_free, spasm_dm_free, spasm_triplet_free")],
 ["all library entry points"])

prop("F05", "Calls made at the same time from several threads do not disturb each other",
 "A program may call the library from several of its own threads at once, on separate objects or on shared objects that the calls only read (matrices, factorizations, reduced forms, certificates). Under every interleaving, each call returns a result that is correct for its own arguments, exactly as if it had run alone, and the shared objects are unchanged: no call keeps intermediate data in storage shared with other calls.",
 ["schedules", "histories"], "all sets of 2 or more threads making library calls (solving with one factorization, reducing, transposing, certifying, decomposing, ...) with all interleavings of their memory accesses",
 "Every test program makes its calls from a single thread.",
 ["src/spasm_solve.c", "src/spasm_transpose.c", "src/spasm_kernel.c", "src/spasm_prng.c", "src/spasm_dm.c", "src/spasm_certificate.c"],
 [("all workspace is allocated per call, no static storage", "src/spasm_transpose.c, src/spasm_solve.c, src/spasm_kernel.c, src/spasm_rref.c, src/spasm_schur.c"), ("generator state in a context of the caller", "src/spasm_prng.c")],
 ["all library entry points"])

prop("G01", "The rank program and the certificate checker tell the truth end to end",
 "For every valid input file, modulus and combination of options that leaves an applicable finishing method, the rank program exits successfully and reports the rank of the matrix modulo that prime. A certificate it writes is declared correct, with exit status 0, by the checking program run on the same file and modulus, and a certificate that does not satisfy the protocol for the offered file and modulus (altered, truncated, or made for another file) is declared incorrect with a non-zero status. Missing or malformed inputs and unwritable outputs are refused with a message and a non-zero status.",
 ["inputs", "configurations"], "all valid matrix files, moduli, option combinations and certificate alterations",
 "The command-line programs are not tested at all.",
 ["tools/rank.c", "tools/check_cert.c", "tools/common.c"],
 [("option parsing and drivers", "tools/common.c, tools/rank.c, tools/check_cert.c")],
 ["stdout/stderr and exit status of tools/rank and tools/check_cert"])

prop("G02", "The echelonize, kernel and solve programs output correct matrices",
 "For every valid input and every option combination that leaves an applicable finishing method, the echelonization program prints an echelonized (or, on request, reduced) basis of the row space; the kernel program prints a basis of the right kernel (or of the left kernel on request); the solve program prints X with X*A = B on all solvable rows and warns about exactly the unsolvable ones. All odd 32-bit prime moduli are accepted, and output can be sent to a file.",
 ["inputs", "configurations"], "all valid matrix files, moduli and option combinations",
 "The command-line programs are not tested at all.",
 ["tools/echelonize.c", "tools/kernel.c", "tools/solve.c", "tools/common.c"],
 [("option parsing and drivers", "tools/echelonize.c, tools/kernel.c, tools/solve.c")],
 ["stdout, stderr, output files and exit status"])

prop("G03", "The reshaping programs output exactly the transformed matrix",
 "On every valid input file, the transpose program prints the transpose, the vertical-swap program the matrix with its columns reversed, the stack program the matrix with its empty rows and columns removed and order otherwise kept, and the decomposition program the permuted matrix or the block sizes of its decomposition. The bitmap program prints, for every size request, an image of at least one pixel that keeps the requested size or the aspect ratio, with the pattern of the matrix.",
 ["inputs", "configurations"], "all valid matrix files (values are taken modulo the default prime) and options",
 "The command-line programs are not tested at all.",
 ["tools/transpose.c", "tools/vertical_swap.c", "tools/stack.c", "tools/dm.c", "tools/bitmap.c"],
 [("drivers", "tools/*.c")], ["stdout and exit status"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
