#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
T="sunscreen_tfhe/src/"
p("C01","Atomic cell borrows are shared-xor-exclusive under every schedule",
 "At any instant a value in the concurrent borrow cell is reachable through either any number of shared borrows or exactly one exclusive borrow, on every thread, and a write made under an exclusive borrow is visible to every later borrow. A conflicting borrow panics and leaves the existing borrows, and the cell's later behaviour, exactly as if it had never been attempted. Once all borrows are dropped (in any order, also by unwinding) every kind of borrow succeeds again; clone and (de)serialisation carry the value and give a fresh, unborrowed cell.",
 ["schedules","histories"],"All interleavings of borrow / borrow_mut / drop / rejected borrow / clone on any number of threads, and all sequential histories of them including unwinding.",
 "7 unit tests do one or two single-threaded borrows each; none continues after a rejected borrow, mixes borrow orders or runs two threads.",
 ["parasol_concurrency/src/lib.rs"],[("borrow state counter","AtomicRefCell::borrow / borrow_mut and Drop for Ref / RefMut")],
 ["outcome (ok / panic) of every borrow against an abstract borrow model","canary values read under borrows"],None,
 [("state","0 = exclusively borrowed, 1+n = n shared borrows","parasol_concurrency/src/lib.rs")])
p("C02","The spinlock gives mutual exclusion, visibility and sticky locks",
 "Between a successful lock (blocking or try) and the drop of its handle, no other lock attempt on any thread succeeds, and everything written under the lock is seen by the next holder. Trying a held lock fails without blocking and without disturbing the lock; a free lock is always acquirable. A handle that is forgotten keeps the lock held forever, and one that is dropped, also by a panic, releases it exactly once.",
 ["schedules","histories"],"All interleavings of lock, try_lock, unlock, forget and panicking critical sections on any number of threads.",
 "The unit tests take a lock once or run one short two-thread counter; weak ordering, try-lock races and leaked or unwound handles are not explored.",
 ["parasol_concurrency/src/lib.rs"],[("compare-exchange acquire / release store","Spinlock::lock, try_lock, Drop for SpinlockHandle")],
 ["holder count and plain (non atomic) data inside the critical section"])
p("C03","Results depend only on inputs, never on leftover memory",
 "Every evaluation operation of the TFHE library (anything that does not draw randomness) overwrites its whole output with a value that is a function of its documented inputs alone. Earlier computations on the same thread, the previous contents of temporary memory, and the previous contents of an output buffer (except for operations documented to accumulate) never change the result. The same holds for encryption and key generation: writing into an already used destination yields a valid encryption of the requested message only.",
 ["histories","inputs"],"Every operation, every parameter set, any history of previous operations on the thread and any previous contents of destination buffers.",
 "Tests call each operation once on fresh zeroed outputs in a fresh thread, so stale scratch memory and dirty destinations are practically never seen.",
 [T+"scratch.rs",T+"ops/",T+"entities/"],[("explicit clearing of accumulators","ops/**: clear() before accumulate"),("thread-local scratch pool","scratch.rs: allocate_scratch returns uncleared reused memory")],
 ["bit-exact comparison of outputs between clean and poisoned executions"],"feature verif-hooks: allocate scratch buffers from the harness to poison the pool")
p("C04","Views, iterators and temporaries never overlap or leave their buffer",
 "Every temporary buffer handed out while others are alive is disjoint from them, aligned, and has exactly the requested length. Every accessor and iterator over a container (forward, backward, mixed, and parallel; shared and mutable) yields each element exactly once, in storage order, together covering the container exactly and never overlapping or touching memory outside it. No sequence of safe calls into the library causes undefined behaviour.",
 ["inputs","histories","schedules"],"All container shapes, strides, iteration orders, split points of parallel iteration, and allocation / release orders of temporaries.",
 "Unit tests iterate one 30-element slice purely forwards or purely backwards and allocate at most two live buffers; out-of-bounds or aliasing that happens to be benign is invisible to them.",
 [T+"dst.rs",T+"scratch.rs",T+"iteration/triangular_pairs.rs",T+"entities/"],[("strided iterators","dst.rs: dst_iter! Iter, IterMut, ParIter, ParIterMut"),("scratch pool","scratch.rs: Scratch::allocate, Drop for ScratchBuffer"),("typed overlays","entities/*: size() and accessor offsets")],
 ["addresses, lengths and contents of views","Miri / AddressSanitizer reports"],"feature verif-hooks: scratch allocation and triangular pair iteration are crate private")
p("C05","Concurrent use and worker count never change results",
 "Evaluation operations may be run from any number of threads at once over shared keys and ciphertexts, without data races, and each returns bit for bit what it returns when run alone. Operations that are parallel internally give the same guarantees for every worker count, including one. This also holds when the shared lookup state the library builds lazily is first used from several threads at once.",
 ["schedules","configurations"],"All interleavings of concurrent calls on shared immutable inputs and all thread-pool sizes.",
 "Every test runs an operation from one thread at a time with the default pool; the lazily initialised plan caches and thread-local pools are never raced.",
 [T+"math/fft/",T+"scratch.rs",T+"dst.rs",T+"entities/bootstrap_key.rs",T+"ops/encryption/"],[("global plan cache","math/fft/*: get_fft"),("thread-local scratch","scratch.rs: SCRATCH"),("parallel iterators","dst.rs: par iterators")],
 ["outputs of concurrent and sequential runs","ThreadSanitizer reports"])
p("C06","Torus encoding, decoding and modulus switching round correctly",
 "For every supported width and every number of plaintext bits that fits the type, decoding an encoded message returns the message modulo the plaintext space, and decoding an encoding disturbed by any error smaller than half a step returns the same message, with wrap-around at the top. Switching a torus element to a narrower torus keeps its most significant bits and switching to a wider one is exact; rounded divisions and shifts return the nearest integer; and torus arithmetic and conversions to and from real numbers agree with exact arithmetic modulo one.",
 ["inputs"],"All torus values, messages, bit counts 1..=width and error values below the threshold, for 32 and 64 bit tori.",
 "Tests use a few bit counts on a few thousand values; bit counts at and above half the width, extreme errors and wrap-around are not covered.",
 [T+"math/torus.rs",T+"math/basic.rs",T+"ops/polynomial/mod.rs"],[("encode / decode","math/torus.rs: Torus::encode, decode"),("modulus switch","math/torus.rs: TorusOps / modulus switching helpers"),("rounded division","math/basic.rs")],
 ["decoded values vs exact integer model"])
p("C07","Gadget decomposition recomposes to the nearest representable value",
 "For every valid decomposition (digit count and digit size with product at most the word width) and every input, the digits are balanced within half the radix, and summing digit times gadget factor gives the input rounded to the precision of the decomposition, modulo the torus. The scalar and the polynomial decompositions, and every coefficient of the latter, agree with this, and never emit more or fewer digits than requested.",
 ["inputs","configurations"],"All 32 and 64 bit inputs, all digit counts and sizes with count*size <= width, all polynomial degrees.",
 "Tests check a few fixed (count, size) pairs; ties, carries across digits, full-width decompositions and single-digit ones are not exercised.",
 [T+"math/radix.rs",T+"params.rs"],[("balanced digits with carry","math/radix.rs: ScalarRadixIterator, PolynomialRadixIterator, round()")],
 ["digits emitted by the iterators vs exact big integer model"])
p("C08","Negacyclic polynomial arithmetic is exact ring arithmetic",
 "Addition, subtraction, negation, scalar multiplication, monomial multiplication by any (positive or negative) power, substitution of X by an odd power and external multiplication by integer polynomials agree coefficient by coefficient with arithmetic in Z_q[X]/(X^N+1), for every power-of-two N and both word sizes. In-place, out-of-place, operator and accumulate variants of an operation agree with each other.",
 ["inputs"],"All polynomials, degrees, exponents (also >= 2N) and scalars.",
 "Tests use one or two degrees, small exponents and small coefficients.",
 [T+"math/polynomial.rs",T+"entities/polynomial.rs",T+"ops/polynomial/mod.rs"],[("wrapping coefficient loops with sign flip","math/polynomial.rs, entities/polynomial.rs")],
 ["coefficients vs schoolbook reference"])
p("C09","FFT-based multiplication stays within its rounding error bound",
 "For every power-of-two size, the forward then inverse transform returns the input up to rounding, the transform of a product is the pointwise product, and multiplying an integer polynomial by a torus polynomial through the transform equals the exact negacyclic product up to an error bounded by the floating point precision of the operands. The accumulate variants add exactly one product per call.",
 ["inputs","configurations"],"All sizes, all small-by-torus operand pairs including extreme and sparse ones, both word sizes, all plans.",
 "Tests transform a handful of vectors at one or two sizes and mostly compare with loose tolerance.",
 [T+"math/fft/negacyclic/mod.rs",T+"math/fft/cyclic/mod.rs",T+"entities/polynomial_fft.rs",T+"math/polynomial.rs"],[("twisted half-size complex FFT","math/fft/negacyclic"),("cyclic FFT","math/fft/cyclic")],
 ["transform outputs vs direct evaluation and exact product"])
p("C10","Vectorised kernels compute the element-wise operation for every shape",
 "Every vector kernel computes its operation on each element, as the plain scalar definition does, for every length (also lengths that are no multiple of the lane count), every shift amount and every value including extreme ones. Choosing another backend (detected CPU features or the portable fallback) never changes integer results, and changes floating point results at most by rounding. No element outside the given slices is read into a result or written.",
 ["inputs","configurations"],"All lengths, offsets, values, shift amounts and backends available on the machine.",
 "5 tests use one length each with small values and only on the auto-detected backend.",
 [T+"math/simd/"],[("runtime dispatch","math/simd/x86_64/mod.rs"),("AVX2 kernels with scalar tails","math/simd/x86_64/avx2.rs"),("portable kernels","math/simd/scalar.rs, generic/mod.rs")],
 ["kernel outputs and guard zones"],"feature verif-hooks: the kernels and their scalar fallbacks are crate private")
p("C11","LWE encryption under secret and public keys decrypts to the message",
 "For every LWE parameter set with enough noise margin, every key and every message, decrypting an encryption made under the secret key or the matching public key returns the message modulo the plaintext space, and so does decrypting a trivial encryption under any key. The phase differs from the encoding only by noise of the declared magnitude, and decrypting below carry bits recovers the message whatever the carry. When the randomness of an encryption is returned, it is the randomness that was used.",
 ["inputs","configurations"],"All parameter sets, keys, messages, plaintext widths and both word sizes.",
 "Tests encrypt a few messages at one parameter set and check decryption only.",
 [T+"ops/encryption/lwe_encryption.rs",T+"entities/lwe_secret_key.rs",T+"entities/lwe_public_key.rs",T+"entities/lwe_ciphertext.rs",T+"high_level.rs"],[("b = <a,s> + e + m","ops/encryption/lwe_encryption.rs"),("public key combination","entities/lwe_public_key.rs")],
 ["phase of every ciphertext computed by an independent decryptor"])
p("C12","GLWE and RLWE encryption and sample extraction preserve every coefficient",
 "For every GLWE parameter set with enough noise margin, every key and every message polynomial, decrypting a secret-key, public-key or trivial encryption returns every coefficient of the message. Extracting any coefficient index from a GLWE ciphertext gives an LWE ciphertext whose phase under the flattened key is exactly that coefficient's phase.",
 ["inputs","configurations"],"All degrees, GLWE sizes, keys, message polynomials and extraction indices.",
 "Tests use one parameter set, mostly size 1, and extract a few indices.",
 [T+"ops/encryption/glwe_encryption.rs",T+"ops/encryption/rlwe_encryption.rs",T+"entities/glwe_secret_key.rs",T+"ops/ciphertext/glwe_ciphertext_ops.rs"],[("body = sum a_i s_i + m + e","ops/encryption/glwe_encryption.rs"),("negacyclic coefficient reorder","ops/ciphertext/glwe_ciphertext_ops.rs: sample_extract")],
 ["phases of all coefficients computed by an independent exact decryptor"])
p("C13","Gadget ciphertexts and keys encrypt the right scaled message in every row",
 "Every row of a LEV, GLEV, RLEV or GGSW encryption (secret key, public key or trivial) decrypts to the message times that row's gadget factor, times the negated key polynomial for the mask rows of a GGSW (a trivial GGSW is one under the zero key), for every decomposition and GLWE size. Every row of a bootstrapping, key-switching, functional key-switching, scheme-switching and automorphism key likewise encrypts what its definition says under the target key. Reading the message back from a GGSW returns it.",
 ["inputs","configurations"],"All messages, decompositions, GLWE sizes, degrees and keys.",
 "Tests decrypt only whole ciphertexts at one parameter set; a wrong low-order row or one wrong key entry hides behind noise tolerance.",
 [T+"ops/encryption/glev_encryption.rs",T+"ops/encryption/ggsw_encryption.rs",T+"entities/bootstrap_key.rs",T+"ops/keyswitch/",T+"entities/scheme_switch_key.rs",T+"ops/automorphisms/mod.rs"],[("gadget scaled rows","ops/encryption/ggsw_encryption.rs, glev_encryption.rs"),("triangular products of keys","entities/scheme_switch_key.rs with iteration/triangular_pairs.rs")],
 ["phase of every row under the key by an independent decryptor"])
p("C14","Encryption randomness is fresh, complete and correctly distributed",
 "Every encryption and every row of every key uses fresh masks that are uniform over the whole word, and fresh noise of the declared standard deviation; no mask element is constant, repeated between rows, ciphertexts or threads, or restricted to part of its range. Binary keys are uniform over {0,1} and uniform keys over the whole word. Encrypting the same message twice never gives the same ciphertext.",
 ["inputs","histories","schedules"],"All key and ciphertext kinds, positions within them, threads and repetitions.",
 "Tests check the noise generator once and never look at masks, per-row noise, or equality between encryptions.",
 [T+"rand.rs",T+"ops/encryption/",T+"entities/lwe_secret_key.rs",T+"entities/glwe_secret_key.rs"],[("thread_rng based sampling","rand.rs: normal_torus, uniform_torus, binary")],
 ["bit statistics, collisions and noise moments over recorded encryptions, with false-alarm probability below 1e-9"])
p("C15","Linear homomorphisms act on plaintexts exactly as they claim",
 "Adding, subtracting, negating, rotating, and scaling ciphertexts of any kind by cleartext scalars or polynomials, in place or out of place, changes the phase by exactly the same linear operation and therefore the decrypted message modulo the plaintext space. Every component of the ciphertext takes part, for every GLWE size and dimension.",
 ["inputs","configurations"],"All operand ciphertexts, scalars, polynomials, rotation amounts, sizes and word widths.",
 "Tests add or scale a few small messages at one parameter set.",
 [T+"ops/ciphertext/",T+"ops/homomorphisms/lwe.rs",T+"entities/lwe_ciphertext.rs",T+"entities/glwe_ciphertext.rs"],[("component-wise wrapping arithmetic","ops/ciphertext/*.rs")],
 ["exact phase equality modulo q"])
p("C16","Key switching preserves the message under the new key",
 "Switching an LWE or GLWE ciphertext from any key to any other key, with any valid decomposition and any pair of dimensions, gives a ciphertext that has the same phase under the target key up to the noise predicted by the decomposition and key noise.",
 ["inputs","configurations"],"All source and target dimensions and sizes, decompositions, keys and messages.",
 "Tests switch one message at one parameter set.",
 [T+"ops/keyswitch/lwe_keyswitch.rs",T+"ops/keyswitch/glwe_keyswitch.rs",T+"ops/keyswitch/lwe_keyswitch_key.rs",T+"ops/keyswitch/glwe_keyswitch_key.rs",T+"ops/fft_ops.rs"],[("decompose and accumulate","ops/keyswitch/*.rs")],
 ["phase difference before / after vs predicted bound"])
p("C17","Functional key switching applies its function and packs correctly",
 "Public functional key switching packs any list of LWE ciphertexts into a GLWE ciphertext whose phase is the given public function of the inputs, and private functional key switching applies the secret function embedded in its key to the input ciphertexts, for every decomposition, dimension and input count, up to the predicted noise.",
 ["inputs","configurations"],"All input lists, functions, dimensions and decompositions.",
 "Tests use one function and one parameter set each.",
 [T+"ops/keyswitch/public_functional_keyswitch.rs",T+"ops/keyswitch/private_functional_keyswitch.rs",T+"entities/private_functional_keyswitch_key.rs",T+"entities/public_functional_keyswitch_key.rs"],[("decompose and accumulate key rows","ops/keyswitch/*functional_keyswitch.rs")],
 ["phase of the packed output vs the clear function"])
p("C18","External products and CMUX select and multiply faithfully",
 "Multiplying a GLWE (or GLEV) ciphertext by a GGSW ciphertext gives an encryption of the product of the messages, and CMUX with a GGSW encryption of 0 or 1 gives an encryption of the first or second input respectively, for every GLWE size, degree and decomposition, and for trees of such operations, up to the predicted noise.",
 ["inputs","configurations","programs"],"All operand messages, GLWE sizes, degrees, decompositions and compositions (trees) of the operations.",
 "Tests evaluate single products at one or two parameter sets with trivial or sparse messages.",
 [T+"ops/fft_ops.rs",T+"ops/ciphertext/glwe_ciphertext_ops.rs",T+"ops/ciphertext/glev_ciphertext_ops.rs",T+"high_level.rs"],[("decompose, FFT multiply-accumulate","ops/fft_ops.rs: glwe_ggsw_mad, cmux, glev_cmux")],
 ["phase of the result vs clear product or selection within predicted noise"])
p("C19","Programmable bootstrapping evaluates its table on every message",
 "Bootstrapping any ciphertext whose phase is within half a step of a message returns a ciphertext of the table entry for that message, for univariate, bivariate, multi-output and arbitrary (negacyclic) tables, every message of the plaintext space, every plaintext and carry width and GLWE size that fits, with fresh noise. Blind rotation rotates the accumulator by exactly the rounded phase, including phase zero and the wrap-around at the ends of the torus.",
 ["inputs","configurations"],"All messages, tables, plaintext and carry widths, phases including boundaries, keys and parameter sets.",
 "Tests evaluate a few tables on a few messages at fixed parameters; boundary phases, GLWE size above one and mixed widths are rare.",
 [T+"ops/bootstrapping/programmable_bootstrapping.rs",T+"ops/bootstrapping/blind_rotation.rs",T+"entities/univariate_lookup_table.rs",T+"entities/bivariate_lookup_table.rs",T+"entities/blind_rotation_shift.rs"],[("table layout with half-window rotation","ops/bootstrapping/programmable_bootstrapping.rs: generate_lut"),("modulus switch to 2N","ops/bootstrapping/blind_rotation.rs")],
 ["phase of the output vs the clear table; exact phase model of rotation"])
p("C20","Circuit bootstrapping and scheme switching yield valid selectors",
 "Circuit bootstrapping a one-bit LWE ciphertext, by either method and for every valid decomposition, and scheme switching a leveled encryption of a bit, give a GGSW ciphertext in which every row decrypts to the right scaled message within the predicted noise, so that it works as a selector in later CMUXes.",
 ["inputs","configurations"],"Both bits, all keys, decompositions, GLWE sizes, and destinations of any prior content.",
 "Tests bootstrap a bit at one parameter set and check the result through one CMUX or one decrypted coefficient.",
 [T+"ops/bootstrapping/circuit_bootstrapping.rs",T+"ops/bootstrapping/scheme_switch.rs",T+"entities/scheme_switch_key.rs",T+"high_level.rs"],[("PBS per level then functional key switch, or trace and scheme switch","ops/bootstrapping/circuit_bootstrapping.rs")],
 ["phase of every GGSW row by an independent decryptor"])
p("C21","Trace and substitution act as the algebraic maps they name",
 "Substituting X by X^k in a polynomial is the ring automorphism for every odd k, and the homomorphic trace of a ciphertext decrypts to N times the constant coefficient of the message with all other coefficients zero, for every degree, GLWE size and decomposition, up to predicted noise.",
 ["inputs","configurations"],"All message polynomials, degrees, GLWE sizes, decompositions and keys.",
 "One test traces the all-ones polynomial at one parameter set.",
 [T+"ops/automorphisms/mod.rs",T+"ops/polynomial/mod.rs",T+"entities/automorphism_key.rs",T+"ops/fft_ops.rs"],[("log N automorphism + key switch steps","ops/automorphisms/mod.rs: trace")],
 ["phases of all coefficients vs exact map"])
p("C22","Invalid parameters and mis-sized data are rejected, never misread",
 "Calling an operation with an entity whose length does not match the parameters, or with invalid parameters (zero dimension, non power-of-two degree, zero or over-wide decomposition, over-wide plaintext), panics or returns an error before any result is produced, and never reads or writes outside the given data or returns a result computed from a truncated operand. Valid sizes are always accepted.",
 ["inputs","configurations"],"All operations, each argument in turn made longer, shorter or empty, and all invalid parameter values.",
 "No test passes a wrong length to any homomorphic operation; a dropped check cannot fail a test that only passes right lengths.",
 [T+"dst.rs",T+"params.rs",T+"ops/",T+"entities/"],[("assert_is_valid at operation entry","ops/**, dst.rs: OverlaySize::check_is_valid"),("assert_valid on parameters","params.rs")],
 ["accept / reject decision for every mutated argument"])
p("C23","Stored keys and ciphertexts come back identical and usable",
 "Serialising any key, ciphertext, polynomial or parameter and deserialising it returns an equal object, in text and binary formats, that still works with everything produced before. Constructors that import raw data keep every element in place and reject data of the wrong length. Conversions to and from the transform domain keep the decrypted content.",
 ["inputs","configurations"],"All entity kinds, sizes, word widths and formats.",
 "No stable test serialises an entity.",
 [T+"entities/",T+"params.rs"],[("serde derives on aligned storage","entities/*"),("raw constructors","entities/*: new / new_raw / from_slice")],
 ["equality of round-tripped objects, operation results with round-tripped keys"])
p("C24","The library never prints or exposes secrets and plaintexts",
 "Key generation, encryption, decryption and evaluation write nothing to standard output or standard error, in particular no key, noise or plaintext data, for any valid parameters. Ciphertexts and public keys do not contain secret key material or noiseless encryptions in any position.",
 ["inputs","configurations"],"All operations, parameters and messages.",
 "Test harnesses capture and ignore output, and no test inspects it.",
 [T+"ops/encryption/",T+"entities/lwe_public_key.rs",T+"high_level.rs"],[("no debug output in library code","ops/encryption/*"),("noise added to each row","ops/encryption/*")],
 ["bytes written to stdout / stderr by a process running the operations","per-row noise of fresh encryptions and keys"])
M="sunscreen_math/src/"
p("C25","Modular arithmetic agrees with integer arithmetic modulo the modulus",
 "For every configured modulus and backend, and every pair of elements, addition, subtraction, negation, multiplication, exponentiation, inversion and conversions of ring elements agree with integer arithmetic modulo the modulus, results are always fully reduced, and equal values compare (and hash or order) equal. Arithmetic modulo powers of two and in the library's internal prime field follow the same rule.",
 ["inputs","configurations"],"All moduli supported by the configuration (also ones near the word limits), all operand values including 0, 1, q-1 and unreduced inputs.",
 "Tests use two or three moduli and a few values.",
 [M+"ring/mod.rs",M+"ring/barrett.rs",M+"misc_traits.rs",T+"math/goldilocks_field.rs"],[("Barrett reduction","ring/barrett.rs"),("ring wrappers","ring/mod.rs: Zq, WrappingSemantics"),("Goldilocks reduction","math/goldilocks_field.rs")],
 ["results vs big integer model"],"feature verif-hooks: the Goldilocks field is crate private")
p("C26","Polynomials over a ring satisfy the ring laws and division with remainder",
 "Polynomial addition, subtraction, negation, multiplication, scalar multiplication, evaluation and division agree with exact schoolbook arithmetic over the coefficient ring, for every operand degree including zero and the zero polynomial. Division returns quotient and remainder with dividend = quotient*divisor + remainder and remainder of smaller degree. Two polynomials are equal exactly when they represent the same polynomial, whatever trailing zeros they store.",
 ["inputs"],"All pairs of polynomials of any lengths, with and without trailing zeros, over any supported ring.",
 "13 tests use fixed small polynomials of particular shapes.",
 [M+"poly/mod.rs"],[("coefficient vectors","poly/mod.rs: Polynomial")],["coefficients vs schoolbook big integer reference"])
p("C27","Combination indexing is a bijection in lexicographic order",
 "Counting, enumerating, ranking and unranking k-element combinations agree with each other and with brute-force enumeration: there are exactly as many combinations as counted, all distinct and in order, and index to combination and back is the identity. The count is right whenever it fits the result type.",
 ["inputs"],"All n, k and indices whose results fit the machine word.",
 "Tests check tiny n and k; intermediate overflow and order at larger sizes are not sampled.",
 [M+"combination.rs"],[("combinatorial number system","combination.rs")],["enumerations vs brute force and big integer binomials"])
p("C28","Security estimates are monotone, mutually inverse and honour their domain",
 "The estimators that turn noise into security level and security level into noise are inverse to each other, within the accuracy of the fit, over their domain, monotone in noise and dimension, and report an error instead of an estimate outside it. Derived quantities (failure probabilities, running statistics, geometric domain tests) agree with direct evaluation.",
 ["inputs"],"All dimensions, standard deviations and security levels inside and around the documented domain.",
 "One test evaluates a few points.",
 [M+"security.rs",M+"stats.rs",M+"geometry.rs"],[("polynomial fit on a convex domain","security.rs"),("domain polytope","geometry.rs")],["round trips and comparisons on a grid of points"])
p("C29","Generated code (derive macros) means what its annotations say",
 "A ring configuration derived for a given modulus and limb count yields exactly the constants the reduction needs, for every odd or even modulus that fits and every limb count, and rejects moduli that do not fit. Binary operators expanded to reference forms give the same result in all owned and borrowed combinations. The byte-layout derive writes fields in declaration order at their natural alignment, reports a size equal to what it writes, and reading back returns the original.",
 ["inputs","configurations","programs"],"All moduli, limb counts, operand ownership combinations, and struct layouts.",
 "The macros have no tests beyond one or two moduli used elsewhere; byte-layout derives are only exercised by the crate that cannot be built here.",
 ["sunscreen_math_macros/src/","parasol_cpu_macros/src/lib.rs"],[("Barrett constant computation","sunscreen_math_macros/src/lib.rs: BarrettConfig"),("operator expansion","sunscreen_math_macros: refify_binary_op"),("field offsets","parasol_cpu_macros/src/lib.rs: IntoBytes")],
 ["generated constants and behaviours for many moduli and struct shapes vs model"])
p("C30","Integer circuits compute machine integer arithmetic for every width",
 "The selector circuits generated for addition, subtraction, multiplication, negation, comparisons, shifts, rotations and bitwise operations compute the corresponding two's-complement or unsigned integer operation for every operand width, shift width and operand value. Optimisation and gluing of circuits never change the function a circuit computes.",
 ["inputs","programs"],"All operations, widths (including one bit and unequal widths) and operand values.",
 "Tests sample a few widths and random values, and the crate's tests cannot even be built in this checkout.",
 ["mux_circuits/src/"],[("BDD construction per operation","mux_circuits/src/{add,sub,mul,neg,comparisons,bitshift,and,or}.rs"),("graph rewriting","mux_circuits/src/opt.rs, graph_ops.rs, lib.rs")],["circuit evaluation vs wide integer arithmetic"])
p("C31","The circuit processor runs every task once, in dependency order, and ends",
 "Every operation of a submitted circuit is executed exactly once, after all operations it depends on, and its completion is signalled once all have finished, for every circuit shape, number of workers, flow-control limit and interleaving of submissions. A failing operation or invalid circuit is reported to the submitter instead of hanging, and does not disturb other circuits.",
 ["schedules","programs","fault_sequences"],"All circuit DAGs, pool sizes, flow-control lengths, concurrent submissions and faulty circuits.",
 "Tests run a few fixed circuits, and cannot be built in this checkout.",
 ["parasol_runtime/src/circuit_processor/","parasol_runtime/src/fhe_circuit.rs"],[("dependency counters and ready queue","parasol_runtime/src/circuit_processor/mod.rs, task.rs"),("completion handler","circuit_processor/completion_handler.rs")],["task results and completion notifications vs sequential evaluation of the circuit"])
p("C32","Untrusted serialized data never yields an inconsistent object",
 "Deserialising arbitrary bytes as a ciphertext or key either returns an error or an object whose sizes match the parameters it is used with; it never panics, allocates beyond the stated limit or produces a mis-sized object. Serialising and deserialising a valid object is the identity.",
 ["inputs"],"All byte strings, in particular truncations, extensions and mutations of valid encodings, and all entity kinds.",
 "A couple of tests truncate one encoding, and cannot be built in this checkout.",
 ["parasol_runtime/src/safe_bincode.rs","parasol_runtime/src/crypto/"],[("size-limited bincode + size check","parasol_runtime/src/safe_bincode.rs")],["result of decoding mutated encodings"])
p("C33","The virtual CPU executes instructions like a sequential machine",
 "Running a program on the virtual processor gives the register, memory and return values that executing its instructions one at a time in program order gives, on plaintext data and on encrypted data after decryption, whatever order the scoreboard runs them in. Faults (bad address, misuse of encrypted values, gas exhaustion) are reported as errors and never as wrong results or hangs.",
 ["programs","schedules","inputs"],"All instruction sequences, operand values (plaintext or encrypted), memory layouts and completion orders.",
 "Tests check one instruction at a time on few values, and cannot be built in this checkout.",
 ["parasol_cpu/src/proc/","parasol_cpu/src/tomasulo/","parasol_cpu/src/memory/mod.rs"],[("Tomasulo scoreboard and register renaming","parasol_cpu/src/tomasulo/"),("instruction semantics","parasol_cpu/src/proc/ops/"),("paged memory","parasol_cpu/src/memory/mod.rs")],["final machine state vs an independent interpreter"])
p("C34","What the runtime encrypts decrypts to the same value or is refused",
 "Every bit, polynomial, integer of any width and packed integer encrypted by the runtime - under the secret or the public key, trivially, in any ciphertext kind, or with a one time pad - decrypts to exactly the value given, for every value that fits. A value that does not fit its type, or an operand of the wrong kind or width, is refused and never silently truncated. One time pads are uniform and used once.",
 ["inputs","configurations"],"All integer widths (including one bit and more than 128 bits), values, ciphertext kinds, polynomial degrees and GLWE sizes.",
 "Tests encrypt a few 8 to 32 bit values under one parameter set, and cannot be built in this checkout.",
 ["parasol_runtime/src/crypto/","parasol_runtime/src/fluent/"],[("bit by bit encryption of integers","parasol_runtime/src/fluent/uint.rs, int.rs, generic_int.rs"),("packing","parasol_runtime/src/fluent/packed_generic_int.rs"),("key types","parasol_runtime/src/crypto/encryption.rs")],["decrypted values, refusals and pad bits"])
p("C35","Memory keeps what is written where it is mapped, and calls pass values unchanged",
 "A value written to mapped, aligned memory of the virtual processor is read back unchanged, byte for byte and encrypted or plain as it was, up to the last byte of a page; every access that is not entirely inside mapped memory, is not aligned or mixes encrypted and plain bytes is an error that changes nothing. Allocations never overlap, wrap or include the null page. Programs receive every argument at its place on the stack and return values arrive unchanged, whatever the types, their alignment and the number of calls on one memory, successful or not. Loading an ELF file gives exactly its segments and symbols, and a damaged file gives an error, never a panic.",
 ["histories","inputs","configurations"],"All histories of allocation, access, push and call, all argument and return types, stack placements, and all byte strings as files.",
 "Tests write a few values at fresh addresses and call a few programs once, and cannot be built in this checkout.",
 ["parasol_cpu/src/memory/mod.rs","parasol_cpu/src/proc/args.rs","parasol_cpu/src/proc/fhe_processor.rs"],[("paged memory and ELF loader","parasol_cpu/src/memory/mod.rs"),("argument layout","parasol_cpu/src/proc/args.rs"),("calls","set_up_function_call in parasol_cpu/src/proc/fhe_processor.rs")],["memory contents and results vs a model"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
ids=[d["id"] for d in P]
assert len(set(ids))==len(ids)
print(len(P),"properties")
