"""Stages and descriptions of the check of every property."""
CHECKS = {}


def add(pid, rule, stages, assumptions=None):
    CHECKS[pid] = dict(rule=rule, stages=stages, assumptions=assumptions or [])


CONC_RULE = ("one evaluation = one borrow/lock outcome or value compared with the abstract model (sequential histories) or with the recorded "
             "concurrent history; distinct = distinct model states reached in sequential histories plus distinct grant orders of concurrent runs")
add("C01", CONC_RULE, [
    dict(crate="conc", bin="c01"),
    dict(kind="miri", name="miri", crate="conc", bin="m_conc", seeds=(24, 400), args=(["refcell", "8"], ["refcell", "14"]), extra=True),
    dict(kind="tsan", name="tsan", crate="conc", bin="c01", env={"VERIF_SCALE": "0.05"}, extra=True, thorough_only=True),
], ["x86-64 hardware; weak-memory behaviours beyond it are explored by Miri's emulation only"])
add("C02", CONC_RULE, [
    dict(crate="conc", bin="c02"),
    dict(kind="miri", name="miri", crate="conc", bin="m_conc", seeds=(24, 400), args=(["spin", "8"], ["spin", "14"]), extra=True),
    dict(kind="tsan", name="tsan", crate="conc", bin="c02", env={"VERIF_SCALE": "0.05"}, extra=True, thorough_only=True),
], ["x86-64 hardware; weak-memory behaviours beyond it are explored by Miri's emulation only"])

def tf(pid, rule, more=(), assumptions=None, **kw):
    """A property of sunscreen_tfhe: native stage, plus others."""
    b = pid.lower()
    add(pid, rule, [dict(crate="vtfhe", bin=b, hooks=True, **kw)] + [dict(dict(crate="vtfhe", bin=b, hooks=True), **m) for m in more], assumptions)


CHK = dict(kind="checked", name="checked", env={"VERIF_SCALE": "0.1"}, extra=True)
CHKT = dict(CHK, thorough_only=True)
tf("C06", "one evaluation = one encoded, decoded, switched, divided or converted value compared with exact (128 bit) integer arithmetic; distinct = distinct inputs", [CHK])
tf("C07", "one evaluation = one digit or recomposition compared with the exact decomposition; distinct = distinct inputs", [CHK])
tf("C08", "one evaluation = one whole polynomial compared with schoolbook arithmetic in Z_q[X]/(X^N+1); distinct = distinct operands", [CHKT])
tf("C09", "one evaluation = one transform or product compared with the exact result under a norm-wise rounding bound; distinct = distinct operands", [],
   ["rounding bounds are norm-wise: 2 eps (log2 N + 3) |a| |b|, about seven times the largest error observed"])
tf("C10", "one evaluation = one kernel result (values, untouched guard elements) compared with the scalar definition; distinct = distinct shapes and inputs", [CHKT],
   ["the machine running the check has AVX512 or AVX2; kernels of CPU features it lacks are not executed"])
ENC = ["masks and noise come from the operating system seeded generator of the library, so replaying a case repeats its parameters, keys and messages but not its masks",
       "noise is accepted up to 12 standard deviations plus one unit of rounding"]
tf("C11", "one evaluation = one phase, decrypted message or noise moment compared with the clear value under an independent decryptor; distinct = distinct parameters, keys and messages", [CHKT], ENC)
tf("C12", "one evaluation = one polynomial of phases or extracted coefficient compared with the clear value under an independent exact decryptor; distinct = distinct parameters, keys and messages", [CHKT], ENC)
tf("C13", "one evaluation = one row of a gadget ciphertext or key whose exact phase is compared with its definition; distinct = distinct parameters, keys and messages", [CHKT], ENC)
NOISE = ["encryption noise is switched off in the inputs where an exact statement is made; noise bounds are 12 standard deviations of the predicted noise"]
tf("C15", "one evaluation = one phase polynomial of a result compared with the same linear map applied to the phases of the operands; distinct = distinct parameters and operands", [CHKT], NOISE)
tf("C16", "one evaluation = one phase after key switching compared with the phase before under an exact or predicted bound; distinct = distinct parameters, keys and inputs", [CHKT], NOISE)
tf("C17", "one evaluation = one packed phase polynomial compared with the function of the input phases; distinct = distinct parameters, keys and inputs", [CHKT], NOISE)
tf("C18", "one evaluation = one phase polynomial of a product, selection or tree compared with the exact product of the messages; distinct = distinct parameters, keys and messages", [CHKT], NOISE)
tf("C19", "one evaluation = one table entry, switched word, accumulator polynomial or bootstrapped phase compared with the exact rotation of the table; distinct = distinct parameters, keys and inputs", [CHKT], NOISE)
tf("C20", "one evaluation = one row of a switched or bootstrapped GGSW compared with its definition, or one selection made with it; distinct = distinct parameters, keys and inputs", [CHKT], NOISE)
tf("C21", "one evaluation = one substituted polynomial or traced phase compared with the exact map; distinct = distinct parameters, keys and inputs", [CHKT], NOISE)
tf("C14", "one evaluation = one statistic (bit balance per position and bit, pairwise bit correlation, repetition of a mask, chi square, mean, correlation and distribution function of noise) compared with a tail bound; distinct = distinct kinds and parameters", [], ["statistics have tail probabilities below 1e-16 each, so a whole run of a correct library fails with probability below 1e-9", "noise of objects is measured as the difference of the phases of two repetitions"])
tf("C03", "one evaluation = one output element of an operation run on a fresh thread compared with the same operation over dirty outputs and poisoned temporaries, or one untouched input; distinct = distinct operations and parameters", [dict(CHK, env={"VERIF_SCALE": "0.05"})], ["temporary memory is poisoned through the buffers the library itself pools; memory it obtains fresh from the allocator is not"])
tf("C05", "one evaluation = one output element of a concurrent run compared with the same operation run alone (bit for bit), or one line of results of a fresh process; distinct = completion orders of concurrent runs plus parameters", [dict(kind="tsan", name="tsan", env={"VERIF_SCALE": "0.1"}, extra=True)], ["thread schedules are those the machine produces under injected yields, spins and sleeps; ThreadSanitizer reports unsynchronised accesses even when the schedule was harmless"])
tf("C22", "one evaluation = one call with one argument of another length, one invalid parameter or one plaintext width, accepted or rejected; distinct = distinct operations with distinct parameters", [dict(kind="asan", name="asan", env={"VERIF_SCALE": "0.1"}, extra=True)], ["accessors that only return views (a_b, rows, iterators of entities) are covered through the operations that use them"])
tf("C23", "one evaluation = one object compared bit for bit (and by its own equality) after one format, one constructor accepted or refused, one polynomial carried to the transform domain and back, or one result of stored objects; distinct = distinct contents")
tf("C24", "one evaluation = one operation run in a watched process, or one word, mask or noise value of a fresh encryption compared over independent repetitions; distinct = distinct processes and parameters", [], ["writes are seen as bytes on the output streams, as files in the working directory and as bytes counted by the kernel for the process"])
tf("C04", "one evaluation = one item, view, temporary or pair whose place in memory is compared with the definition, or one operation run to its end under AddressSanitizer or Miri; distinct = distinct container shapes, histories of temporaries and operations with parameters", [
    dict(kind="asan", name="asan", env={"VERIF_SCALE": "0.3"}, extra=True),
    dict(kind="miri", name="miri-views", seeds=(1, 1), shards=8, args=([], []), env={"VERIF_SECTIONS": "iterators,accessors,temporaries", "VERIF_THREADS": "1", "VERIF_SCALE": "0.00004"}, env_thorough={"VERIF_SCALE": "0.0001"}, extra=True),
    dict(kind="miri", name="miri-operations", seeds=(1, 1), shards=8, flags="-Zmiri-tree-borrows -Zmiri-deterministic-floats", args=([], []), env={"VERIF_SECTIONS": "operations", "VERIF_THREADS": "1", "VERIF_SCALE": "0.0032"}, env_thorough={"VERIF_SCALE": "0.0005"}, extra=True),
], ["Miri runs the scalar kernels only; vector kernels are watched by AddressSanitizer", "rayon is interpreted under tree borrows (crossbeam does not pass stacked borrows)"])


def vm(pid, rule, more=(), assumptions=None, **kw):
    """A property of sunscreen_math and what surrounds it."""
    st = dict(crate="vmath", bin=pid.lower(), hooks=True)
    add(pid, rule, [dict(st, **kw)] + [dict(st, **m) for m in more], assumptions)


vm("C25", "one evaluation = one sum, difference, product, inverse, conversion or encoding of ring elements compared with arbitrary precision arithmetic; distinct = distinct operands and moduli", [CHK])
vm("C26", "one evaluation = one ring law, division identity or polynomial product compared with schoolbook arithmetic; distinct = distinct operands", [CHK])
vm("C27", "one evaluation = one subset, count or rank compared with an independent enumeration; distinct = distinct subsets", [CHK])
vm("C28", "one evaluation = one estimate compared with a neighbour, with the estimate it inverts, with a published parameter set or with a closed form; distinct = distinct parameters",
   assumptions=["the level to noise estimator is checked from 386 dimensions, where its implementation starts"])
vm("C29", "one evaluation = one constant, ring operation, byte image or refusal of generated code compared with arbitrary precision arithmetic or the layout rules; distinct = distinct annotations and values")


def ov(pid, rule, more=(), assumptions=None, **kw):
    """A property of the crates above sunscreen_tfhe (built through overlay/)."""
    st = dict(crate="vover", bin=pid.lower())
    add(pid, rule, [dict(st, **kw)] + [dict(st, **m) for m in more], assumptions)


ov("C30", "one evaluation = one output word of a circuit compared with bit by bit integer arithmetic, or one circuit compared before and after rewriting, gluing or pruning; distinct = distinct widths, operands and circuits", assumptions=["32 by 32 bit multiplication in one circuit is loaded from a file this checkout lacks and is not run; wider products use the recursive scheme, which is"])
ov("C31", "one evaluation = one output, input, completion, token count or error report of a submitted circuit compared with its evaluation on clear values; distinct = distinct circuits", assumptions=["keys are small and nearly noiseless, so that every operation is exact", "a circuit with a cycle may do anything short of unsoundness, by its documentation, and is not submitted"])
ov("C32", "one evaluation = one decoded object compared with the original, or one hostile byte string whose decoding is watched for panics, allocations and mis-sized results; distinct = distinct objects and byte strings", assumptions=["bytes after the end of a valid encoding are tolerated", "memory is observed through the allocator of the process"])
ov("C33", "one evaluation = one register value shown by a program, gas total, or fault compared with an interpreter that executes one instruction after the other, or one word decoded; distinct = distinct programs", assumptions=["keys are small and nearly noiseless, so that every operation is exact", "encrypted shifts of more than 8 bits and multiplications of more than 8 bits are left to C30", "carries written to the register of the result are not specified"])
ov("C34", "one evaluation = one encryption of a bit, polynomial, integer or packed integer decrypted and compared, or one misfit submitted; distinct = distinct messages, kinds and widths", assumptions=["keys are small and nearly noiseless; the named parameter sets are covered by C10 to C13 and C28", "one time pads are tested for uniformity at 8 standard deviations"])
ov("C35", "one evaluation = one access, allocation, push, call, loaded byte or refusal compared with a model of memory as a map from addresses to bytes; distinct = distinct accesses, calls and files", assumptions=["files that ask for gigabytes of zeros are not loaded: they would be given", "types whose alignment is no power of two are refused by assertion and not written"])
NOT_APPLICABLE = {}
