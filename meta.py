#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json: python3 meta.py rewrites both."""
import json, os, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, tech=tech, note=note, observe=observe or []))


TRUST = ("Exploration: no proof of absence. Trusts the Go toolchain, math/big and the rapid generator; "
         "every case is reproducible from VERIF_SEED.")
NOISE = (" Error bounds are ten standard deviations of a variance derived from the generated parameters, "
         "so a correct tree is quiet; an error increase inside the bound goes unseen.")
V, M = "math/vec/", "math/"

P("C01", "Vector arithmetic equals element-wise arithmetic on every code path",
  "Every vector operation (add, subtract, negate, scale, multiply, their fused and in-place forms, dot product and complex counterparts) "
  "returns the element-wise result in the element type's own wrap-around or floating arithmetic. "
  "The result is the same for every length, alignment and element type and whichever implementation the CPU selects, and outputs may be one of the inputs.",
  ["inputs", "configurations"], "all lengths 0..~300 with every tail, all element types, memory alignments, exact aliasing of the output with inputs, three dispatch configurations (AVX2, purego build, CPU features off)",
  "The tests check a handful of operations on one length per type in the one configuration of the machine; tails, aliasing and the generic fall-back are never compared.",
  [V + "vec.go", V + "asm_vec_amd64.go", V + "asm_vec_amd64.s", V + "asm_vec.go"],
  [("CPU dispatch with generic tail loops", V + "asm_vec_amd64.go"), ("generic loops", V + "vec.go")],
  "property-based testing against an element-by-element model, in three dispatch configurations",
  "Each element is recomputed independently; complex results are compared within a rounding bound. " + TRUST)

P("C02", "Vector reordering and conversion helpers preserve exactly the right entries",
  "Rotating, reversing, bit-reversing, casting, comparing, filling and copying a vector yields exactly the documented arrangement of its entries, "
  "including negative and over-long rotations, empty and odd-length vectors. In-place and out-of-place forms agree.",
  ["inputs", "configurations"], "vectors of any length and type, rotations of any sign and size, all dispatch configurations",
  "Tests use one fixed vector per helper; boundary rotations, odd lengths and non-trivial types are not sampled.",
  [V + "vec.go"], [("index arithmetic of the helpers", V + "vec.go")],
  "property-based testing against index-formula models", "The oracle is the index formula of each helper. " + TRUST)

P("C03", "Integer helpers agree with exact integer arithmetic for every type and operand",
  "Modular exponentiation and inverse, power-of-two tests, logarithms, absolute values, extrema, square roots, rounding division and type-width helpers return the mathematically exact result "
  "for every operand their documentation admits. Operands outside that domain panic instead of returning a wrong value.",
  ["inputs"], "all integer types, operands over the full range of the type including extremes, moduli up to the type's maximum",
  "The handful of unit tests use small positive operands of one type; overflow and unsigned wrap-around need extreme operands.",
  [M + "num/num.go"], [("generic helper functions", M + "num/num.go")],
  "property-based testing against arbitrary-precision integers", "Exact comparison with math/big. " + TRUST)

PL = M + "poly/"
P("C04", "Polynomial multiplication equals schoolbook negacyclic multiplication",
  "The product of two ring elements, in the set, add-to and subtract-from forms, in place or not, and by a general or a declared-short factor, equals the schoolbook product modulo X^N+1 in the wrap-around arithmetic of the coefficient type. "
  "It is exact, for every ring degree and operand size the evaluator accepts.",
  ["inputs", "configurations"], "ring degrees 2^4..2^12, full-width and short operands, every integer type, aliased outputs, dispatch configurations",
  "One test compares products of a few random polynomials at one degree; carry-heavy and extreme operands, the other degrees, types and forms, and the pure-Go path are never run.",
  [PL + "poly_mul.go", PL + "poly.go", PL + "poly_evaluator.go"], [("splitting into short limbs multiplied by FFT", PL + "poly_mul.go"), ("Karatsuba/naive fall-backs", PL + "poly_mul.go")],
  "property-based differential testing against schoolbook multiplication", "Exact comparison coefficient by coefficient. " + TRUST)

P("C05", "Coefficient-domain polynomial maps satisfy their algebraic definitions",
  "Addition, subtraction, negation, scaling, monomial multiplication, subtraction of one after monomial multiplication and substitution of X by an odd power equal the ring maps they name, for every exponent of either sign. "
  "In-place and out-of-place, set, add and subtract forms all agree with that definition.",
  ["inputs", "configurations"], "any degree, coefficient type, exponent in several periods of either sign, aliased outputs",
  "The tests fix the exponents; wrap-around signs at the period boundary need particular exponents.",
  [PL + "poly_ops.go", PL + "poly.go"], [("negacyclic index arithmetic", PL + "poly_ops.go")],
  "property-based testing against polynomial-definition models", "Exact. " + TRUST)

P("C06", "Fourier-domain polynomials mirror coefficient-domain arithmetic",
  "Transforming a polynomial, operating in the Fourier domain (add, subtract, negate, scale, multiply, multiply by polynomials or monomials, permute, in set, add and subtract forms) and transforming back equals the same operation on coefficients, up to floating rounding. "
  "Slot-wise operations equal complex arithmetic, and all dispatch configurations agree.",
  ["inputs", "configurations"], "any degree, type, operand magnitude within the precision of the transform, exponent, aliasing, dispatch configuration",
  "Tests run round trips on one degree; butterflies of other degrees, permutations by every odd exponent and the generic code are unexercised.",
  [PL + "fft.go", PL + "fft_ops.go", PL + "asm_fft_amd64.s", PL + "asm_fft.go", PL + "asm_fold.go", PL + "asm_fold_amd64.s", PL + "asm_vec_cmplx.go", PL + "asm_vec_cmplx_amd64.s"],
  [("folded twisted FFT with AVX2 butterflies", PL + "asm_fft_amd64.s"), ("exact rounding on the way back", PL + "fft.go")],
  "property-based differential and metamorphic testing", "Slot-wise tolerance from floating-point error analysis; exact where rounding back is exact. " + TRUST)

S = M + "csprng/"
P("C07", "Uniform, bounded and binary samplers are faithful, reproducible and independent",
  "Uniform samplers cover the full range of their type evenly, bounded sampling covers exactly [0, n), binary sampling gives independent fair bits and block-binary sampling at most one set bit per block with every position equally likely. "
  "The stream is a function of the seed and of the sequence of calls alone, different seeds give different streams, and no output repeats across internal buffer refills.",
  ["inputs", "histories"], "generated seeds, types, bounds, block sizes and call patterns crossing the buffer boundary",
  "Tests check a mean and variance of one seedless stream; bias at unusual bounds, seed handling and reuse at buffer boundaries need targeted histories.",
  [S + "uniform_sampler.go", S + "binary_sampler.go"], [("buffered extendable-output function", S + "uniform_sampler.go"), ("rejection sampling of bounded values", S + "uniform_sampler.go")],
  "property-based statistical testing with seeded streams", "Chi-square and collision tests at a false-alarm probability below 1e-9 per run; small biases below that resolution go unseen. " + TRUST)

P("C08", "Gaussian sampler follows the rounded Gaussian law in every call form",
  "Samples drawn singly, as vectors, as polynomials or added to or subtracted from an operand follow the rounded normal distribution of the requested standard deviation: mean, variance, tails, symmetry and serial independence. "
  "Add and subtract forms change the operand by exactly such a sample; the stream is determined by the seed.",
  ["inputs", "histories"], "standard deviations from below 1 to 2^40, all types, call patterns; a volume mode of half a billion samples per case in 1400 bins",
  "The single test compares one empirical standard deviation; tails, signs, serial correlation and the additive forms are unexamined.",
  [S + "gaussian_sampler.go"], [("polar/ziggurat style sampling from the uniform stream", S + "gaussian_sampler.go")],
  "property-based statistical testing against the exact law", "Chi-squared, moment and per-bin tests at false-alarm probability below 1e-9; deviations below that resolution (about 1% of a narrow bin in the volume mode) go unseen. " + TRUST)

T = "tfhe/"
P("C10", "Gadget decomposition recomposes with bounded, balanced digits",
  "Decomposing any scalar or polynomial under any valid base and level gives digits whose weighted sum differs from the input by at most half of the smallest gadget step, and every digit is within half the base in absolute value. "
  "Polynomial decomposition equals coefficient-wise scalar decomposition and Fourier decomposition equals its transform.",
  ["inputs", "configurations"], "every valid (base, level), both torus types, extreme values, all dispatch configurations",
  "The tests decompose one random value with one gadget; rounding carries at extremes and the assembly tail are unsampled.",
  [T + "decomposer.go", T + "asm_decompose_amd64.go", T + "asm_decompose_amd64.s", T + "asm_decompose.go", T + "params.go"],
  [("rounded signed-digit decomposition", T + "asm_decompose.go")],
  "property-based testing against exact integer recomposition", "Exact inequality over integers. " + TRUST)

P("C11", "Decoding inverts encoding for every message and any error below half a step",
  "For every message modulus and scale, decoding an encoded message returns the message modulo the modulus, also after any perturbation smaller than half the scale. "
  "Vector encodings place messages in order, pad with zero and ignore what exceeds the ring, and truth values round-trip by sign.",
  ["inputs"], "all message moduli including non powers of two, custom scales, negative and oversized messages, short and long vectors, perturbations up to the limit",
  "Tests use messages 0..3 under one modulus with no error.",
  [T + "encoder.go", T + "binary_encoder.go"], [("scale and round", T + "encoder.go")],
  "property-based round-trip testing with perturbations", "Exact. " + TRUST)

E = [T + "encryptor.go", T + "lwe_enc.go", T + "glwe_enc.go", T + "fft_glwe_enc.go", T + "encoder.go", T + "binary_encryptor.go"]
P("C12", "Secret-key encryption decrypts to the message under the mathematical definition",
  "Every encryption entry point, for every ciphertext form (vector, polynomial, gadget and matrix forms, Fourier forms) produces a ciphertext whose phase under the secret key by definition is the encoded message plus fresh noise of the configured size, with a fresh uniform mask. "
  "The matching decryption returns the message, and previous contents of the output have no influence.",
  ["inputs", "configurations"], "generated parameter sets (dimension, rank, degree, gadget, modulus, noise, order), messages, dirty outputs",
  "Tests use a single parameter set and check that decryption inverts encryption, which also holds for wrong definitions or for no noise at all.",
  E, [("mask sampling, dot product with key, gaussian body", T + "lwe_enc.go"), ("gadget rows", T + "glwe_enc.go")],
  "property-based testing against an independent definition-level decryptor", "Phases are recomputed with schoolbook arithmetic from the raw key." + NOISE + " " + TRUST)

P("C13", "Public-key encryption is correct, fresh and independent of used outputs",
  "Every public-key encryption entry point gives a ciphertext that decrypts under the matching secret key to the message with noise within the bound implied by the key, whatever the output held before. "
  "Two encryptions never share their mask, and decryption needs only the secret key.",
  ["inputs", "histories"], "generated parameters, messages, sequences of encryptions into fresh and reused outputs",
  "Tests encrypt once into fresh outputs; accumulation into reused ciphertexts is invisible to them.",
  [T + "encryptor_public.go", T + "lwe_enc_public.go", T + "glwe_enc_public.go", T + "fft_glwe_enc_public.go", T + "binary_encryptor_public.go"],
  [("encryption of zero by ternary combination of key", T + "glwe_enc_public.go")],
  "property-based testing against a definition-level decryptor", "As for secret-key encryption." + NOISE + " " + TRUST)

P("C14", "Homomorphic linear operations act exactly on phases",
  "Addition, subtraction, negation, plaintext addition, scalar, polynomial and monomial multiplication, permutation and their fused forms, on every ciphertext form, change the phase exactly as the named operation changes plaintexts, up to transform rounding. "
  "This holds for arbitrary ciphertexts and whether the output is fresh, used, or one of the inputs.",
  ["inputs", "programs"], "arbitrary (not only encrypted) ciphertexts, all operations, scalars, exponents, aliasing patterns",
  "Tests do not cover most of these operations, and decryption of small messages hides errors in the low bits or in the mask.",
  [T + "lwe_ops.go", T + "glwe_ops.go", T + "fft_glwe_ops.go"], [("component-wise operations", T + "glwe_ops.go")],
  "property-based metamorphic testing on phases under full-width keys", "Exact for integer forms; Fourier forms within a rounding bound. " + TRUST)

P("C15", "Gadget products, external products and CMux compute the product of plaintexts",
  "Multiplying a ciphertext or polynomial by a gadget or matrix ciphertext yields a ciphertext of the product of the plaintexts with noise within the analytic bound, in the set, add and subtract forms; the multiplexer returns a ciphertext of the branch the selector encrypts. "
  "Outputs may be fresh, used or any of the inputs.",
  ["inputs", "configurations"], "generated gadgets, ranks, degrees, polynomial messages, aliasing, dispatch configurations",
  "Tests multiply constants 0/1 with fresh outputs under one parameter set.",
  [T + "product.go", T + "decomposer.go"], [("decomposition times Fourier rows", T + "product.go")],
  "property-based testing against ring arithmetic on phases with an analytic noise bound", "Expected product by schoolbook arithmetic." + NOISE + " " + TRUST)

P("C16", "Key switching preserves the phase between any two keys",
  "Switching a ciphertext with a key made for (input key, output key) yields a ciphertext whose phase under the output key equals the phase of the input under the input key up to the analytic noise and decomposition bound, for vector and polynomial ciphertexts of any dimensions. "
  "The output's previous contents do not matter.",
  ["inputs", "configurations"], "generated input/output dimensions and ranks, gadgets, arbitrary ciphertexts, reused outputs",
  "Tests only key switch inside bootstrapping and at one dimension pair.",
  [T + "keyswitch.go", T + "keyswitch_keygen.go", T + "keyswitch_key.go"], [("decompose mask and accumulate rows", T + "keyswitch.go")],
  "property-based testing against phases with an analytic noise bound", "" + NOISE.strip() + " " + TRUST)

P("C17", "Extracting a coefficient yields a ciphertext of exactly that coefficient",
  "For every coefficient index, extracting from a polynomial ciphertext gives a vector ciphertext whose phase under the flattened key equals that coefficient of the polynomial phase exactly. Plaintext extraction and key flattening agree with it.",
  ["inputs"], "every index, rank and degree, arbitrary ciphertexts and keys, reused outputs",
  "Tests extract a single index of one encryption.",
  [T + "glwe_ops.go", T + "glwe.go"], [("negacyclic reversal of the mask", T + "glwe.go")],
  "property-based testing against phases", "Exact. " + TRUST)

P("C18", "Lookup tables hold the right function value in every slot",
  "A generated lookup table, read at every position that inputs of message m with error below half a step reach, holds the encoding of f(m) at the requested output scale, with the negacyclic boundary handled. "
  "Full and custom variants agree and previous contents do not matter.",
  ["inputs", "configurations"], "functions, message moduli not dividing the table size, custom scales, table sizes above the ring degree",
  "Tests only bootstrap a few messages at table centres.",
  [T + "bootstrap_lut.go"], [("centred boxes with half-box rotation", T + "bootstrap_lut.go")],
  "property-based testing with exhaustive reading of slots", "Exact; all slots of each table are read. " + TRUST)

P("C19", "Blind rotation rotates the table by exactly the rounded phase",
  "Blind rotation by an arbitrary ciphertext returns a ciphertext of the table multiplied by X to minus the phase rounded to the table size, where the rounding deviates at most by the analytic modulus-switching bound. "
  "It holds for arbitrary tables and key block sizes and for tables longer than the ring.",
  ["inputs", "configurations"], "generated parameters including extended tables and block sizes, arbitrary tables and ciphertexts",
  "Tests look at one coefficient of piecewise constant tables, which hides off-by-a-few rotations.",
  [T + "bootstrap.go", T + "bootstrap_key.go", T + "bootstrap_keygen.go"], [("CMux chain over key blocks", T + "bootstrap.go"), ("rotation split over extended accumulators", T + "bootstrap.go")],
  "property-based testing with a full-coefficient rotation oracle", "All coefficients compared with the table rotated by the exact integer rotation of the modulus-switched ciphertext." + NOISE + " " + TRUST)

P("C20", "Programmable bootstrapping evaluates any function and resets the noise",
  "Bootstrapping a ciphertext whose error is below the decoding limit of its parameters returns an encryption of f(message) with noise bounded independently of the input error, for both operation orders and every table source. "
  "The input is unchanged and previous contents of the output do not matter.",
  ["inputs", "configurations"], "generated parameters and functions, every message, input errors up to the limit, aliased and reused outputs",
  "Tests bootstrap three fresh messages under fixed functions.",
  [T + "bootstrap.go", T + "bootstrap_lut.go", T + "keyswitch.go", T + "evaluator.go"], [("mod switch, blind rotate, extract, key switch", T + "bootstrap.go")],
  "property-based testing against the function on integers", "The input error is drawn up to the limit the parameters leave after rounding." + NOISE + " " + TRUST)

P("C21", "Programs of linear steps and bootstraps compute on integers indefinitely",
  "Any sequence of homomorphic linear operations and bootstraps whose noise stays inside the parameters' budget decrypts, at every step, to the result of the same program on integers modulo the message modulus. "
  "Noise does not accumulate across bootstraps, whatever outputs and temporaries are reused.",
  ["programs", "histories"], "random programs over a register file with aliasing and reuse of one evaluator",
  "Tests apply one operation to fresh ciphertexts; history effects need sequences.",
  [T + "bootstrap.go", T + "lwe_ops.go", T + "evaluator.go"], [("noise refresh by bootstrapping", T + "bootstrap.go")],
  "model-based testing of random programs", "The model is integer arithmetic plus a noise ledger." + NOISE + " " + TRUST)

P("C22", "Boolean gates compute their truth tables on any circuit",
  "Every gate returns, for all input combinations, an encryption of its truth table value; circuits of gates of any depth evaluate to the circuit's value; outputs may overwrite inputs. Multi-bit helpers keep bit order.",
  ["programs", "inputs", "configurations"], "random circuits over all gates, generated parameters, overlapping outputs",
  "Tests evaluate each gate on one or two input pairs.",
  [T + "binary_evaluator.go", T + "binary_encryptor.go", T + "binary_encoder.go"], [("offset and sign bootstrapping", T + "binary_evaluator.go")],
  "model-based testing of random circuits", "The margin of each gate's phase is checked, not only its decryption." + NOISE + " " + TRUST)

P("C23", "Generated keys have the documented law, structure and relations",
  "Secret keys are binary with at most one set bit per block of the block-binary part, uniform otherwise. The small key is a prefix of the large key, which is the flattened polynomial key. "
  "Every evaluation, key-switching, blind-rotation and public key, generated serially or in parallel, encrypts exactly the secret it is meant to encrypt with fresh noise of the configured size.",
  ["inputs", "schedules"], "generated parameter sets, both generation paths, given and own secret keys, every row of every key",
  "Tests only bootstrap with one key; weak keys (constant noise, repeated masks, wrong blocks) still decrypt correctly.",
  [T + "encryptor_key.go", T + "bootstrap_keygen.go", T + "keyswitch_keygen.go", T + "lwe_enc.go", T + "glwe_enc.go", T + "glwe_enc_public.go"],
  [("key aliasing of LWE and GLWE keys", T + "encryptor_key.go"), ("parallel key generation", T + "bootstrap_keygen.go")],
  "property-based testing of each key row against the definition", "Rows are decrypted with schoolbook arithmetic." + NOISE + " " + TRUST)

P("C24", "Serialization round-trips every object exactly",
  "Writing any key, ciphertext, plaintext or parameter object and reading it back gives an equal object, in the documented byte layout, of the announced size, with the exact byte counts returned. "
  "It consumes exactly one object from a stream of many, works through short reads, and reading into a used object of another shape leaves nothing of it.",
  ["inputs", "histories"], "every serializable type, arbitrary shapes and contents, streams of several objects, used receivers, short reads",
  "Tests round-trip one object per type into an empty receiver through one buffer.",
  [T + "lwe.go", T + "lwe_marshal.go", T + "glwe_marshal.go", T + "fft_glwe_marshal.go", T + "params.go", "mktfhe/lwe_marshal.go", "mktfhe/glwe_marshal.go", "mktfhe/fft_glwe_marshal.go", "mktfhe/bootstrap_key_marshal.go", "mktfhe/params.go"], [("header and chunked body", T + "lwe_marshal.go")],
  "property-based round-trip testing against an independent encoder", "Byte layout recomputed from the documented field order. " + TRUST)

P("C25", "Truncated and failing streams are reported as errors with exact byte counts",
  "Reading a truncated or failing stream, or writing to a failing or short-writing one, returns an error and the number of bytes actually transferred, whatever the point of failure. Failure is never reported as success. "
  "The receiver can afterwards be used for another read, and the written prefix is the prefix of the full encoding.",
  ["fault_sequences"], "every byte position of small objects, sampled positions and field boundaries of large ones; end of stream, injected errors, silent short writes",
  "No test injects a failure into a stream.",
  [T + "lwe_marshal.go", T + "glwe_marshal.go", T + "fft_glwe_marshal.go", T + "params.go", "mktfhe/lwe_marshal.go", "mktfhe/glwe_marshal.go", "mktfhe/fft_glwe_marshal.go"], [("per-field error returns with running byte counts", T + "lwe_marshal.go")],
  "fault injection at every byte position of generated objects", "Exact. " + TRUST)

P("C26", "Copies are deep, complete and independent; clearing leaves only zeros",
  "Copy and CopyFrom of every object reproduce all of its contents, including nested ones and gadget parameters, without sharing memory: later writes to either never show in the other. "
  "Clear sets every value to zero and keeps the shape.",
  ["inputs", "histories"], "every copyable type, arbitrary shapes and contents, sequences of copy, overwrite and clear",
  "No test modifies a copy; shared backing arrays stay invisible.",
  [T + "lwe.go", T + "glwe.go", T + "fft_glwe.go", T + "encryptor_key.go", T + "bootstrap_key.go", T + "keyswitch_key.go", "mktfhe/lwe.go", "mktfhe/glwe.go", "mktfhe/fft_glwe.go", "mktfhe/bootstrap_key.go"],
  [("element-wise copying of nested slices", T + "glwe.go")],
  "model-based testing over snapshots of every scalar", "Every scalar of every object is compared after each step. " + TRUST)


P("C27", "Parameter sets compile exactly when valid and report what was asked for",
  "Compiling a parameter literal of any scheme panics if and only if a documented rule is broken (positive dimensions, powers of two, divisibility, positive deviations, gadget within the modulus, scheme-specific restrictions). "
  "Otherwise every accessor returns the requested or by definition derived value, the literal is recovered exactly and every With-setter replaces its own field only.",
  ["inputs", "configurations"], "literals of tfhe, mktfhe and xtfhe with up to three violated rules at and around the boundary, random valid literals, every setter of every literal type",
  "Tests compile the default sets only; wrong derived values are usually masked by symmetric use in encoder and decoder.",
  [T + "params.go", "mktfhe/params.go", "xtfhe/fhew_params.go", "xtfhe/manylut_params.go", "xtfhe/circuit_bootstrap_params.go", "xtfhe/sanitization_params.go"],
  [("validation switch in Compile", T + "params.go"), ("derived fields", T + "params.go")],
  "property-based testing against a restatement of the documented rules", "Moduli of zero, NaN deviations and ring degrees below 16 are not judged. " + TRUST)

M = "mktfhe/"
X = "xtfhe/"

P("C28", "Operations are functions of their arguments, whatever the object did before",
  "Every deterministic operation of every evaluator, decryptor, encoder, decomposer and bootstrapper gives bit for bit the result of a freshly built object with the same keys, whatever sequence of operations (and SafeCopies) the object went through, "
  "whatever the output held before and even if one object is passed as several inputs; it leaves its inputs, keys and tables as they were; and the allocating, writing and in-place forms of an operation agree.",
  ["histories", "programs", "configurations"], "histories of up to 60 operations drawn from about 980 exported methods of 15 types, over generated parameters, gadgets, ranks and dimensions, on realistic and extreme contents",
  "Tests call each operation at most once per object, into fresh outputs, and never look at inputs afterwards.",
  [T + "evaluator.go", T + "bootstrap.go", T + "decomposer.go", T + "product.go", T + "keyswitch.go", M + "evaluator.go", M + "product.go", X + "bfv_evaluator.go", X + "circuit_bootstrap.go", X + "manylut_evaluator.go", X + "fhew_evaluator.go", "math/poly/poly_evaluator.go"],
  [("intermediate buffers kept in evaluators", T + "evaluator.go"), ("decomposition buffers per gadget", T + "decomposer.go"), ("intermediate buffers of the multi-key evaluator", M + "evaluator.go")],
  "stateful differential testing against a fresh object", "Operations are enumerated by reflection from a committed list; random operations (encryption, key generation, sanitization) are out of scope here. " + TRUST)

P("C29", "The output of an operation may be one of its inputs",
  "Every operation that is not documented to need separate objects (the Monomial and Permute writing forms are) gives the same result when its output is one or all of its inputs of the same type, accumulating forms included, and leaves the other inputs alone.",
  ["programs", "inputs", "configurations"], "all exported operations of nine types with an input of the output's type, aliased with one or all such inputs, over generated parameters and contents",
  "Tests use separate outputs almost everywhere.",
  [T + "lwe_ops.go", T + "glwe_ops.go", T + "product.go", T + "keyswitch.go", T + "binary_evaluator.go", M + "product.go", M + "binary_evaluator.go", X + "bfv_evaluator.go", "math/poly/poly_evaluator.go"],
  [("results accumulated before inputs are last read", T + "product.go"), ("gates computed in the output", T + "binary_evaluator.go")],
  "metamorphic testing: aliased against separate objects", "Only whole objects are aliased, not one component of an object with another object. " + TRUST)

P("C30", "SafeCopies work in parallel without affecting each other",
  "Goroutines that each use their own SafeCopy of an evaluator, encryptor, decryptor, key generator, sanitizer or bootstrapper, sharing keys and inputs, compute exactly what each would compute alone, without a data race; copies of an encryptor encrypt correctly with masks of their own; "
  "parallel key generation and parallel multi-key bootstrapping are free of races.",
  ["schedules", "histories"], "2 to 6 goroutines running drawn operations of 16 types, encrypting, generating keys or sanitizing, on shared inputs, copies taken before or inside the goroutines, with and without the race detector",
  "Tests never run two copies at once.",
  [T + "evaluator.go", T + "encryptor.go", T + "decomposer.go", T + "bootstrap_keygen.go", M + "evaluator.go", M + "encryptor.go", M + "bootstrap.go", X + "bfv_evaluator.go", X + "circuit_bootstrap.go", X + "fhew_evaluator.go", X + "fhew_bootstrap_keygen.go", X + "sanitization.go", X + "bfv_keygen.go", X + "circuit_bootstrap_key.go", T + "binary_encryptor.go", "math/poly/poly_evaluator.go"],
  [("buffers duplicated by SafeCopy", T + "evaluator.go"), ("goroutines of key generation", T + "bootstrap_keygen.go"), ("goroutines of blind rotation", M + "bootstrap.go")],
  "stateful concurrent testing against sequential results, under the Go race detector", "Schedules are those the Go scheduler produces (the race detector reports unordered accesses whether or not they collide); the race detector runs on the generic code, as it cannot see assembly. " + TRUST)

P("C31", "Multi-key encryptions decrypt under the parties' keys and touch only their party",
  "Every multi-key encryption (LWE, GLWE, Fourier, public-key, uni-encryption) of any message by any party decrypts to that message with any decryptor that knows the party's key, "
  "carries fresh noise of the configured deviation, and uses only that party's mask whatever the output held before. Common reference strings are a function of the seed alone.",
  ["inputs", "histories"], "generated parameters with up to four parties, subsets of present parties, arbitrary messages, used outputs, copies of encryptors and decryptors",
  "Tests encrypt one message for two parties with one parameter set.",
  [M + "encryptor.go", M + "encryptor_public.go", M + "decryptor.go", M + "glwe_enc.go", M + "fft_glwe_enc.go"],
  [("per-party masks", M + "encryptor.go"), ("uni-encryption under an auxiliary key", M + "glwe_enc.go")],
  "property-based testing against decryption by definition", "Phases use schoolbook arithmetic; noise laws are tested at 9 deviations and on pooled samples. " + TRUST)

P("C32", "Multi-key linear operations and products act on the joint phase",
  "Every multi-key addition, negation, scaling, polynomial and monomial product, permutation, extraction, embedding of single-key ciphertexts and Fourier conversion acts exactly (or within transform error) on the joint phase, for any key. "
  "Hybrid and external products by any party's encryption multiply the joint phase by the encrypted polynomial within the noise bound, in returned, overwriting, in-place, adding and subtracting forms.",
  ["inputs", "configurations"], "arbitrary ciphertexts of up to five parties, arbitrary (also non-binary) keys for linear operations, generated gadgets, aliased and used outputs, absent parties",
  "Tests call each operation once on fresh ciphertexts; the subtracting and in-place forms are never compared.",
  [M + "lwe_ops.go", M + "glwe_ops.go", M + "fft_glwe_ops.go", M + "product.go", M + "glwe.go", M + "lwe.go"],
  [("relinearization through the common reference string", M + "product.go"), ("component loops over the parties", M + "glwe_ops.go")],
  "metamorphic testing on joint phases", "Linear operations are exact." + NOISE + " " + TRUST)

P("C33", "Multi-key bootstrapping evaluates the function for any subset of parties",
  "Blind rotation of any table by any multi-key ciphertext, serial or parallel, is the exact rotation by the mod-switched joint phase within the noise bound. Key switching preserves the joint phase. "
  "Bootstrapping applies the function to sums of ciphertexts of several parties and leaves inputs and tables unchanged; masks of absent parties neither influence the result nor appear in it.",
  ["inputs", "schedules", "configurations"], "generated parameters, one to four parties of which some are absent, arbitrary tables and ciphertexts, chains of bootstraps of sums",
  "Tests bootstrap one ciphertext per form with all parties present.",
  [M + "bootstrap.go", M + "product.go", M + "evaluator.go"], [("per-party rotations combined by external products", M + "bootstrap.go"), ("goroutine per party", M + "bootstrap.go")],
  "model-based testing against exact rotation", NOISE.strip() + " " + TRUST)

P("C34", "Multi-key gates compute their truth tables on any circuit of any parties",
  "Every multi-key gate, serial or parallel, returning or overwriting, gives an encryption of its truth table value for all input combinations of any parties, "
  "as long as the inputs' errors together stay within the margin an eighth of the torus leaves; circuits of any depth evaluate to the circuit's value. Multi-bit helpers keep bit order.",
  ["programs", "inputs", "schedules"], "random circuits over all gates in all forms, wires of several parties, inputs with generated error up to the margin, overlapping outputs",
  "Tests evaluate each gate on one pair of fresh, nearly noiseless inputs.",
  [M + "binary_evaluator.go", M + "binary_encryptor.go", M + "binary_decryptor.go"], [("offset and sign bootstrapping", M + "binary_evaluator.go")],
  "model-based testing of random circuits", "Each gate's output phase is checked, not only its decryption." + NOISE + " " + TRUST)

P("C35", "Multi-key evaluators and decryptors depend only on the keys they hold",
  "Every row of a multi-key evaluation key, generated serially or in parallel, encrypts what the definition says, over the common reference string, with masks never repeated. "
  "After any history of adding and replacing parties' keys and copying, an evaluator or decryptor gives bit for bit the results of one built at once with its current keys; changes to one copy never affect another and no key is modified.",
  ["histories", "inputs"], "histories of additions, replacements, copies and evaluations on up to four diverging copies; generated parameters",
  "Tests construct one evaluator with all keys and never copy, extend or replace.",
  [M + "bootstrap_keygen.go", M + "evaluator.go", M + "decryptor.go", M + "encryptor.go", M + "bootstrap_key.go"],
  [("party bit maps and per-party evaluators", M + "evaluator.go")],
  "stateful model-based testing", "Results of histories are compared exactly. " + TRUST)


P("C40", "BFV multiplication multiplies plaintext polynomials modulo the message modulus",
  "For any ciphertexts and any key, the BFV tensor is the scaled tensor product over the integers (rounded), relinearization preserves its phase within the noise bound, and Mul (all forms) encrypts the product of the messages "
  "modulo X^N+1 and the message modulus whenever the noise fits. Arguments are used and left alone; outputs overwrite whatever they held.",
  ["inputs", "programs"], "generated parameters, arbitrary and fresh ciphertexts, products of products, used and overlapping outputs, copied evaluators",
  "Tests multiply two constants with one parameter set and never call Tensor or Relinearize alone.",
  [X + "bfv_evaluator.go", X + "bfv_keygen.go"], [("split tensor with rounding", X + "bfv_evaluator.go"), ("relinearization key of s_i s_j", X + "bfv_keygen.go")],
  "property-based testing against exact big-integer tensors", NOISE.strip() + " " + TRUST)

P("C41", "BFV automorphisms and packing act as automorphisms of the plaintext",
  "Permuting a ciphertext with the Galois key of exponent d gives a ciphertext of m(X^d) under the original key within the noise bound, for every odd d a key was generated for, also where that key replaced an older one; a missing key panics. "
  "Packing an LWE ciphertext gives a GLWE ciphertext of the constant message with all other coefficients zero, exactly scaled.",
  ["inputs", "histories"], "generated parameters and key sets, arbitrary odd (also negative) exponents and ciphertexts, compositions, used and overlapping outputs",
  "Tests check a single exponent on fresh encryptions and only the constant coefficient of a packed one.",
  [X + "bfv_evaluator.go", X + "bfv_keygen.go"], [("Galois key lookup by exponent", X + "bfv_evaluator.go"), ("trace in log N steps", X + "bfv_evaluator.go")],
  "metamorphic testing on phases", NOISE.strip() + " " + TRUST)

P("C42", "Circuit bootstrapping turns any bit into a GGSW encryption of it",
  "Circuit bootstrapping an LWE encryption (with any admissible error) of a bit gives a Fourier GGSW ciphertext whose every row has the phase of the bit times the gadget within the noise bound, "
  "so external products and CMux with the result select as the bit says, for generated parameters, keys and output gadgets.",
  ["inputs", "configurations"], "generated parameter sets (ring, rank, gadgets, many-table counts), input errors up to the margin, serial and parallel keys, copies, used outputs",
  "Tests bootstrap two bits with two fixed sets and only look at the decryption after one CMux.",
  [X + "circuit_bootstrap.go", X + "circuit_bootstrap_key.go", X + "circuit_bootstrap_params.go"],
  [("trace and scheme switching", X + "circuit_bootstrap.go"), ("scheme switch key rows", X + "circuit_bootstrap_key.go")],
  "property-based testing against row-wise phases", NOISE.strip() + " " + TRUST)

P("C43", "FHEW-style bootstrapping works for Gaussian keys and any window",
  "The FHEW encryptor's keys follow the configured Gaussian, every row of its evaluation keys (serial or parallel) encrypts what the definition says, "
  "blind rotation of any table by any ciphertext is the exact rotation by the mod-switched phase with every term rounded to the nearest odd integer within the noise bound for every window size, and bootstrapping evaluates any function and resets the noise.",
  ["inputs", "configurations"], "generated parameters, key deviations, window sizes from one to the ring degree, arbitrary masks, custom and default tables",
  "Tests bootstrap a few messages with one default set, one window size and one key deviation.",
  [X + "fhew_bootstrap.go", X + "fhew_bootstrap_keygen.go", X + "fhew_enc.go", X + "fhew_evaluator.go", X + "fhew_params.go"],
  [("automorphism walk over the discrete logarithms of the mask", X + "fhew_bootstrap.go"), ("Galois keys of the window", X + "fhew_bootstrap_keygen.go")],
  "model-based testing against exact rotation", NOISE.strip() + " " + TRUST)

P("C44", "Many-table bootstrapping evaluates every function of one ciphertext at once",
  "A table of up to LUTCount functions holds each function's value (padding included) in every slot the rotation can reach; blind rotation is the exact rotation by the phase rounded to multiples of LUTCount; "
  "bootstrapping yields one ciphertext per function, in order, each with the function value of the message, for any message modulus, functions, counts and custom scales.",
  ["inputs", "configurations"], "generated parameters and counts, arbitrary functions, custom moduli and scales, admissible errors, used tables and outputs, fewer functions than slots",
  "Tests evaluate four fixed functions with the default sets, where the modulus is a power of two.",
  [X + "manylut_evaluator.go", X + "manylut_bootstrap.go", X + "manylut_params.go"],
  [("interleaved table generation", X + "manylut_evaluator.go"), ("mod switch to multiples of the count", X + "manylut_bootstrap.go")],
  "model-based testing against exact tables and rotation", NOISE.strip() + " " + TRUST)

P("C45", "Sanitization evaluates the function and rerandomizes with the configured law",
  "Rerandomizing any LWE or GLWE ciphertext changes its phase by errors of exactly the deviation the configured samplers and the public key imply, and makes its mask uniform and fresh on each call. "
  "Sanitizing (every entry point) any ciphertext with admissible error encrypts the function value within the noise bound, with errors at least of the configured flooding deviation and fresh uniform masks.",
  ["inputs", "configurations"], "generated parameters and deviations, arbitrary ciphertexts (also trivial), arbitrary functions, repeated sanitization of the same ciphertext, overlapping outputs, copies",
  "Tests sanitize two bits and decrypt; they cannot see missing or wrong randomisation.",
  [X + "sanitization.go", X + "sanitization_params.go"], [("randomized linear evaluation", X + "sanitization.go"), ("public-key rerandomization", X + "sanitization.go")],
  "property-based testing with statistical oracles", "Laws are tested on 200 to 8000 repetitions at 8 deviations; indistinguishability itself is not decided. " + TRUST)

P("C46", "The table-driven discrete Gaussian sampler follows its law",
  "For any centre and deviation and any integer type, samples of all five call forms follow the discrete Gaussian distribution with that centre and deviation: range, histogram, mean, variance, independence of neighbours; the accessors report centre and deviation.",
  ["inputs"], "generated centres (fractional, integral, far), deviations from 0.001 to 3000, seven integer types, 2000 to 40000 samples; a volume mode of 268 million samples per case that tests every tail",
  "No test samples it; bootstrapping hides any sampler that returns small numbers.",
  [X + "sanitization_sampler.go"], [("cumulative table", X + "sanitization_sampler.go")],
  "property-based testing with a chi-squared oracle", "Statistics are judged at 7.5 deviations. " + TRUST)


P("C47", "The noise and failure estimators match measured bootstrapping errors",
  "For any bootstrapping parameter set, the estimated standard deviations of modulus switching, blind rotation, key switching and their compositions agree with the errors measured on real ciphertexts within the stated factor, and the estimated failure probability agrees with the counted failures.",
  ["configurations", "inputs"], "generated parameter sets of both sizes and orders, hundreds of measured errors per set, sets chosen so that failures are frequent enough to count",
  "No test runs the estimators; parameter choice, hence correctness of every application, rests on them.",
  [T + "params.go"], [("closed formulas for each step", T + "params.go")],
  "property-based testing with measured errors as the statistical oracle", "Bands cover eight deviations of the measurement plus the spread between keys." + NOISE + " " + TRUST)

P("C48", "Every public-key encryption is freshly randomised in every component",
  "Encrypting under a public key uses a fresh uniform binary randomiser for every row of the key and fresh errors of the configured deviation in every component, for every call form; no randomiser or error vector is used twice.",
  ["inputs", "configurations"], "generated parameters, crafted keys whose unit rows expose the randomness, ranks one to three, repeated encryptions",
  "Shared or missing randomness decrypts perfectly; only its joint law shows it.",
  [T + "glwe_enc_public.go", T + "lwe_enc_public.go"], [("one randomiser per row", T + "glwe_enc_public.go"), ("one randomiser per row", T + "lwe_enc_public.go")],
  "property-based testing with crafted keys and statistical oracles", "Laws are judged at eight deviations. " + TRUST)

P("C49", "Extension-scheme keys hold their secrets under fresh noise in every row",
  "Every row of generated relinearization, automorphism, packing, circuit bootstrapping (scheme switching, trace) and FHEW keys encrypts exactly the secret part it is meant to encrypt, its noise follows the configured law and no mask is used twice.",
  ["inputs", "configurations"], "generated parameters and secrets, every row of every key",
  "Missing noise or repeated masks make keys work better, not worse, while revealing the secret.",
  [X + "bfv_keygen.go", X + "circuit_bootstrap_key.go", X + "fhew_bootstrap_keygen.go"], [("gadget encryptions of secret parts", X + "bfv_keygen.go")],
  "property-based testing of each key row against the definition", "Rows are decrypted with schoolbook arithmetic." + NOISE + " " + TRUST)

P("C50", "Every default parameter set works with its documented failure rate",
  "With keys of any shipped parameter set (binary, 2 to 8 bit, multi-key for 2 to 32 parties, many-lookup, FHEW, circuit bootstrapping, sanitization), chains of generated lookups, gates or products return the right values, with errors leaving the documented margin, and the plain sets' estimated failure rate stays below 2^-64 (FHEW documents no rate; its margin must not fall below the published parameters'); noise is not below the floor that security needs.",
  ["configurations", "inputs", "programs"], "every default set, generated keys, functions and circuits",
  "Tests use few of the sets with one fixed function each; a set with too little margin fails once in millions of gates.",
  [T + "params_list.go", "mktfhe/params_list.go", X + "fhew_params_list.go", X + "circuit_bootstrap_params_list.go", X + "manylut_params_list.go", X + "sanitization_params_list.go"], [("default literals", T + "params_list.go")],
  "property-based testing with error margins as oracle", "Few cases, since keys are large; failure rates come from measured error deviations, not from counting." + NOISE + " " + TRUST)


P("C51", "Operands of wrong length are rejected, never read or written past their end",
  "Every operation of the vector and polynomial packages that takes several operands panics when their lengths disagree with each other or with the evaluator's rank, and never touches memory outside the operands, although most of them work on raw pointers. Matching lengths are accepted.",
  ["inputs"], "every evaluator method found by reflection and every vector operation, one or all operands wrong, lengths around the SIMD block sizes, slices with and without spare capacity",
  "No test passes a wrong length; an unguarded pointer loop corrupts neighbouring memory silently.",
  ["math/vec/vec.go", "math/vec/asm_vec_amd64.go", "math/poly/fft.go", "math/poly/fft_ops.go", "math/poly/poly_ops.go", "math/poly/poly_mul.go"],
  [("length checks before unsafe loops", "math/poly/poly.go"), ("length checks before unsafe loops", "math/vec/vec.go")],
  "property-based testing with fenced memory", "Out-of-range reads show only through the missing panic. " + TRUST)

P("C52", "Documented panics happen exactly outside the documented preconditions",
  "Automorphisms of even exponent, public keys under parameters that do not support them, party indices above the party count, single-key ciphertexts that do not fit a multi-key one, automorphisms without their key, ranks that are no power of two of at least MinRank, and negative Gaussian deviations make the operation panic; the same operations accept every argument inside the precondition.",
  ["inputs", "configurations"], "generated parameters, arguments inside and outside of the preconditions, all permuting methods found by reflection",
  "Tests call with valid arguments only; without the panic the result is silently wrong, or insecure.",
  ["math/poly/poly_ops.go", "math/poly/fft_ops.go", T + "encryptor_public.go", T + "encryptor.go", "mktfhe/encryptor.go", "mktfhe/glwe.go", X + "bfv_evaluator.go", "math/csprng/gaussian_sampler.go"],
  [("parity check of the exponent", "math/poly/poly_ops.go"), ("support check", T + "encryptor_public.go")],
  "property-based testing of panics against the documented precondition", "An index equal to the party count, malformed literals and corrupted contents are not judged (C27 covers parameters, C25 serialized data). " + TRUST)

P("C53", "Constructors allocate zeroed objects of the shape their parameters say",
  "Every constructor of keys, ciphertexts and plaintexts (from a parameter set, or custom from dimensions and gadgets) returns an object of exactly the documented nesting, lengths and gadget parameters, all zero, in which no two parts share memory; generated and encrypted objects have the same shape.",
  ["inputs", "configurations"], "all constructors of the single- and multi-key packages with generated parameter sets, dimensions and distinct gadgets per part",
  "Tests build objects of one shape, where confused dimensions or gadgets often coincide.",
  [T + "lwe.go", T + "glwe.go", T + "fft_glwe.go", T + "bootstrap_key.go", T + "keyswitch_key.go", M + "glwe.go", M + "bootstrap_key.go"],
  [("nested allocation", T + "glwe.go"), ("parts of the evaluation keys", M + "bootstrap_key.go")],
  "property-based testing against a written shape", "Capacity beyond the length is not judged. " + TRUST)

P("C54", "Objects built separately share no hidden state",
  "Goroutines that each create parameters, keys, samplers, encryptors, evaluators and ciphertexts of their own, use them and write and read them in binary form, compute exactly what each would compute alone, without a data race, although their parameters may be the same and nothing was built before.",
  ["schedules", "inputs"], "2 to 8 goroutines, each with drawn parameters and work (operations of 17 types, key generation and reading, samplers, public and multi-key encryption, mathematical packages at ring degrees up to 4096, binary forms of 25 types), of one kind or mixed, with and without the race detector",
  "Tests build everything in one goroutine; caches, pools and scratch space common to all objects work there.",
  ["math/poly/poly_evaluator.go", "math/csprng/uniform_sampler.go", "math/vec/vec.go", T + "encryptor.go", T + "evaluator.go", T + "decomposer.go", T + "lwe_marshal.go", M + "encryptor.go", X + "sanitization_sampler.go", X + "bfv_keygen.go", X + "manylut_evaluator.go"],
  [("tables and buffers made by each evaluator", "math/poly/poly_evaluator.go"), ("samplers made by each encryptor", T + "encryptor.go"), ("buffers of binary forms", T + "lwe_marshal.go")],
  "stateful concurrent testing against sequential results, under the Go race detector", "Schedules are those the Go scheduler produces (the race detector reports unordered accesses whether or not they collide); races on state that is filled once are seen only when the first uses of one process coincide, so every shard starts anew. " + TRUST)


def outputs():
    claimed = [p for p in PROPS]
    lines = []
    for p in claimed:
        lines.append(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"] or ["public API results"], hook_needed=None))))
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
               notes="No hooks: every check drives the public API of /repo's working tree.")
    for p in claimed:
        man["checks"].append(dict(
            property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
            thorough_cmd="python3 check.py %s --thorough" % p["id"],
            technique=p["tech"], level="exploration", level_note=p["note"].strip()))
    return "\n".join(lines) + "\n", json.dumps(man, indent=1) + "\n"


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    from checks import CHECKS
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids) and set(ids) == set(CHECKS), set(ids) ^ set(CHECKS)
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        for f in p["files"] + [w for _, w in p["mech"]]:
            assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
    a, b = outputs()
    open(os.path.join(VERIF, "properties.jsonl"), "w").write(a)
    open(os.path.join(VERIF, "MANIFEST.json"), "w").write(b)
