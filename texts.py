"""Per property: rule (evidence), technique / level / note (MANIFEST.json), assumptions (evidence)."""
REF = "independent GMP reference model (lib/ref.hpp: Weierstrass curves, one-step Velu isogenies, canonical models by root finding, own Keccak)"
BASE = ["the reference model lib/ref.hpp is right (it shares no formulas with the code, and agrees with it on every accepted case)", "compilers, GMP and the CPU are right",
        "entropy is supplied by the harness; repetition counts are reduced with -DPOIK_VERIF_REPS where stated in the variant"]
KEM = ["the reference model lib/ref.hpp / lib/refsidh.hpp is right", "compilers, GMP and the CPU are right", "entropy is supplied by the harness"]
T = {
 "C01": dict(
  technique="property-based testing: generated starting curves, models and chain lengths, proofs judged by an independent reference verifier",
  rule="a case is a starting curve (small, CM, random supersingular; any of its six Montgomery models), an entropy seed and a chain of 1-3 provers; every link is generated, proved, verified by the code and by the reference, and its named curves compared with the reference's canonical models; honest_full does the same once for the published number of repetitions. Non-trivial: at least one complete proof was made and judged; distinct by choice tape.",
  note="Sampled starting curves/entropy for all four sizes and both backends; a violation on an unsampled curve is possible. Oracle: " + REF + ".", assumptions=BASE),
 "C02": dict(
  technique="property-based testing with adaptive forging: generated flawed and honest chains against a reference verifier, one-repetition builds",
  rule="a case is a response chain with a flaw of a generated kind (order too small by 1..e, off-curve, twist, wrong torsion, small subgroup, backtracking of generated depth incl. skipping steps, non-canonical model, cofactor components ...) at a generated step and side; free values (hiding bytes, opaque commitments) are retried until the challenge equals the tag, so only the chain checks can reject it. chain_honest cases use any generator of the kernels. The verdict must equal the reference's. Non-trivial: the flaw (or re-randomisation) took effect, as judged by the reference.",
  note="Sampled flaws over every step, side and depth class for all sizes; oracle: " + REF + ". One repetition per proof makes the forging search cheap.", assumptions=BASE),
 "C03": dict(
  technique="property-based testing: splicing/mutation of reference-made valid proofs, verdict compared with a reference verifier",
  rule="a case takes a proof assembled by the reference prover from a pool of instances with fresh hiding values and swaps/flips/reuses/reorders a generated field (curve, commitment, hiding value, chain entry, tag), or varies free values and compares each of 12 decisions; reps 1,2,6,11 and the published number. Non-trivial: the altered proof differs from the valid one (or the digit decision was exercised).",
  note="Sampled alterations in every field class and position class; oracle: " + REF + " including challenge expansion by rejection sampling.", assumptions=BASE),
 "C04": dict(
  technique="property-based testing: generated ordinary/supersingular/singular curves in every position, compared with a reference supersingularity decision",
  rule="a case is a curve of one of nine kinds (ordinary CM, supersingular CM, random, singular nodal, twisted-torsion, near-valid ...) offered as starting curve, proof end and intermediate curve with several entropy streams; accept/reject must equal the reference decision. Non-trivial: every case (both classes reported under classes).",
  note="Sampled curves; reference decides supersingularity by three random points killed by p+1 (error < 2^-200).", assumptions=BASE),
 "C05": dict(
  technique="property-based testing: invariants over generated proofs with recorded/steered entropy (freshness, direction coverage, re-randomisation via discrete logs)",
  rule="a case generates a secret and proofs with recorded entropy; all hiding values must be verbatim fresh entropy and pairwise distinct, no secret value (in any model) may appear, revealed 3-chains must cover all directions, bottom generators must be independent random multiples of the image of the secret's generator (computed by answering the same repetition twice under steered entropy and solving the 2-power discrete log; no run of bits of those multiples may be constant over the answers collected), the entropy consumed must cover the hiding values and all column directions. Non-trivial: at least one repetition of the examined kind was revealed.",
  note="Statistical thresholds are set so that a false alarm has probability below 2^-40 per run; distributional bias below those thresholds is not seen.", assumptions=BASE),
 "C06": dict(
  technique="property-based testing: generated curves and entropy, each secret checked step by step by the reference; direction coverage over many secrets",
  rule="a case is a valid curve in any model and several entropy streams; each secret is checked (start, exact order of each kernel, codomains, no backtracking), regenerated from equal entropy, and compared across entropy; secret_directions draws 72 secrets per curve and demands that all first/next directions and independent bits occur; secret_entropy resamples each entropy request alone and demands that the requests which decide the secret carry enough bits for all walks. Non-trivial: every secret passed through the reference walk.",
  note="Sampled curves/entropy for all sizes; coverage thresholds have false-alarm probability below 2^-40.", assumptions=BASE),
 "C07": dict(
  technique="fuzzing and property-based testing: round trips, grammar-aware mutation, truncation at every point and write-fault injection under ASan/UBSan, judged by a reference grammar",
  rule="a case is a random proof (arbitrary bytes) written, read back, mutated 1-6 times (characters, lines, separators, prefixes, tags, lengths, whitespace, case), truncated, replaced by random tokens, or written to a sink failing at a generated write; a reference reader for the documented grammar says whether the text must be accepted and as what. Non-trivial: mutated text differs from the original / sink failed / truncated.",
  note="Texts outside the documented grammar but unspecified (e.g. missing separators, trailing text) only have to be handled safely. Sanitizers abort on any out-of-bounds access.", assumptions=BASE),
 "C08": dict(level="fault_enumeration",
  technique="property-based testing of the tools as processes with generated inputs and enumerated output faults, expected status/output from the reference",
  rule="a case runs prove or verify as a process on a generated input (valid/invalid/mutated proof or curve, pipes in pieces, closed or broken stdin, full/closed stderr) or with an output sink that fails (full device, closed pipe, size limit at a generated byte, late close, one generated write of the output stream failing once under a generated buffering mode); exit status and stdout must be what the reference says. Non-trivial: every case.",
  note="Output faults: /dev/full, closed descriptor, broken pipe, RLIMIT_FSIZE at generated offsets, non-blocking pipe, one write of stdout failing once (stream substituted by lib/glue_stdout.c). Oracle: reference verifier/grammar.", assumptions=BASE + ["the tools are compiled with the flags of check.py, not the Makefile's"]),
 "C09": dict(
  technique="property-based testing over schedules: controlled worker counts, injected delays, flaws at every position, ThreadSanitizer builds",
  rule="a case chooses worker count (1..64, incl. more than repetitions), start-up delays and entropy delays, progress reporting on/off, and a flawed repetition at a generated position (all positions over a run); verdict must equal the reference's and no worker may outlive the call. TSan variants report data races. Non-trivial: every case.",
  note="Schedules are perturbed, not enumerated; ThreadSanitizer finds races on executed paths independent of timing.", assumptions=BASE),
 "C10": dict(level="fault_enumeration",
  technique="fault injection: entropy source failing at every request of every operation (property-based histories), plus model-based testing of the system source with short/interrupted reads",
  rule="a case counts the entropy requests of an operation, then re-runs it with a failure at the k-th request (once or for good, with or without partial garbage) for every k (KEM) or generated k (proof functions, in a child process); success must never be reported. ent_source drives randombytes with replaced open/read/close, also while a second thread opens the source first. Non-trivial: the injected failure was reached.",
  note="Every request index is enumerated for key exchange and KEM; for the proof functions indices are sampled including first/last.", assumptions=KEM),
 "C15": dict(
  technique="property-based testing: generated lengths, contents, alignments and block splits, differential against an independent Keccak",
  rule="a case hashes a generated input (lengths around 0, 8, rate multiples, 2^16; constant/counting/random content; all alignments) to a generated output length between guard bytes, or splits the block stream into generated requests; shake_every covers every input and output length 0..639; shake_huge uses buffers beyond 2^32 bytes (a small file mapped repeatedly). Non-trivial: some output was requested and compared.",
  note="Every length 0..639 as input and output in each run, sampled beyond; both backends' builds and an ASan/UBSan build. Oracle: own Keccak in lib/ref.hpp.", assumptions=KEM),
 "C11": dict(
  technique="property-based testing: structured, related and target-directed operands, differential against GMP",
  rule="a case is one call of a field or multiprecision function (fp/fp2 add, sub, neg, half, mul, sqr, inverse, conversion, correction, square test/root, word add/sub/mul/reduction, constant-time compare/move, arithmetic modulo the group orders) on generated operands: values near 0, p, 2p, powers of two, all-ones runs, limb patterns, the second operand often chosen so that sums/differences/products hit a boundary; output separate or over an operand. Result must be congruent to GMP's, in the documented range, with guards and other operands untouched. Non-trivial: the function was exported and called; distinct by function, operands and overlap.",
  note="Carry chains of probability 2^-64 are reached by construction (limb patterns, related operands), not enumerated. All four primes; assembly (ADX; for 751 also MULX-only and plain) and portable backend; a function that is no longer exported is skipped and shows up in the class list. Negating zero may give 2p.", assumptions=["GMP and the compilers are right", "functions are called with operands in their documented ranges; fp2 multiplication/squaring also with the unreduced sums (< 4p) the isogeny formulas pass"]),
 "C12": dict(
  technique="property-based testing: structured private keys, differential against an independent isogeny implementation (Weierstrass/Velu over GMP)",
  rule="a case is a pair of private keys (0..16, near the maximum, one bit, runs, word and byte patterns, multiples of 2^k and 3^k, random; all combinations of kinds) for which both public keys, both shared secrets and the reduced encodings are compared with the reference computation from the published basis; key_range scripts the entropy (constant, one bit, random) and compares the private key. Non-trivial: every case.",
  note="Oracle: reference isogeny from the published basis points (data/basis.txt), public keys compared up to isomorphism of the codomain, secret compared exactly.", assumptions=KEM),
 "C13": dict(
  technique="property-based testing and fuzzing: generated keys, seeds, messages and ciphertext alterations, exact reference model of the KEM",
  rule="a case makes a key pair and ciphertext from chosen entropy (structured seeds, secrets and messages), checks every part against the specification computed with reference isogenies and reference SHAKE, and decapsulates: the honest ciphertext, every byte position with a flipped bit, and 14 kinds of alteration (non-reduced coordinates, shifted/multiplied/exchanged points with the same kernel, isomorphic curves, wrong orders, special elements, other ephemeral keys for the same message, changed mask, arbitrary bytes, another key's ciphertext). Expected secret: H(m,ct), or H(s,ct) for anything altered. Non-trivial: the ciphertext was altered, or an honest round trip.",
  note="Alterations with the same kernel are the ones that only the re-encryption check can reject.", assumptions=KEM),
 "C14": dict(
  technique="property-based testing and fuzzing of the compressed variants: structured keys, reference j-invariant, exact reference model of rejection",
  rule="as C12 and C13 for the compressed library: key pairs (A even, B a multiple of 3, incl. keys whose torsion-basis index lies beyond the precomputed tables), curve in the public key and secret compared with the reference; ciphertext alterations include scalars changed without moving the kernel for this private key, negated/multiplied/exchanged scalars, ignored bits, non-reduced curve, other basis index, special curves and scalars. Non-trivial: the ciphertext was altered, or an honest round trip.",
  note="Rare keys (probability 2^-17) come from a committed list found by search (data/corner_comp.txt).", assumptions=KEM),
 "C16": dict(
  technique="property-based differential testing: assembly against portable build on generated keys, coins, honest and altered data",
  rule="a case draws private keys / entropy (random, constant, one bit, zero or one runs), runs key generation, agreement, KEM operations of the plain and compressed library in both builds with honest and with altered public keys and ciphertexts and compares every output byte; backend_proofs compares secrets, proofs (same entropy) and verdicts on honest and altered proofs. Non-trivial: every case.",
  note="Assembly with ADX against portable code for all sizes; for 751 also the MULX-only and the plain assembly.", assumptions=KEM),
 "C18": dict(
  technique="fuzzing: stateful call sequences on arbitrary bytes under ASan/UBSan, purity oracle by re-running in another order",
  rule="a case is a generated sequence of 2-7 public calls (key generation, agreement, KEM; or Generate, Prove, Verify, Parse, Dump) whose arguments are arbitrary bytes or damaged results of earlier calls, in exactly sized heap blocks; the sequence is run, then every call again in another order with the same entropy: results must be identical, inputs unchanged, no sanitizer report. Non-trivial: every case.",
  note="Private keys are arbitrary bytes here (also outside their range). Out-of-bounds accesses inside assembly are only seen through their effects.", assumptions=KEM),
 "C17": dict(
  technique="property-based testing of traces: the instrumented library (every basic block, load and store) run with pairs of generated secrets, metamorphic oracle: equal traces",
  rule="a case chooses an operation (key generation and agreement of both sides, KEM key generation, encapsulation, decapsulation) and two secrets (random, constant, one bit, zero tails) for the same public input; decapsulation pairs include accepted/rejected, other private seed, altered mask. The sequences of executed blocks and accessed addresses must be equal. Non-trivial: the secrets differ.",
  note="Traces of C code compiled by clang -O1; assembly routines are opaque (they are straight-line) but their C counterparts are traced in the portable build. The compressed variants are run too and their known dependence on secrets is reported as KNOWN-FINDING. Only data-dependent timing of single instructions is not seen.", assumptions=KEM + ["clang's instrumentation reports every block, load and store it compiles"]),
 "C19": dict(
  technique="property-based testing of concurrent call histories: generated programs per thread, oracle: each call's result when run alone; ThreadSanitizer",
  rule="a case draws 2-4 threads and 1-3 public calls each (private keys, key generation, agreement, KEM key generation, encapsulation, decapsulation of honest and altered ciphertexts; or Generate, Prove, Verify of valid and flawed proofs), all of one kind or mixed, with small start delays; every call is run alone with its own deterministic entropy and then all threads run at once: every result must be byte-identical to the one it had alone (proofs made with worker threads: must verify), and ThreadSanitizer builds must report no race. Non-trivial: at least two threads.",
  note="The progress indicator is off (it is one global stream by design). Assembly is not instrumented by ThreadSanitizer; shared state there is seen through results.", assumptions=KEM),
 "C20": dict(
  technique="property-based differential testing of the Sage script as a process: generated valid and flawed proofs, verdict and output compared with the reference verifier and the C verifier",
  rule="a case is a proof in the documented text form: chains of a correct or flawed response with free values chosen so that the challenge fits if the flaw goes unnoticed (low order, backtracking, extra torsion, off curve, other model, skipped or repeated step), small proofs with altered hiding values, commitments, challenges, curves, missing or unreadable lines, and full-length proofs under the script's own parameter table. The script must exit 0 and print the proof's two curves exactly when the protocol is satisfied, otherwise exit non-zero and print nothing. Non-trivial: the script gave a verdict (runs that need parts of Sage this environment does not offer make no statement and are labelled).",
  note="Sage is not installed here: the script runs unchanged (apart from the number of repetitions per proof, except in full-length cases) on sage/shim.py, a small exact re-implementation of the Sage features it uses (finite field, curves, isogenies, SHAKE, preparser). A change that uses other parts of Sage is not judged.", assumptions=BASE + ["sage/shim.py behaves like Sage for the features the script uses"]),
}
