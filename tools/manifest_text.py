NA = {}
NOTES = ("No hooks: every monitor sits at the library's public interface. The repository needs Boost.Multiprecision headers that are not in the "
         "sandbox; /verif/shim is a constexpr stand-in, checked against Python integers by bin/setup.py.")
SAN = "Every execution runs under AddressSanitizer and UndefinedBehaviorSanitizer. "
A = "Held on the executions counted in the evidence; nothing is claimed for inputs not generated. "
def c(i, tech, note):
    TECH[i] = tech
    NOTE[i] = A + note
c("C01", "runtime reference-model monitor + ASan/UBSan", SAN + "Trusts the plain-array reference model in the harness.")
c("C02", "runtime reference-model monitor + ASan/UBSan and valgrind memcheck", SAN + "Trusts the plain-array reference model in the harness.")
c("C03", "runtime reference-model monitor + ASan/UBSan", SAN + "Trusts the plain-array reference model; floating-point sums on exactly representable values.")
c("C04", "runtime invariant monitor (defining equations) + ASan/UBSan", SAN + "Trusts exact rational elimination in the harness; tolerances scale with the matrix.")
c("C05", "runtime monitor vs long double libm + ASan/UBSan + CPU watchdog", SAN + "Trusts glibc long double functions; nthroot degrees 1..1000.")

c("C07", "runtime monitoring: exhaustive/seeded executions of the element template under ASan+UBSan and valgrind memcheck, judged in process and by an offline oracle over recorded operations",
  "Ten tiny primes exhaustively (every pair, every operator) plus 52 predefined fields traced and judged against integers modulo an independent table of published moduli.")
c("C08", "runtime monitoring: tower operations executed under ASan+UBSan and valgrind memcheck, judged by naive polynomial arithmetic in process and offline over recorded operations",
  "All element templates over tiny primes (exhaustive where small), including the special sparse products; the seven predefined towers traced.")
c("C09", "runtime monitoring: Frobenius and cyclotomic operations executed under ASan+UBSan and valgrind memcheck, judged by repeated p-th powers in process and offline over recorded operations",
  "Powers 0..2k+1 over tiny and predefined towers; cyclotomic squaring/exponentiation on cyclotomic elements only.")
c("C10", "runtime monitoring: sqrt/is_square executed under ASan+UBSan and valgrind memcheck with a hang watchdog, judged exhaustively in process and offline by Euler's criterion and norms",
  "Every element of tiny fields; seeded squares and arbitrary elements of the predefined fields, fp2 and fp3.")
c("C12", "runtime monitoring: exhaustive executions of the point classes over tiny curves under ASan+UBSan and valgrind memcheck, judged by a naive model of the group; recorded operations on the predefined curves judged offline",
  "All six short Weierstrass coordinate systems; every pair of points including identity, equal, opposite and order-two points, in varied representatives.")
c("C13", "runtime monitoring: exhaustive executions of the point classes over tiny curves under ASan+UBSan and valgrind memcheck, judged by the naive unified law; recorded operations on the predefined curves judged offline",
  "Affine, extended, inverted (twisted and plain) Edwards and Montgomery classes.")
c("C14", "runtime monitoring: every conversion executed under ASan+UBSan and valgrind memcheck over tiny curves exhaustively and on the predefined curves, judged in process and offline by the affine points before and after",
  "Where the birational map is undefined nothing is claimed.")
c("C15", "runtime monitoring: predicates executed under ASan+UBSan and valgrind memcheck over every coordinate tuple of tiny curves and on perturbed points of the predefined curves, judged against the curve equation",
  "Tuples that represent no point are not judged.")
c("C16", "runtime monitoring: constants recorded from the running types and judged offline against published values and by naive group arithmetic",
  "Every predefined group in every coordinate system that compiles.")
c("C17", "runtime monitoring: scalar multiplications executed under ASan+UBSan and valgrind memcheck, judged in process over tiny curves by repeated addition and offline on the predefined curves",
  "All scalars up to past the order on tiny groups; special and seeded scalars on the predefined ones. subgroup_check on tiny groups (no predefined curve has the member it reads).")
c("C20", "runtime monitoring: every policy executed under ASan+UBSan and valgrind memcheck over Z_q, tiny curves and predefined curves, judged against the naive sum in process and offline",
  "Lists up to 1000 entries (20000 thorough). USE_MIXED_ADDITION does not compile upstream and is not covered.")
c("C21", "runtime monitoring: wNAF and window exponentiation executed under ASan+UBSan and valgrind memcheck over Z_q, tiny curves and predefined curves, judged against scalar*base in process and offline",
  "find_wnaf itself belongs to the multiprecision library and is part of the stand-in.")
c("C18", "runtime monitoring: pairings executed under ASan+UBSan, relations between their values judged in process",
  "bls12-381, mnt4-298, mnt6-298 and edwards-183: the pairings that can be instantiated. bls12-377 has no pairing policy upstream and alt_bn128's does not compile.")
c("C19", "runtime monitoring: pairing stages executed under ASan+UBSan and valgrind memcheck, compositions judged in process and final exponentiations judged offline as exact powers over Python integers",
  "Same four pairings as C18; affine and Tate variants do not compile upstream and are not reachable from the pairing policies.")
c("C22", "runtime monitoring: map-to-curve executed under ASan+UBSan and valgrind memcheck, judged in process over tiny fields and offline against RFC 9380 over Python integers",
  "The offline reference reproduces the RFC's hash_to_curve vectors on every run. hash_to_field and cofactor clearing are not in this repository.")
c("C11", "runtime monitoring: constants recorded from the running types (built with ASan+UBSan) and judged offline against their definitions and the published moduli",
  "All fields, arithmetic parameters and towers that compile; brainpool_r1, x962_p, secp k1 sect base fields, frp_v1 base and the dsa arithmetic parameters do not.")
c("C23", "runtime monitoring: encoders and decoders executed under ASan+UBSan and valgrind memcheck on valid and malformed bytes, recorded and judged offline against the published format over Python integers",
  "bls12-381 points through both entry points, and bincode field elements. Non-subgroup points may be accepted or rejected. Values above the bit length of a modulus are not generated.")
c("C24", "runtime monitoring: seeded draws executed under ASan+UBSan, frequencies judged by chi-square and worst-cell tests in process, points judged offline for membership",
  "Biases below the resolution of the sample size are not seen.")
c("C25", "runtime monitoring: helpers executed under ASan+UBSan with a CPU watchdog, judged against a sieve and constructed factorisations",
  "Run over Boost.Multiprecision integers; residues with a run-time modulus are a stand-in.")
c("C26", "runtime monitoring: helpers executed under ASan+UBSan over many lengths, widths and aliasings, judged against arithmetic by definition",
  "The rejection of unequal values by all_same_value is observed through the compiler.")
c("C27", "runtime monitoring: trait values recorded from a running program over a catalogue of library, standard and lookalike types, judged against the catalogue",
  "Traits are compile-time values; the monitor observes what the compiled program got. is_curve is judged for curves with both groups.")
c("C28", "runtime monitoring: an offline JSON checker over recorded hashes and printed forms of elements, points and precomputations; ASan+UBSan and valgrind memcheck",
  "Elements of tiny fields exhaustively, each produced by several histories, predefined ones seeded; everything printed is parsed and every coordinate compared with the value.")
c("C29", "ThreadSanitizer on concurrent use of shared constant inputs, with every thread's results compared to a single thread's",
  "About 400 operations across linear algebra, fields, curves, sums, pairings, serialisation and number theory, at first use together and mixed; evidence counts operation pairs seen in flight together.")
c("C06", "runtime monitoring: one expression evaluated by the compiler and by the running program under ASan+UBSan, compared bit for bit; the compilers' constant evaluators act as UB monitors",
  "Two compilers, -O0 and -O2 (all levels and more seeds in the thorough tier). An expression that stops being a constant expression fails to compile and is reported as a violation.")
