import os
import vf
INC = [os.path.join(vf.VERIF, "harness", "stubs_primes")]
def units(tier):
    return [vf.Unit("primes_" + t, "c25_primes.cpp", ["PART=%d" % i], shim=False, inc=INC, libs=["-lboost_random"]) for i, t in enumerate(("cpp_int", "uint512", "uint128"))]
def run():
    return vf.main("C25", units, "prime_factorize, totient and totient_list of every small argument against a sieve, of constructed composites (prime powers, semiprimes, Carmichael numbers, pseudoprimes) against their "
                   "factors, of smooth numbers that fill the width of the type; first/next/previous_prime against trial division and, beyond 64 bits, Fermat tests; a CPU budget per call decides termination; non-trivial: more than one prime factor, or a prime search",
                   exhaustive="all arguments up to 3000 (60000 in the thorough tier)",
                   assumptions=["integers and the primality test are Boost.Multiprecision's; residues with a run-time modulus are a stand-in whose gcd is a divisor of the modulus"])
