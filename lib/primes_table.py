"""Moduli of the predefined fields, as published (SEC 2, FIPS 186-4, RFC 7748/8032, GM/T 0003, the zkcrypto/libff/Zcash/Mina parameter documents)."""
P = {}
_fq381 = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
_fr381 = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
x = -0xd201000000010000
assert _fr381 == x**4 - x**2 + 1 and _fq381 == (x - 1)**2 * _fr381 // 3 + x
P["bls12_381_fq"], P["bls12_381_fr"], P["jubjub_fq"] = _fq381, _fr381, _fr381
x = 0x8508c00000000001
P["bls12_377_fr"] = x**4 - x**2 + 1
P["bls12_377_fq"] = (x - 1)**2 * (x**4 - x**2 + 1) // 3 + x
P["jubjub_fr"] = 0x0e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7
x = 4965661367192848881
_p, _r = 36*x**4 + 36*x**3 + 24*x**2 + 6*x + 1, 36*x**4 + 36*x**3 + 18*x**2 + 6*x + 1
P["alt_bn128_fq"], P["alt_bn128_fr"], P["babyjubjub_fq"] = _p, _r, _r
P["bn128_fq"], P["bn128_fr"] = _p, _r
P["babyjubjub_fr"] = 2736030358979909402780800718157159386076813972158567259200215660948447373041
P["mnt4_fq"] = P["mnt6_fr"] = 475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081
P["mnt6_fq"] = P["mnt4_fr"] = 475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137
P["edwards_fq"] = 6210044120409721004947206240885978274523751269793792001
P["edwards_fr"] = 1552511030102430251236801561344621993261920897571225601
P["goldilocks64"] = 2**64 - 2**32 + 1
P["maxprime64"] = 2**64 - 59
P["pallas_fq"] = P["vesta_fr"] = 0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001
P["vesta_fq"] = P["pallas_fr"] = 0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001
P["curve25519_fq"] = 2**255 - 19
P["curve25519_fr"] = 2**252 + 27742317777372353535851937790883648493
P["secp160k1_fq"] = 2**160 - 2**32 - 0x538d
P["secp160k1_fr"] = 0x0100000000000000000001b8fa16dfab9aca16b6b3
P["secp192k1_fq"] = 2**192 - 2**32 - 0x11c9
P["secp192k1_fr"] = 0xfffffffffffffffffffffffe26f2fc170f69466a74defd8d
P["secp224k1_fq"] = 2**224 - 2**32 - 0x1a93
P["secp224k1_fr"] = 0x010000000000000000000000000001dce8d2ec6184caf0a971769fb1f7
P["secp256k1_fq"] = 2**256 - 2**32 - 977
P["secp256k1_fr"] = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
P["secp160r1_fq"] = 2**160 - 2**31 - 1
P["secp160r1_fr"] = 0x0100000000000000000001f4c8f927aed3ca752257
P["secp192r1_fq"] = 2**192 - 2**64 - 1
P["secp192r1_fr"] = 0xffffffffffffffffffffffff99def836146bc9b1b4d22831
P["secp224r1_fq"] = 2**224 - 2**96 + 1
P["secp224r1_fr"] = 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d
P["secp256r1_fq"] = 2**256 - 2**224 + 2**192 + 2**96 - 1
P["secp256r1_fr"] = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
P["secp384r1_fq"] = 2**384 - 2**128 - 2**96 + 2**32 - 1
P["secp384r1_fr"] = 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973
P["secp521r1_fq"] = 2**521 - 1
P["secp521r1_fr"] = 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409
P["gost_A_fq"] = 2**256 - 617
P["gost_A_fr"] = 0xffffffffffffffffffffffffffffffff6c611070995ad10045841b09b761b893
P["sm2p_fq"] = 2**256 - 2**224 - 2**96 + 2**64 - 1
P["sm2p_fr"] = 0xfffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123
P["frp_fr"] = 0xf1fd178c0b3ad58f10126de8ce42435b53dc67e140d2bf941ffdd459c6d655e1
P["sect163k1_fr"] = 0x04000000000000000000020108a2e0cc0d99f8a5ef

P["dsa_jce_1024"] = 0xfd7f53811d75122952df4a9c2eece4e7f611b7523cef4400c31e3f80b6512669455d402251fb593d8d58fabfc5f5ba30f6cb9b556cd7813b801d346ff26660b76b9950a5a49f9fe8047b1022c24fbba9d7feb7c61bf83b57e7c6a8a6150f04fb83f6d3c51ec3023554135a169132f675f3ae2b61d72aeff22203199dd14801c7
P["srp_1024"] = 0xeeaf0ab9adb38dd69c33f80afa8fc5e86072618775ff3c0b9ea2314c9c256576d674df7496ea81d3383b4813d692c6e0e0d5d8e250b98be48e495c1d6089dad15dc7d7b46154d6b6ce8ef4ad69b15d4982559b297bcf1885c529f566660e57ec68edbc3c05726cc02fd4cbf4976eaa9afd5138fe8376435b9fc61d2fc0eb06e3
P["dsa_botan_2048"] = 0x91c48a4fdfbcf7c02ae95e7da126122b5dd2864f559b87e8e74a286d52f59bd1de68dfd645d0e00c60c080031891980374eeb594a532bfd67b9a09eac4b8663a07910e68f39465fb7040d25df13932ebac4347a530ecba61c854f9b880d3c0c3660080587c45566dade26bd5a394be093b4c0f24b5affef8ec6c5b3e57fb89025a9bc16769932131e16d3c94efcab18d0df061203cc53e6103bc72d5594bfd40ca65380f44a9a851dcb075495fc033a8a58071a1bd78fe052f66555648eb4b719d2afe8b4880f8dad6f15818ba178f89274c870be9b96eb08c46c40040cc2efe1dfb1b1868dd319de3c34a32a63ab6eb1224209a419680cc7902d1728d4df9e1


def is_prime(n, rounds=24):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    import random
    r = random.Random(n)
    for i in range(rounds):
        a = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)[i] if i < 12 else r.randrange(2, n - 1)
        y = pow(a, d, n)
        if y in (1, n - 1):
            continue
        for _ in range(s - 1):
            y = y * y % n
            if y == n - 1:
                break
        else:
            return False
    return True
