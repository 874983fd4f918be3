"""The predefined curves: model, field, coefficients (a, b | a, d | A, B), generator and prime order of the group it generates."""
# name: (model, (prime or tower, field), first coefficient, second coefficient, generator x, y, order), hexadecimal; extension coordinates comma separated
CURVES = {
    "bls12_381_g1": ("weierstrass", ('bls12_381_fq', 'fp'),
        "0",
        "4",
        "17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb",
        "8b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1",
        "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
    "bls12_381_g2": ("weierstrass", ('bls12_381', 'fp2'),
        "0,0",
        "4,4",
        "24aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e",
        "ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be",
        "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
    "bls12_377_g1": ("weierstrass", ('bls12_377_fq', 'fp'),
        "0",
        "1",
        "8848defe740a67c8fc6225bf87ff5485951e2caa9d41bb188282c8bd37cb5cd5481512ffcd394eeab9b16eb21be9ef",
        "1914a69c5102eff1f674f5d30afeec4bd7fb348ca3e52d96d182ad44fb82305c2fe3d3634a9591afd82de55559c8ea6",
        "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001"),
    "bls12_377_g2": ("weierstrass", ('bls12_377', 'fp2'),
        "0,0",
        "0,10222f6db0fd6f343bd03737460c589dc7b4f91cd5fd889129207b63c6bf8000dd39e5c1ccccccd1c9ed9999999999a",
        "b997fef930828fe1b9e6a1707b8aa508a3dbfd7fe2246499c709226a0a6fef49f85b3a375363f4f8f6ea3fbd159f8a,d6ac33b84947d9845f81a57a136bfa326e915fabc8cd6a57ff133b42d00f62e4e1af460228cd5184deae976fa62596",
        "118dd509b2e9a13744a507d515a595dbb7e3b63df568866473790184bdf83636c94df2b7a962cb2af4337f07cb7e622,185067c6ca76d992f064a432bd9f9be832b0cac2d824d0518f77d39e76c3e146afb825f2092218d038867d7f337a010",
        "12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001"),
    "alt_bn128_g1": ("weierstrass", ('alt_bn128_fq', 'fp'),
        "0",
        "3",
        "1",
        "2",
        "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001"),
    "alt_bn128_g2": ("weierstrass", ('alt_bn128', 'fp2'),
        "0,0",
        "2b149d40ceb8aaae81be18991be06ac3b5b4c5e559dbefa33267e6dc24a138e5,9713b03af0fed4cd2cafadeed8fdf4a74fa084e52d1852e4a2bd0685c315d2",
        "1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed,198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2",
        "12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa,90689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b",
        "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001"),
    "mnt4_g1": ("weierstrass", ('mnt4_fq', 'fp'),
        "2",
        "3545a27639415585ea4d523234fc3edd2a2070a085c7b980f4e9cd21a515d4b0ef528ec0fd5",
        "7a2caf82a1ba85213fe6ca3875aee86aba8f73d69060c4079492b948dea216b5b9c8d2af46",
        "2db619461cc82672f7f159fec2e89d0148dcc9862d36778c1afd96a71e29cba48e710a48ab2",
        "3bcf7bcd473a266249da7b0548ecaeec9635cf44194fb494c07925d6ad3bb4334a400000001"),
    "mnt4_g2": ("weierstrass", ('mnt4', 'fp2'),
        "22,0",
        "0,87788d2a0ee6e223b5540063ee1ecd2ff0038ab06a5c24b1b1a912ec4d6a3b6efb12b30d16",
        "371780491c5660571ff542f2ef89001f205151e12a72cb14f01a931e72dba7903df6c09a9a4,4ba59a3f72da165def838081af697c851f002f576303302bb6c02c712c968be32c0ae0a989",
        "4b471f33ffaad868a1c47d6605d31e5c4b3b2e0b60ec98f0f610a5aafd0d9522bca4e79f22,355d05a1c69a5031f3f81a5c100cb7d982f78ec9cfc3b5168ed8d75c7c484fb61a3cbf0e0f1",
        "3bcf7bcd473a266249da7b0548ecaeec9635cf44194fb494c07925d6ad3bb4334a400000001"),
    "mnt6_g1": ("weierstrass", ('mnt6_fq', 'fp'),
        "b",
        "d68c7b1dc5dd042e957b71c44d3d6c24e683fc09b420b1a2d263fde47ddba59463d0c65282",
        "2a4feee24fd2c69d1d90471b2ba61ed56f9bad79b57e0b4c671392584bdadebc01abbc0447d",
        "32986c245f6db2f82f4e037bf7afd69cbfcbff07fc25d71e9c75e1b97208a333d73d91d3028",
        "3bcf7bcd473a266249da7b0548ecaeec9635d1330ea41a9e35e51200e12c90cd65a71660001"),
    "mnt6_g2": ("weierstrass", ('mnt6', 'fp3'),
        "0,0,b",
        "73c6aac069aeaec44dc18880f3682def1d36f7eeefa82ee21461980ba18ef8b14f13df9c89,0,0",
        "34f7320a12b56ce532bccb3b44902cbaa723cd60035ada7404b743ad2e644ad76257e4c6813,cf41620baa52eec50e61a70ab5b45f681952e0109340fec84f1b2890aba9b15cac5a0c80fa,11f99170e10e326433cccb8032fb48007ca3c4e105cf31b056ac767e2cb01258391bd4917ce",
        "3a65968f03cc64d62ad05c79c415e07ebd38b363ec48309487c0b83e1717a582c1b60fecc91,ca5e8427e5db1506c1a24cefc2451ab3accaea5db82dcb0c7117cc74402faa5b2c37685c6e,f75d2dd88302c9a4ef941307629a1b3e197277d83abb715f647c2e55a27baf782f5c60e7f7",
        "3bcf7bcd473a266249da7b0548ecaeec9635d1330ea41a9e35e51200e12c90cd65a71660001"),
    "pallas": ("weierstrass", ('pallas_fq', 'fp'),
        "0",
        "5",
        "40000000000000000000000000000000224698fc094cf91b992d30ed00000000",
        "2",
        "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"),
    "vesta": ("weierstrass", ('vesta_fq', 'fp'),
        "0",
        "5",
        "40000000000000000000000000000000224698fc0994a8dd8c46eb2100000000",
        "2",
        "40000000000000000000000000000000224698fc094cf91b992d30ed00000001"),
    "secp160k1": ("weierstrass", ('secp160k1_fq', 'fp'),
        "0",
        "7",
        "3b4c382ce37aa192a4019e763036f4f5dd4d7ebb",
        "938cf935318fdced6bc28286531733c3f03c4fee",
        "100000000000000000001b8fa16dfab9aca16b6b3"),
    "secp192k1": ("weierstrass", ('secp192k1_fq', 'fp'),
        "0",
        "3",
        "db4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d",
        "9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d",
        "fffffffffffffffffffffffe26f2fc170f69466a74defd8d"),
    "secp224k1": ("weierstrass", ('secp224k1_fq', 'fp'),
        "0",
        "5",
        "a1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c",
        "7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5",
        "10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7"),
    "secp256k1": ("weierstrass", ('secp256k1_fq', 'fp'),
        "0",
        "7",
        "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
        "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8",
        "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
    "secp160r1": ("weierstrass", ('secp160r1_fq', 'fp'),
        "ffffffffffffffffffffffffffffffff7ffffffc",
        "1c97befc54bd7a8b65acf89f81d4d4adc565fa45",
        "4a96b5688ef573284664698968c38bb913cbfc82",
        "23a628553168947d59dcc912042351377ac5fb32",
        "100000000000000000001f4c8f927aed3ca752257"),
    "secp192r1": ("weierstrass", ('secp192r1_fq', 'fp'),
        "fffffffffffffffffffffffffffffffefffffffffffffffc",
        "64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1",
        "188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012",
        "7192b95ffc8da78631011ed6b24cdd573f977a11e794811",
        "ffffffffffffffffffffffff99def836146bc9b1b4d22831"),
    "secp224r1": ("weierstrass", ('secp224r1_fq', 'fp'),
        "fffffffffffffffffffffffffffffffefffffffffffffffffffffffe",
        "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4",
        "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21",
        "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34",
        "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"),
    "secp256r1": ("weierstrass", ('secp256r1_fq', 'fp'),
        "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
        "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
        "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
        "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
        "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
    "secp384r1": ("weierstrass", ('secp384r1_fq', 'fp'),
        "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc",
        "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
        "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
        "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f",
        "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
    "secp521r1": ("weierstrass", ('secp521r1_fq', 'fp'),
        "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc",
        "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
        "c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
        "11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650",
        "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
    "ed25519": ("twisted", ('curve25519_fq', 'fp'),
        "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec",
        "52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3",
        "216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a",
        "6666666666666666666666666666666666666666666666666666666666666658",
        "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"),
    "ed25519_m": ("montgomery", ('curve25519_fq', 'fp'),
        "76d06",
        "1",
        "9",
        "20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9",
        "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"),
    "jubjub": ("twisted", ('jubjub_fq', 'fp'),
        "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000000",
        "2a9318e74bfa2b48f5fd9207e6bd7fd4292d7f6d37579d2601065fd6d6343eb1",
        "11dafe5d23e1218086a365b99fbf3d3be72f6afd7d1f72623e6b071492d1122b",
        "1d523cf1ddab1a1793132e78c866c0c33e26ba5cc220fed7cc3f870e59d292aa",
        "e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7"),
    "jubjub_m": ("montgomery", ('jubjub_fq', 'fp'),
        "a002",
        "1",
        "52a47af6ec47deb77d663b6a45b148d1ccdaa4e2299ecfbd5504c409b3ea62c0",
        "399b020832f6a499ba9d5334ca932dc9faaeea860e9a49a8f8854f55f3b676d4",
        "e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7"),
    "babyjubjub": ("twisted", ('babyjubjub_fq', 'fp'),
        "292fc",
        "292f8",
        "bb77a6ad63e739b4eacb2e09d6277c12ab8d8010534e0b62893f3f6bb957051",
        "25797203f7a0b24925572e1cd16bf9edfce0051fb9e133774b3c257a872d7d8b",
        "60c89ce5c263405370a08b6d0302b0bab3eedb83920ee0a677297dc392126f1"),
    "babyjubjub_m": ("montgomery", ('babyjubjub_fq', 'fp'),
        "292fa",
        "1",
        "fbc9ac10c16d45d4eacdd6489fa006480b17a811cdba46922896085f89faaf6",
        "203a710160811d5c07ebaeb8fe1d9ce201c66b970d66f18d0d2b264c195309aa",
        "60c89ce5c263405370a08b6d0302b0bab3eedb83920ee0a677297dc392126f1"),
    "edwards": ("twisted", ('edwards_fq', 'fp'),
        "1",
        "64536d55979879327cf1306bb5a6277d254ef9776ce70",
        "26c5df4587aa6a5d345efc9f2d47f8b1656517ef618f7a",
        "32d83d8aaa0c500f57b15fda90b1ad111067f812c7dd27",
        "10357f274a8e56c4e2e493b92e12cc1de5532780000001"),
    "edwards_g2": ("twisted", ('edwards', 'fp3'),
        "0,1,0",
        "0,64536d55979879327cf1306bb5a6277d254ef9776ce70,0",
        "2f501f9482c0d0d6e80ac55a79fd4d4594caf187952660,37bf8f1b1cda11a81e8bb8f41b5ff462c9a13dc7de1578,2962f0da0c7928b2cfbbace3d0354652b6922a764c12d8",
        "3ce954c85ad30f53b1bb4c4f87029780f4141927feb19,2214eb976de3a4d9df9c8d5f7aedfec337e03a20b32fff,249774ab0edc7fe2e665ddbfe08594f3071e0b3ac994c3",
        "10357f274a8e56c4e2e493b92e12cc1de5532780000001"),
}
