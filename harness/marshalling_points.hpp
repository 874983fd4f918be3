// Points of bls12-381 with ordinates at the boundaries of the sign rule (not necessarily in the subgroup); found by taking cube roots of y^2 - b.
#pragma once
static const char *const boundary_g1[][2] = {
    {"19e9f5e414b3792da6399933d16361c6fbd1ec97e0d0e363a6e81b6917295aa247eb8be4f169e0bb607315a6efe2f734",
     "7"},
    {"7162517b0b6d52f26bf99fe5015268a668bdeea94c49b49093fded00fb1b1303ae9a4f226123545608faabf6f6f0170",
     "8"},
    {"15ba07fc06fc318b1e865aa8101b2d514f1f26d61925e9a590002ac0b9ce1a32c9e73f06bdf56de5a421af25569877ba",
     "d"},
    {"19a5d58c1f89665cac0f23a742c4f9e7cc8141e44a3fa473da16a46aeaa9da6b369e0e354c3d7d2999709b01a2cb7135",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd551"},
    {"858e1ec28e17e3b12d16288b8c8b4855882ae62cab75143059b72dbccc5d90cd1804f7e3f77af694763c5e7e594e0b9",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd54e"},
    {"177332753428b146cde8840d2f5dfb0a1d4d41b442c85f6d439fba84747f3d47787ed6c2ec4c7aabc32b5ded735dd4c4",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd54d"},
    {"19a5d58c1f89665cac0f23a742c4f9e7cc8141e44a3fa473da16a46aeaa9da6b369e0e354c3d7d2999709b01a2cb7135",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd55a"},
    {"858e1ec28e17e3b12d16288b8c8b4855882ae62cab75143059b72dbccc5d90cd1804f7e3f77af694763c5e7e594e0b9",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd55d"},
    {"177332753428b146cde8840d2f5dfb0a1d4d41b442c85f6d439fba84747f3d47787ed6c2ec4c7aabc32b5ded735dd4c4",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd55e"},
};
static const char *const boundary_g2[][4] = {
    {"9f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032",
     "c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced",
     "3",
     "0"},
    {"6e99ef914eed7209b51759c94a6a109ee476e3ca4db49c3182d8d0edf61d6213002db9a55f4b71c1f3be3a372d96323",
     "6ed7257d7405e1ed5c54516c836a4f374fb2dffd1b4e3854ebd0a58f5bd48fb9b07ea16a89d7be9c945a5d6b033a8a5",
     "6",
     "0"},
    {"e9d2e45aec07c1109915decf3f187b97c19deac0362ea7c54272bb84b57ea9aac4ceb0e6e3b76cd226f1e2ba5f19595",
     "f6e3ac7aa9a1844427051c2e8a4a4666b73e30227376de5c76de1bd5bbd9d721583af1cb5161719881cae6723eca725",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd554",
     "0"},
    {"52f57e75518ff139cbb5689fb7d27132a369e52139c4fd14800435998f45d1bd3a82f29b8a5ce270bfee7ca6cad456f",
     "14db62630bc4b58861f50a36cf2f3052b78676dae16443903e390324c692fabdd47aabe8c8161706ad9931636cb7660b",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd552",
     "0"},
    {"100fca6a493cd9f5ca905c1d4f7d1737991b651d141621b82918a8516e31553366ae29ee53ba1fd7fe5cb394b16c8a79",
     "c2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced",
     "0",
     "1"},
    {"1532c181967ab8c2797ba8750783c4bb1b3847aba5de501dcaf77b282d4a62da0f9f8144f714d6192d0f1ae3b1565f81",
     "1965da46c07d2865d1c48244b513c3b7ea54afdb8b89397fa3a9c7e913a21ac6ab2eb7fd34f42d46ae152bf15d5c9c8f",
     "0",
     "2"},
    {"70e68ac813876b02dd9b69e49cc6df5e02f8339a79ab776437b19916906f3054d959521ca7022cc59ab708b586a20f5",
     "f81ff718ca6f571855d79444a8ac01628f212be0eceedc83a552bafc1ce36f71ea08aebd433325ca2dabf2f5f4276bb",
     "4",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555"},
    {"ea29f82b2f1bde52cde293641b4f65a03ba530b93b459d2df65199e7c9aabafb2e63cd32a0159d3654021083516a19f",
     "c40ca7efa5f81ac2e2d460b6b4e252766107ab948f37806d1d96701e26f9a449353196ec0fa804374837ac51fea7220",
     "6",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555"},
    {"70e68ac813876b02dd9b69e49cc6df5e02f8339a79ab776437b19916906f3054d959521ca7022cc59ab708b586a20f5",
     "f81ff718ca6f571855d79444a8ac01628f212be0eceedc83a552bafc1ce36f71ea08aebd433325ca2dabf2f5f4276bb",
     "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaa7",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556"},
    {"ea29f82b2f1bde52cde293641b4f65a03ba530b93b459d2df65199e7c9aabafb2e63cd32a0159d3654021083516a19f",
     "c40ca7efa5f81ac2e2d460b6b4e252766107ab948f37806d1d96701e26f9a449353196ec0fa804374837ac51fea7220",
     "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaa5",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556"},
    {"eaa4673b1fdb26357189ef93ddad4478c2c15f37cdb2b7298d5e2f3828df506a04d3a0f6331d394f3f1362c2bceadff",
     "17b4b0ffa4754c3f08d7dd3d8c7e820fd65e52f0f8563e3fbc1f6c7129b0688b3056f0d3551e9b03a1d6c7abc2556c7f",
     "d0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd559",
     "1"},
};
