// Values of the streams of recipes31.h, written by tools/sprng_golden.c after agreement with the published sequences.
#pragma once
static const unsigned long long GOLDEN31[] = {
    0xefc13ecc38e240c2, 0xa1e74574b7b5f9ca, 0xf387e5d7925ac4c2, 0x56bfeafd2d146d47, 0x9617d81eee9ad567, 0xfcbb21357d6ef077, 0x2291d4ca3d630126, 0x6d45faa9fad40158,
    0x400028cd460cbc71, 0xbb70dcfb6bba09a0, 0xc05f106674055397, 0x8059652145362f39, 0x5192176d0021613, 0x76daf65e92fd6e04, 0xe2a87b748e459d9d, 0xabfac96681d73379,
    0xca1888e54cc63485, 0x6f3cd4952de56da4, 0x5bde3e2696e41132, 0x800f28dfd37f3559, 0xc0cbd0a29bf4009e, 0xb9cf5fa8f4b8819f, 0x58265e5c6758c9ea, 0x7d2299d00530389b,
    0x467337b48e423448, 0x3f11c5ab68907fd8, 0x679d6516adf25821, 0x187964cb28ec15a4, 0x3e21f36270addf2, 0x72ba6ab667d02f0a, 0x80d9441de95628d9, 0xf6c273f4aaca5273,
    0xee4566bc967dd096, 0x5a7eae756f5d9738, 0x975707202cc9989d, 0xe6788cdbe1301cb2, 0xbeacf674699c2d25, 0xc5100f4f898a005e, 0x6a1093e6b2465cd3, 0x40b7a4e4babc985d,
    0x9d7a63dd6448679e, 0xab92b634ba972eff, 0xac07ebecc2256c19, 0xa569c88e69c0593f, 0x3fc018d0551a5, 0x748b5b1b3bfdd06e, 0xcf5e8933a644e35c, 0xa5f37b7990551b41,
    0x2cf0e4123c5d446a, 0xb88e2883592b7c15, 0xe04a3350a99bb4e9, 0x92db124d04f56e69, 0x206f6e3228d6893f, 0x81160173059bd99d, 0x370afcc08a16a754, 0x64c8bf0125333c92,
    0x8243d0610f8ea9cc, 0x35613927a1fbe0c1, 0xd6ac3d51029c1839, 0xb4b17c145bd8edbe, 0x6287efd5ffb71683, 0xd9160415e0c66220, 0x85988b30105c8f64, 0x2bdcd1846cdf2a0a,
    0x1cf6068ebade330, 0x12fe81bb303a9f1, 0x285453ab931059cc, 0xa26fcb7b2966f88e, 0xedc0e2a150f70d91, 0x8d6a8f6e317ab66e, 0xc8b0f7346ab0c697, 0xc63e76290001b70c,
    0x103edc397e9f7a88, 0x376d30718dfee0d6, 0xf05e42d9f33cce1e, 0x2798770fd966303, 0x89b5a0bbfed8fc6c, 0x30dc67ed0c08996d, 0xfd421b616fe98bb1, 0x2d56988968adc08b,
    0x1b6681ea4cb52a36, 0x17157923db3a5818, 0x58589c051fe80165, 0xfb6341648099cad0, 0x1f79bc9895bd0c92, 0xa700f279e1e0be04, 0xf67ae50f8453e342, 0x3502e14a75347c76,
    0x13b772e7a72ecbc0, 0x7f55a6dfc3b3a30e, 0x1aa230e2a94f69ba, 0x60f6cda7724267d4, 0x961a851e0bc833fe, 0xcf17a3c2ec56040f, 0x4acca0b0d88b70a4, 0xcc658787a1e8ed2c,
    0xb631e7fc45f443ac, 0x750c33f2722aa2e4, 0xc8169d181679f8e8, 0xb4da0e18c38b3403, 0xaf55a8a21dbcfac4, 0xfb531f45d1d54f4d, 0x2c3cc0bcc6d72706, 0xc0a138efd3640b3a,
    0xcc49c2ecf4e69bf3, 0x507c074354050b10, 0xf728107d4bda6a95, 0xddd84d57abf58c6f, 0xb41a133ec0e1e659, 0x6fd1157ee3c99647, 0xa83f3a17694956e9, 0x172345e3a4b4c4c4,
    0x810e512ade712187, 0x1fb71acadb1b2ea9, 0xe4cc1d8b9e0da1c, 0xac121e6294240ffe, 0x77d8cccd0863860e, 0x39f0e7b5b76df8e1, 0x6b4d26095baae9b0, 0xd9af58f80d2af1f0,
    0xfb4d99ec207d3d95, 0xf3859e46c8a18106, 0x5f34eb79668102c5, 0x2e2b3f0320d2171a, 0xb522f8acd33b9c4f, 0x60483976e375cc42, 0xb8e434a67ecd28ea, 0xbf5f90755c913cc4,
    0xfc65c1933b60f17d, 0xead880ebf9603be8, 0x96304e71585897e7, 0xe18060baf3bf7533, 0xd9835b2b18abaa06, 0xbce0d185f3bbdae1, 0x6b681493de9046d6, 0x9f3433b8d7b159db,
    0x4ed7982b12db1142, 0x5e2c1422aac0fb05, 0xc6a10a521466aebf, 0xbd8b4d96bcb21b13, 0x204c28f832c378db, 0x90fe18ddfa659a55, 0xf2c5a63913d16f16, 0xdf476d94e5456f3b,
    0xc06b7a454b6b5fcf, 0xa1db880be23145e4, 0x53ad53a3f3d5eac1, 0x2c8e991ef8f24e21, 0x4f4e23059ebd8f70, 0x2bba1da950e925a1, 0x1e5170727b880ab3, 0xb6fc2b1d3f227a41,
    0x32a07a1ee9293919, 0xe28edadb9c9103a, 0x9bdd7082526a3d30, 0x9e3cc9ba60f866f2, 0x3deb4d7d575a3ffa, 0x883365b0fdfb3555, 0x8ccf2f2ab883949b, 0x9cb22228c9012872,
    0x90f34a70a9f6b25, 0x760da05c7e870a49, 0x305f31ca9926bfa2, 0xd90b7be7405cb0dc, 0xa8160256ab0a4618, 0x1f600a58568f2414, 0xcada35c4bbc7097e, 0x685735ba4bcc0c28,
    0x5013e9922554df89, 0xf0cc2d79b43610a0, 0xb30f46fbd3255065, 0x25732cf24deea55b, 0xa29702657261a483, 0x52430165851a64cf, 0x6192539187a39751, 0x6f000ba4d3742004,
    0x4d7c8732a4cef756, 0x119ab51f629c23ea, 0x31ce0ae7dcd7bb5d, 0x9710919daec1c50b, 0xebd5a14846a54fed, 0x4822ec686defd89a, 0xdb1d697c444b6070, 0x426d10b37c3319f3,
    0xabdf01510b3bef3d, 0x4c5c9f115cfd45aa, 0xfa6f3b84ab36a882, 0x4c630e897cb8e8d0, 0xed05d35bfa7c921, 0xeac6b5aa35a3b1bc, 0xec85a741ff7b54d9, 0x5849ec2cc1524681,
    0x3fcffb242d864e7c, 0xd0287f97d2ca10f3, 0xdd96e2c22931365, 0x67c6765e31a2b54, 0x2545fff5968c8df, 0xd544111af3954672, 0x44a47893c4d60a58, 0x3a7ccb07bb1e9208,
    0xcf60a9e82c588d05, 0xf409881019344536, 0x9e67d020ca2d8609, 0xc811e3032e628bd9, 0x94e08505ccaccdb2, 0x14d23941b0f218c9, 0xe7be32399e719da, 0xe7d4df4d203b10a0,
    0x84eaa2480d2ca72b, 0x818cc1da79857964, 0xcaa98412a28f1d38, 0x4ef71e9630793454, 0xf584f3347de7c659, 0x8360011067c79553, 0x727cd13c9f89e848, 0xea04fcdd6e301e4f,
    0x4c5bda387a7d281d, 0x5a8d8fa689141594, 0xa816c621540c2ea8, 0xf3059a6c210f2ea5, 0x91f197ffa23540ff, 0xa538ffb35604c07, 0xfa01f6391fbaef56, 0x1e4c7661ebab933f,
    0x28ef9795e7f28dda, 0x2059bee119092f59, 0x28668d2bc43246fc, 0x97677b211ff76581, 0x951f06c4f400b7e0, 0x65d9b71f11e123b4, 0x3c6ce2da919a7efc, 0x5460e350b879a612,
    0xf9f97958ce3942be, 0x111c0dc3fc8a09b8, 0x3f1f37b2a577a6ae, 0x5a85ad4f25869c6c, 0x9fb5bb48b54f560, 0x47667fdfd5fc9a40, 0x8015c3236eb83a06, 0x234d25bd4d241cce,
    0x496e31c697a57343, 0x28f9b27c8f2c6228, 0xf1f39a2551d231ca, 0x62e39aea1f29dec9, 0x77b26d7c287b6eb1, 0x58d8e53cab9455be, 0x30b8600fe132fc25, 0x6d19db57e50f28b1,
    0xd9e1464654bc0b72, 0xebc1a275ece4a017, 0x2291f8e4006f534f, 0x784f285be613bfce, 0xf7215459118ff619, 0x51c479ca44bb760, 0x3b7eb200876e07be, 0xe512c9ab952c686d,
    0x4d4776e864f0be, 0xaa6c67da3ff65d24, 0x65eb6f8bc50a8a35, 0x3f0cc7c2f05086ef, 0x8077427bbbabf8f9, 0x33a4012dbbafafe7, 0xe94841c5d460c02f, 0x1a9c41421694ea2d,
    0x4a18a0e24172af63, 0x6399b650d7c26523, 0x3775c3664d29d143, 0xa3dfa3f2d36183a2, 0x3fea26dbc0a97c48, 0xb339031778d2c116, 0x1d564f4051e5172, 0xeab256168170e014,
    0xad46a95d257348b8, 0x379c8589a59de992, 0x16fbab06d1a36895, 0x3f066f2f5c4b0d8f, 0xc07b49b459f7f6, 0x46457db1fea24ba7, 0x12f3bef3f8a65dfe, 0x9089eb9ef50a78a4,
    0xdfe3a3958f1a6d83, 0x822f2999c019e412, 0xa1c68416990e42e0, 0x8466609cfeb8dd63, 0xa1ed593c2602ab06, 0x8125c2c2ae8d8e06, 0xf5a3c8c3f3646602, 0x1a85216aee50daab,
    0xd6f5c372ed915a70, 0xc5aa4ee49e2b194d, 0x43004e3b556e5d58, 0x1e83558212b9083c, 0x293add4c2e00e077, 0xeda8b6bb80ad81c2, 0x23a394ec0cf4a97b, 0xf7f1d08814f9a219,
    0xd3da55bd41bf9c1d, 0x3b28fb29069db89e, 0x399dd7c24cfc581f, 0x1cde327cf03e2afb, 0x36ee8a63f7e2b6c1, 0xb0a64b040c1901c4, 0xa8b3a0c87364ba19, 0x1d875c0e70dc513c,
    0x1ca94ac739de8b8f, 0xf1b7464d8777b74e, 0x3d0d5b64439e5476, 0x66640e456ad09643, 0xb74adfe864259838, 0x11a588828da78dca, 0xb0c2f9433df183b7, 0x1b3c778d01695cec,
    0x268ca7c31701554a, 0x949e1139d200a102, 0x58c7684f791569b5, 0xfe62d15f939a3892, 0x853334b7af3851ef, 0xb59988516f8ffd1e, 0xe5070b2c20f17b9f, 0x62948d8d9ae1a924,
    0xe32c6fc9d2f1e660, 0x4fc2d8001ceb40f2, 0x86418fb87f5a6fea, 0x248c9943c1bf2cde, 0x94f0830931ee0f3a, 0xdb34ba579839b81a, 0x91d0c0c4662258f1, 0x847e335db2c3c730,
    0x796e58c59a928a92, 0x8ab0bf2d18b5ca11, 0x1edd84bc37269e66, 0xf1f4519472d9220a, 0xe89b576bf39e3f57, 0xd2db0a2417cc9a07, 0x105fcefc70a709e7, 0xf8b37724807ea153,
    0x26e1725b280ff81b, 0x338ef7743db13b3c, 0xa32e080f3a5c04d4, 0xdd466ee6bb049947, 0x5707c2fed3c2d363, 0xc36a2a2031c7aeb8, 0x3f82cb9a7ef351c0, 0xa6b7034d56879c11,
    0x6a0aa65a6f2e6102, 0xb350514a36064aef, 0xc01f2843a6ff899c, 0x2bd711a868e68865, 0x61987d524d286407, 0x4671df7fd6184576, 0x6475df6411175ca6, 0xb38a17ce37a7e5bc,
    0x6efb59490fec3c51, 0x3348c24088a8d229, 0x9916d31bbf0a7564, 0x933098ccf80ea44c, 0x64a07b00e514708c, 0x22283a48429d3e05, 0x7177d4bdd8bbf18b, 0x37cb0d261bb5876f,
    0xfa96237e58adc0ba, 0xeee4c4d4a358d16a, 0xa29f0f795f854b54, 0x6253961c75595f58, 0x9a7e9b41581be64, 0xccdc2e2ab9a35f77, 0xf427b1370e77cb3c, 0xa148f4e88f990b51,
    0x4bc154f323e60ddd, 0xa078c3cd0807a082, 0x2127d1b1b3478e49, 0x7a3a0aa2049a4739, 0xbb897f697b839943, 0x107dfd9b424f8b7e, 0x5aa19d5ebcd46ed1, 0x95e7372b33f1c68a,
    0x79d84afc654d51d0, 0x16e2ae1852d304cb, 0xbdc7c6cdfdca1c79, 0xd05ecfd7be96d1df, 0xe67513691ed3b1b6, 0x52a012afc2309c97, 0xb5b15069abd69e1b, 0xf700b23c57fff8df,
    0x41b6505f1e744c61, 0x7af6ea59b5b39687, 0x5b9b6a65fd3a0075, 0xe527e33d4c70d00a, 0x573e23f1f84d5f90, 0x6cc4ed797c813f5f, 0x46207808e9ae8f75, 0x4185afeeee62aef7,
    0x805dab60f45d9b41, 0xa9d20510103ab392, 0x8b31c4aec511060, 0x4d57bfe1bcdffba4, 0x6e48607d3d3006e4, 0xc00d671013a6816f, 0xaff922e63f840a7b, 0xe5173cf505fe1451,
    0xdf891bd832ccb136, 0x71b7f2d668f5e672, 0x8623aaeec65ff69, 0x2ea9600f505f72da, 0xc00b5c105af57840, 0xbc364f15ab8c830d, 0xe994f2cffdce914b, 0x258313716e4a936a,
    0xbf51c239f3b7955a, 0xf9d8514bebe06aaa, 0x9f6dfa7444d0425a, 0x57d88ee6e4b1517f, 0x39012bbda19a453b, 0x342a078ceed3285, 0xe4aa00c45e03291a, 0x3bffd54210b19186,
    0x86b9a518106a4464, 0x492cc19d623467dc, 0x5d29545b452bd6fd, 0xa30e9ac8bf10f45a, 0x24752fe3e918edb6, 0x5be901e8daca14de, 0x2fd923870730e815, 0x5066a6c966e3e401,
    0xc654dc219aba2f3a, 0xd39fcefae6377c64, 0xc064e6b19c3ae8f2, 0xfed5dc5a49462a72, 0x36857933f3cd5234, 0x81abee83afb5f828, 0x5d55c6d40072fa28, 0x81ce59cd2498be05,
    0x3a2802cb71fc81e3, 0x86b4c67ef1e00c48, 0x22f177caa5bc3e2c, 0x65bb34b92f5c4070, 0x87d517af963d8b17, 0xb005f9979424c2df, 0xa72e93170fe65682, 0xde279ff05da0f10c,
    0x55adc54150b5b7cf, 0x79aa2d84257db12a, 0xafe6ec2b2df16e8b, 0x319400d62e987222, 0xe2d01757146c4d32, 0xb0aa19db9f1cdc36, 0x80bf06a610ad982a, 0xb415027599acc942,
    0x33e2f6fea50d675a, 0xc8aef7c74719f6b1, 0xd892c779706a4d8f, 0xacc0cad4db61e506, 0xe9669b0c2acdc642, 0x29cec2cc87d85841, 0xf17799fcab6c7cb1, 0x642f777fa639903d,
    0xb5436475b5129c00, 0x7d66b3e364ef56e8, 0xbaf19b6e7d65c4d9, 0xfb763c93b2f8aebb, 0xdd94698509df9992, 0x52b3ce3ae40a61f8, 0x72c7d22c5f3aead2, 0x645cbeadeab8aa35,
    0x98364402fc80654d, 0x953ffc7969e0463, 0x68a863256cf3d9a9, 0x768ba7e336b77b81, 0xe529eff5127ca38a, 0xddab43c78f0c012c, 0xf1137f38ae9cd7c9, 0x37a033eca3d179d7,
    0x654672bcb6769a4f, 0x987b80452e9b39a8, 0xea75dc548956368a, 0xb138f8d778170c0d, 0x13ee127408ee55e1, 0xf4d0e8d58696556, 0x82652d8f4ded08d4, 0xeee98c9d0c306b86,
    0x4d6311013ab9ab15, 0x859df9fa1d90e6c5, 0xabbc63316b84edcb, 0xe6e02e05226a08d5, 0xa01e1febea9433b, 0x495e736388db67f, 0xf820ddede6b1f230, 0x542ff83b86bc1024,
    0xb4fa341dedfe95df, 0x956f84ce8ef512db, 0x3f2dfc210e051011, 0xc8a33b412c160bd2, 0xc2d7d175f46066e4, 0xc118c9303af4e32e, 0xcfb86758abde3a35, 0x8efa4dac95091d21,
    0x7bbc5fafea464630, 0xa09c88e3e5cd6edb, 0x19a7c7b636ba094e, 0xefc1eb20f60661b1, 0xfd7d0513d95c0680, 0x2b13e524ce865a0, 0x49313ffdac5970f0, 0x3d458e5392a512e4,
    0x36abb31b2f190d62, 0x4fdfa2b4f3e92a60, 0xd10274721329d3dc, 0x5bc518d17da9d33d, 0x1c62871c69ce8a56, 0x9f66c695b2bb2daa, 0x26c621dd237c7691, 0xa8e22203ed592069,
    0x46a928c84ed8167d, 0x9294ec46faf38bae, 0xc3d32e3d5adf7cb8, 0xfd732901ef071f31, 0xab51583ee3ec70d2, 0x5c8b83c3b65d5a9a, 0x9625e9234186f185, 0x13c7e49611808c9b,
    0x4d56a2946196b4c9, 0x5fea1a755ff75fd5, 0xfc705906737befd1, 0x5857e384955c590d, 0xe82838f114148e26, 0x41b19781928ba28f, 0x277faf3ad2f24989, 0x3b7da82955c3923d,
    0x6afb6b3880c025ad, 0xa8d5773021fe5f0f, 0x6114916259d9ad6b, 0xaaa4e23611ed, 0x1894f29ff16d0746, 0x577b34ba71cfb2a2, 0xa03fc65c7adff858, 0x878fe863be9bf27d,
    0x658dceccd271ebf0, 0x8edc211180693b0c, 0xda394a75195d8616, 0x435952b58b195a10, 0x65aa505f8110be5a, 0xf8809090ad0adedb, 0x5d92f805aa36407d, 0x39013e08eda093d1,
    0x25f5453a8b40d9da, 0xc5e6597e5709cd7e, 0xabcb18139b2b5734, 0x9277e0789ba02342, 0x90c73e254e02ca7a, 0xbd044ae6e3c49510, 0xebb885a92acb0932, 0xf53c73da6a49e9d5,
    0xd00957d3bc40d80f, 0xde65b774106a42b6, 0x79697c63f89ef264, 0xc7af03b2acc969e8, 0xcd8d4165ec504e42, 0x99505ceba382e27a, 0xee663033fe0f995d, 0x84f1cc5f4794e58b,
    0x322b85a0e794dc4b, 0x4f57426822b4891, 0xe7d2cd4d363ebeb, 0x27f323d4558af21d, 0x17a3bfeba8953a80, 0x494b5711f59735ea, 0xb60964278fd88956, 0xb39f163953951cfd,
    0xa0c93a273ad60bf8, 0xf2b8d4e619088413, 0xcb40663fb08ef3aa, 0x929e33056abce813, 0xf2a435d1f66d4ea6, 0x1487653273694ca0, 0x367a4df83fcede71, 0x232c642cf00ec5c6,
    0x75b6fe8ed46297b0, 0x993dee865347de8e, 0xe548664acc762624, 0x544767bbd1540abd, 0xe2b61969b8066805, 0x673a9b5aaf4104fe, 0x5a46e096c46eea09, 0xdb8e822d9e17c6e7,
    0xbcc649a93c376e2b, 0x960dfeab60d0658c, 0x92a622a7b8bd2b4d, 0xa48b7eff6db38460, 0x6363c4629fd4e35f, 0xa54d8a2f2e8359ca, 0x6347e81ff6ae74eb, 0xddb990b68bea988c,
    0xc29e0e2689ae4c3b, 0xbbcfbb87724d1567, 0x2b6fe95dff7ba4cd, 0x277df5e8d7c64240, 0x14af3489d91a0d04, 0xd84dde37486efd65, 0xa660fab0bdc73fea, 0xc78902b8b319f56a,
    0x17c75a35873c9ef4, 0x9d024cd40c0f731c, 0x2303ebb42dfdb039, 0xcde063577ac98bc6, 0x38aa4facccffe90d, 0x8470df585650fc4b, 0x9b177d4e963ea5c9, 0xa2db39ce8d975885,
    0x666dffd19b85f3fd, 0x653864ace40f989, 0xb2f9dcfe5c93facf, 0xef27e55fed9ff9fb, 0xc5b6a8d7a0a93b91, 0x3cccffa62c47b947, 0x219e992654176cd4, 0xf04205696fc706b6,
    0x2e1e08e7c1fa4dc, 0xfeedc6bd518c971d, 0x99323eb5321a9885, 0x3f510470a117d2a9, 0x7144214528778c70, 0x7af880493388bc1d, 0xbc0be470b158ac05, 0x46dd2a81d6dde21a,
    0x97f5f104b533f070, 0x27d0466791a8d97a, 0xa2ac012737685b10, 0xc315bafe0104717f, 0x33d24038555893b1, 0x7f9b0584cc8fff81, 0x416eb27da5919522, 0xa846e81fe203a843,
    0xcca166540ddfc706, 0xdb64dd2a007afaa4, 0xda1b1eb03c828335, 0x6b834a6733f65aac, 0xbe0a766acaefd70c, 0x2d429c024321f2b5, 0x643123950503d1c3, 0x29f486894028977e,
    0x5eb461806ee2b52f, 0xd22adcb7f2c9d9b3, 0xd1d2469e06508a3a, 0xbd698ef6c7ad61cb, 0xa2e2d18e1a11139a, 0xd6909b3be47e739b, 0x18a97bcc88e23de, 0x99ceda1d36b9df44,
    0xaa34e3d91c8fe48b, 0xc3f24a32e4185272, 0xad1e09156b335a01, 0x1c8e7731adb55142, 0x732a6e7f50564c0e, 0x15a0cec6d60624ae, 0xc1d1e204279f5ed7, 0x32f3cbfc3f9b9a0,
    0xc1cc5a8e525c8d71, 0x699b74ee21bb4336, 0xb92b7c1308c9334d, 0xe9ef1a0ccb391223, 0x7480d01a5d739ba, 0xabcfb4532a7cf1c7, 0xc5cb0c8a28b22d5e, 0x194b5147b7880665,
    0x952c9da33803f80d, 0xff0b9630c44c4de4, 0x45a567d9a557afb, 0x5e8c13d0d19211ff, 0xff897735a2adbc1e, 0x36afab68645246e0, 0xe754101afd028745, 0xf3645538f370058f,
    0x2f33447c5b30519, 0x53f4ed6120bfd80, 0xb916461a52e98ca5, 0x6af88ec0468a6e92, 0x9b79cf41410737f0, 0xa5d50d6e50584d79, 0x6bc41bf14415a250, 0xea09cb2da66bae24,
    0x4d6392bb43d83a53, 0xbf22ace944ae7bb, 0xa98e2ea8c43453a4, 0x493ff5a8f1b6384f, 0x537f2a4c455bfed3, 0xfe8bb6a997cc9fa9, 0x35d49372cf9ea2d0, 0x9060d53f5769c6c5,
    0xcab0c75024aaac7f, 0x6e540fb5bf4a2711, 0x1819418e36468985, 0x45a0c740aed68474, 0x690d2fc991c5313a, 0x46f211dc6e55a015, 0x6c3007c609345e66, 0xc900257e8c1e0a7b,
    0x4c72222f8d098ae4, 0x1ca4f733cb72caca, 0xe81d886f5e321597, 0x64308aba55b177da, 0xd14ba56893f160fb, 0x7b73f312c789b83f, 0xbe44a0abb1e21afb, 0x2e73b545ef7a72d2,
    0xd439d136e8033651, 0x37a8851433f2546a, 0x6d33930cf5797df4, 0x926fa73352525366, 0xefacbdf4d1e71757, 0x680fd4bdda55ec8f, 0x31e28381bbaedfbb, 0xd74f78759d8d915e,
    0x98cf584f15658650, 0x4005abaabf21fe41, 0x99856e90ba447b46, 0x94ee54a1f23786ce, 0x805d014132915b7d, 0x92faf1ca4e0f9e86, 0xd2fac413d86cfa50, 0x219d8060acfac016,
    0x1db92028b6ffb924, 0x93b37218c0ae442b, 0xc55272d09f4d6fa8, 0x2d5c0031a2e9315f, 0xfb99aa3ba21352b5, 0xee077994a49ba8e, 0xd50e7dfbc3a7b471, 0x81e54afb62989c08,
    0x26794bcfdc0346c4, 0x1a88f3dc60facc7b, 0x2bc3b1e9831a8d2a, 0x734c40f8a3465cf, 0xa1453e2fc6d228b3, 0xaaf6af5837be40b0, 0x19c837d86ada87a5, 0x30bcb06d99e8dffc,
    0xb247fd0ad6a27c3f, 0x48a4591c63548f64, 0x34999fe4cf6d4434, 0x82f270ec9e1a79cd, 0xa170444124d7e4fb, 0x88db3e68c89bddf, 0x46464ecbf1199629, 0x4559de8eb31f9deb,
    0xaa62545db3b386a, 0x84117ce37f8c6410, 0x379ceaade007dd79, 0x7cc1bed30b9646ab, 0x670d0bb78b8f6988, 0x58f0a7eb47c8f5ac, 0xca3ebc2f05a8a900, 0x33d7db843b7c3bce,
    0xb809e6024c108915, 0xf473471079bd320a, 0xae6d58767f03a38f, 0x7bd904ea8ff8c7a8, 0x65506cef04bd710c, 0x5f5f7b6b0d21679d, 0x23242b9b1d524c14, 0x18a223404496d25c,
    0x7383ffb1a4dffb0a, 0x21662da11610de53, 0x17d315d733d345a7, 0x4c85aa2f82ede1c1, 0x4e905aac6d372d41, 0x1c89a9822570469b, 0xdb3a1f6a44830d7a, 0x6c514cf0a8e9e56b,
    0x56ecc3f6df01f86, 0xd0471b29fc43c3e4, 0x51d8d7422f5837d6, 0x8b5e9c598f2ad6df, 0x46f32909e076a2e0, 0x5d10aab04fcffefc, 0xec39d3d082fd7a92, 0x9fecfc350b127d2f,
    0x22c5c80677ad246d, 0xb6a5210e65c41b22, 0x485f3c6cd5fe6cf9, 0x44e4575ae098a594, 0xc1724db7a111653d, 0xb35680426952646b, 0x43a23acd5e0c7be8, 0xa568c790a0f9c150,
    0x85cbaf0f76832f33, 0x998c06afabc58486, 0xa4d7b15c8c108563, 0xf77ee2e82668e99, 0x46d2dd919918e2f8, 0x26763494a6af2d50, 0xda6eca444fdb0b87, 0xc83905840ec1cd69,
    0x2597ec25724dc21b, 0x25a129a038e4aa7f, 0x24b4db2841a250a9, 0x7152248dca33f88b, 0xe9b86913a2a2b57c, 0x91306cf8968b62d7, 0xbf1abb12b8b42ab5, 0x1c56da28727b43b5,
    0x9f8d4a77defcaeb5, 0x172a92681557304b, 0xa40ac837ebab73fa, 0x5b44d2533dbf9285, 0xe5e49be21c824d2a, 0x709e93810b4fce47, 0x41ad7a832e97d730, 0x14a4db9912e5ba50,
    0x8da50e25b774295d, 0xec521989f307f188, 0x71051a90594cab57, 0xe4aad384816c1e5e, 0x933bde530c8981a6, 0x39b26afadcd38c61, 0xb43946578018f11f, 0xe247b549095f2fb0,
    0xfb4cd30c1393712f, 0x6a3ab406a927407e, 0xaf857e662d471b09, 0xb2bd876c06cacde0, 0x10ca20c80c99f01a, 0x43b4e08265033587, 0x2779abe542359d52, 0xa89a1008d09dcbaf,
    0x5c30ad4f87971d9f, 0xfaacb461d7f8fde8, 0xfcd20bfc2f668864, 0x78821abacfc097ce, 0x881ac855200eab2c, 0xec2555b9b5ed25c2, 0xf3423456e82cb24d, 0xd66a706e576ae2e2,
    0xc66af79ba930b8f4, 0xf6492d8a3d1aeab4, 0x7e352e868367ec32, 0x8797245c38c23a41, 0x89e4c34c34466202, 0x6384f8948c7208ed, 0x3f3b27550585c794, 0xf880b2e5ce7acadd,
    0xbdd3065224378f00, 0x7897a6edf4485cae, 0x527365f26e4b64fe, 0x93b3f078420850db, 0x8ee4d7494c73b4d8, 0xed837662e6f59c6f, 0xe616f0b608e8e718, 0x1e2fb558b8db32,
    0xd3621c7d85fa6ee6, 0x819ea9263c00ce34, 0x5630b8ce38af22c8, 0x5e854190f38515c7, 0xc152f1170ff5ce36, 0x118a284ad7b426fc, 0x984b975b7a6d82e7, 0x1b89664e172bf0ad,
    0x12cf68b200e7c67, 0xdc7a0ada8d8bae26, 0x1fb9ba2a0d0cdb36, 0xc0fd0a06952696bf, 0xc936599a5b692c68, 0x8bb1de89adf51e56, 0xea322555ea687353, 0x8591a1da3d1de62b,
    0xef3c3a30183815f, 0x2254c624ffabb241, 0xb1348f79ed54b463, 0xb6b205f1cf3ddc33, 0xf907d411771e3aff, 0x5584ecbe3e87f855, 0x2b08d9dd87b157aa, 0x76cdee10e3a57a90,
    0x3241653130a24f07, 0xfe082bb10eaf4706, 0xb8e0999464ae555c, 0xa42bb4824834465d, 0xd99d26bad45118b1, 0x8ca4aaf3ead55fc2, 0x8aef58d7e829e14f, 0x1cc33c8ec8f7b28f,
    0x303e3a29beedda1, 0xc294c09a212ac1f5, 0x60e7ab84dda20383, 0xfe298ec8386d5c48, 0x5c1312b99cf8afb2, 0xaaa64146f5a0ee93, 0x56b4ee75f8a044cf, 0xebfff500aa994df7,
    0x3e9918967ef92cd8, 0xe8c27b555ebfc71e, 0xd50fb234c9686ae0, 0x238daf311c67fa8d, 0x3f40f70ff19c8864, 0x3fd8b10c92c7dec, 0x9dabcacd5c29cc73, 0x9cede18d188a03c7,
    0xaf296eb38db75709, 0xf0e0c9186ffc0c6e, 0x398cb9acf532c4fe, 0x449c5a1e664e47ea, 0x3c9ea8c817d7e9d2, 0x41c1df3d6e5cc368, 0x580ca9439b39a354, 0xddfa21aa612d31b3,
    0x188338a3b60ab45a, 0xabb12aeb3d970fe0, 0x5b845b91b3b0187a, 0x387f063a716165b9, 0xf441ff7dfced3cf1, 0x46d294121f856385, 0x6ae141d35a594a69, 0x812e8253ac4949af,
    0x1c87b913d14df6b6, 0x856c829ba57fc1b5, 0x7436d6844e56c600, 0x7559906823c98963, 0xabc413e655b32ffd, 0x13f18d64730a8bb5, 0x55c218796f86bd22, 0xef1f183b98a4af8b,
    0x7d275c3433afecec, 0xc3a40302a7a61a7f, 0x64c5dd550fdf5779, 0x1568f5a6e4992274, 0xc0ec1356e41ad349, 0x7e282040f4b14e47, 0x90c91d6f377f0ded, 0x93b7e349e3434f69,
    0xd87fc8d4cc1e45e7, 0xe5521b635f805210, 0x598da8c4c825f8ba, 0x329b22b888fb6dc2, 0xd8f5cad885d0a799, 0x651cb26ff304f5d0, 0x71d06a1a376a1281, 0x5181c4105ecb83f,
    0xcd2b7d245bd64e98, 0xe6c6527bfbae74d9, 0x7bc0a29cf24331d6, 0x8f92c411d744b2b6, 0xefc653d24b994a8e, 0xe0cd9d82bf39ec73, 0xcf1909ffc8df6497, 0x934405acd1901d62,
    0x56bf9455fab1e5e1, 0x15641f3f3cd050bb, 0xc52c5506e3a35fa5, 0x2ddddc3ccfdd878e, 0x2bc0314b88c4610d, 0xb7b7eb0e628092a9, 0xb2aea8124f218f7a, 0x343a6a6a9cf478d9,
    0x3f3a0b5ed210420, 0xae5775e6d179eb03, 0x99a0aa743c945b31, 0x1537b79d3603b77b, 0xa5ec42bae97cbd4f, 0xf1f2a3f0915c8164, 0xd311bf48b409be62, 0xe7b84373b779ae33,
    0xdc71343d305f0ddc, 0xfee2ae03afba3aca, 0x57a0052b4489d923, 0x9c8de4992b3bd1, 0x5a177be5dbd8a90d, 0x37503c05bd2d20c6, 0xe67cab89d0730d73, 0x1ae9139c8bb9c577,
    0x83e0a611a30d3dcc, 0xe312a963e04ef6b5, 0x4937b196e34137c5, 0x249050ad9770f113, 0xdec8b82c0d7bf7ef, 0xfac3f88a27f74491, 0xa80cf7521e283603, 0x555b50965e91cb79,
    0x8a3170dfd2661c82, 0xb43fdbcaaf922edb, 0xd342b9bebe6f123b, 0x2852ef4627d16714, 0x33f61de2b45b5b0b, 0xc2903132793726c8, 0x6590cb30e3891497, 0x6f89c5ad96dd3a4d,
    0x1daabef18c86306d, 0x17ab0299ba5b1f64, 0x683f42ed8e5a0047, 0x105163f57c5f9ce6, 0x713eeb459d86d186, 0x379f0a294209c4b8, 0xb48c4e8359843309, 0xeb2e1b84a49e001f,
    0xf298d09539c19a2e, 0xe430dd9c0570c1f4, 0x621a54d2a62f02f4, 0xc08f1923040c5d88, 0x6c1f86df94ee6ba7, 0x456746bc8d5f2d48, 0xfb1ac25d5d491b2, 0x9fa554a86663daa9,
    0xa12d91ca793fb341, 0xe36c38fcd97c7e75, 0x42b99f3f06e717da, 0x3bd0ffb7f2bc2fdf, 0x165576474592bef2, 0xc578c1311024204, 0x12a27db1b9407144, 0xa8df04f0c1233937,
    0x4e4603733afb5843, 0x80312192e5e15ecd, 0xa0d5f4db174d3098, 0xb18dafc5668fd746, 0x7b12197a9aba5968, 0x3f0141e7c9f66178, 0xd601db44a35f0ec6, 0x7bb744f528a50422,
    0xfdd6b95d0a8a81a8, 0xc9d94e213bbd5508, 0xcc5170720bb12cf1, 0x8bee426bbb3ec82b, 0x5a46d22fe31ba1b1, 0xa69777db98cb30b4, 0x2e0876607085f3a4, 0xfb5ba3f2e9ff3c5f,
    0x14b61cb6a4161068, 0x56ea6e3cc7a7b96d, 0x48856d45b73d6573, 0x29946e0ba1b5655c, 0x6ab64c16b3bacac4, 0x9625de5899bc3789, 0x2cc80ec685196e08, 0x4b8c63841bb6178b,
    0xf7d9235e57aa4b3d, 0x187ca374896e68bc, 0x9af1d5870b1ba15b, 0x9c5c81a8995be782, 0x37a2d3ceae675493, 0x200a30cdace52277, 0x652e466b3e34afb9, 0x16d1823051e0a7d1,
    0xb993bc42dd47385, 0xaa5c564e37ef7043, 0x5fecd568da74abc4, 0x3bf6f7c3588fd8e9, 0xec9af4af0d74467a, 0x4cc5da1ece392b4b, 0xfafc9249a3401807, 0xf9a9d76422789677,
    0x859f85cf73b13e14, 0x4ffbf23c55ed52f7, 0xaea2b614c2651d76, 0xb2ac42f7f1964d51, 0xb796f5b47ff1c220, 0x37ace884d0535009, 0x29915df5aa6e9df6, 0xcaa8da08272a7972,
    0x107b9fe35de87327, 0x293254f22dfd0e1a, 0xb38d4893f17adce7, 0x8336226be5a36fa3, 0xac68c3ea1f623aab, 0x1c33b33a2dac5304, 0xaefc3b7742e73557, 0xdd4b5eb6d5cff43e,
    0xb8c127f647e78d21, 0xfdb09491f3f6f459, 0x1a3819e0e8a5ffd2, 0x6d7fe9c7b0b0e4ef, 0xd2505c5d2d3bd0f8, 0x17d371c8c2d276bf, 0x9f6b19736e78a7f1, 0x8a44c21d89ca5490,
    0xc413f45f1bc9408c, 0xb342fd2cebcc9bf9, 0xdaa3fd6f0f42e751, 0xc1c26a46f5cf9ff7, 0x4c2f3add23dfc5e8, 0xd748508e70915ffc, 0x4d089be94d4561cc, 0xf48e7e02339d5716,
    0x2d5542c79b28e8a2, 0x8de5b002c625d9ce, 0xd05cb6115ac368d7, 0x698467322b047938, 0x1d81eaf66f597b8c, 0xcab21b417f2673cc, 0xa1808d61ea85b6d7, 0x5c9b624e90630ff1,
    0x55ba401d253a1e40, 0x587335b1caa6a03a, 0x60307b1e2478e2b5, 0x7dc4a4ae19520e93, 0x6e982be382240c85, 0x7bf79c5969ec71c7, 0xb18726a0f73dc492, 0x6f9f89ae7757e97b,
    0x7e8be3f664f71130, 0xb44f555f41274712, 0xdfe90c67696c7300, 0xdcdde471336f7c2, 0x1ddda0cc103054b7, 0x89a4cc595cbd5c2d, 0xbae23ddb0fa224de, 0x6a6ec64c68805f21,
    0xd7729d60f0a4296d, 0x62682b6b779690ca, 0x530906ed1d462f4b, 0xeec0661000ff323, 0x2c55f4a7a5cbd813, 0x5664fa043229b7bc, 0xd3af93d2cf7bec47, 0x34881d1f37ddf60b,
    0x31fb25d8f30ea9df, 0x4bbcf3bd5e2b67e4, 0x6b30f5000e016761, 0xdd99d4e23dbda8f9, 0x68cc7aa9378d9247, 0x727bbcc5ee402b8e, 0x263323046b27efea, 0xbb24af362d341bbd,
    0xc096867aa3067590, 0x324487eb9fa1feaf, 0xc5579d86653f529e, 0xe24d235b52111d13, 0xd3607f11ab4f53c9, 0x1f0a1b05f77dbb5b, 0x56a592cb0da33374, 0xf101687065248865,
    0x495050a509c2cf2f, 0x749f3e6f54fd364, 0xd73ea5d21bb17391, 0xd74ca9f59f1a1670, 0xbf8ecf322784fea9, 0x18d7a701707d55a3, 0xa4460f2ebfa53720, 0xfd3a008ecf9bb091,
    0xacc19b1df00fedd8, 0x6d6b8b0ef097f818, 0xd66f7b76ef8f2ce4, 0xf3675054d76cccf1, 0x9f3035b0befbd26f, 0x661c3045820a91ac, 0x85dd2d97efffa652, 0xbc4f53ea482fca9a,
    0x4319ff6cebc3b, 0x1f9cd674be102eae, 0x6925e45231c0eb99, 0x2bcef2ca48f35c55, 0x609f223929c2decf, 0x1ea3071ad7f46397, 0x57764c96d98eadc, 0x2a2258d51e82fd01,
    0xafebf9a371cd3324, 0xe6382f5c199b243, 0x5e4c4f97e0a44a56, 0xe2d732e643157355, 0x58b776e8642383e8, 0x6386f03d25238db6, 0xf960252866060c15, 0xa9df8eb3de59dd0e,
    0x2dae3e56ff3ceb85, 0xa2e8cc9840885b20, 0xd10e4a1cda9ea10b, 0x245025572ed7529e, 0x1e248b91487dbf58, 0x54132182a03e6076, 0x4d68e14b8572a5fc, 0x40fcf37a0f80361b,
    0xbd9ba9f1bdcab038, 0x48c76276bdb6d8f3, 0x55911eeb01f5211a, 0xf1bd7a2d7c045218, 0x38ae34758be04463, 0x84aa690d16eb0dbd, 0x3796c338424b61c6, 0xabd40b0f6fc9450e,
    0x1e98497db58126dc, 0xf19031d4c480840c, 0xcd5e191f8e7ff453, 0xabc273c7043019ba, 0x828ae146628b0e33, 0xc746cdbaa3a6eebf, 0xc5ac8a42a97fceeb, 0xf240e9b19c6fda7e,
    0x124a7a58a16966d9, 0x2fb51d0571acd759, 0x6159fa8630f6fa58, 0x6adc5b4c06afe916, 0xddcda0a3855a71d5, 0x8e1db200fa52c73e, 0x9d0312205df684c1, 0xc8c66108e869f5d4,
    0x9e45d08683b50ee7, 0xd5146b1d38cf7c37, 0xdebb264bbad7426d, 0x5a49dc5179236366, 0xf3a23ad6e587c460, 0x99ef818e582dedb6, 0xedbe2da91e4a9f99, 0xc7875c1442fbae3c,
    0x5862e5fa05141478, 0xd4db2fbcd5a0b731, 0xbe3c3220b5c0def7, 0x6a19eca9294a0a0b, 0x7857583374800dec, 0x73356e66359234f5, 0x354526e248fb4aa2, 0x1a1d786c2f1edfbb,
    0x61118e6575b2e74d, 0xefdda3c7546c72fb, 0x96a02d848f9dd78, 0xda1b10f2165ebe6a, 0xfd112d4ad58682eb, 0x2936b691c40fa736, 0x8b0381227aff7b38, 0xed04aae6cc130570,
    0x2af9165cb9bd762c, 0xb5090349ac42ee22, 0x8d1a21875d10d581, 0xdab9df01835c7f84, 0x627ccda18f375908, 0xb518bd2e878699b0, 0x6748fd9c66e3b841, 0x6d3831a0344dcee6,
    0x7b05a0cd5f89b0d8, 0xa88550756c251394, 0xe8ef68a2772f352b, 0x939d9ab3944455a4, 0x4e7f0b8b7464caf1, 0x6daf7c114b29a094, 0x2f31f8ad2624a03, 0x93d5fa21adbc21e1,
    0x22f2bc14e2c9e531, 0xc1ad6241fe822948, 0x379a5cc91f293ab7, 0xa32d76b77c29a3a, 0xe926b6ede1de066f, 0xfb77677252a02b11, 0x4270bbf2158e01b5, 0xaafa39c8c8e899a3,
    0xd5a13e2b799441d6, 0xb25f3ca8f3bcd342, 0x81959f92c4de24db, 0x4b4aa21ea3706181, 0x1fa38de0e00d7f36, 0x90c413cdeb9dd977, 0x5a922a25e2610e64, 0x8240e37f892bcad1,
    0xe12caa1b3daed25d, 0x24508b174427e1c5, 0xf35c243f52e4dc95, 0xe0c5ca32cacab4ff, 0xa703bbefee9db3ee, 0x710266f32a758b46, 0x6dbc86c19d617857, 0x739e60a9dee7e63c,
    0xfcfbc2379cda6db4, 0x771a8062bf069e8b, 0xd4a47e02ef377afd, 0x1fc4cdbdd27e6588, 0xed58d9f479408a8, 0xc570acfa5702c299, 0xc520a8c15ba344f4, 0x6a2318637e74b4d9,
    0x9bbf1c44dd598afe, 0xbdf214f48722b012, 0xaf4b8c1891dc943b, 0x9719a6d648043edd, 0xc51e534a7fe41b83, 0xa2f71b4b280324c8, 0xeedbdd45ed0fd4d6, 0x4da8827e9028c850,
    0x4f8eeb8b1b0fd5ff, 0x33f6d65c48d26590, 0x6a620b57c0245531, 0x20a45aef8ff485e, 0x4be3dbfeae0b9c4, 0x96fb49ff9eb6810d, 0xefa255e4a63fb156, 0xff641ac13ef072f5,
    0xea9968a46896ab95, 0xa80d67d55f2680ab, 0x3f3f07c08019ac82, 0x4e0e6d8f382dcb25, 0x3e164b951e34cb70, 0xdce384007ce59306, 0xf04d255dae0265f8, 0x7e6c50894f1ab672,
    0x2bb48ab9722a50bc, 0xb2238e2a95e92025, 0xb1b8deaead62f790, 0x2044f9e0c2e0c80, 0x7bba506c8a575d9d, 0xb2631b822e1e24f8, 0xadbc3cd65213038c, 0xd66bdecc7ab8813c,
    0x2c9383a2bd65f873, 0xa13b59532a8e2082, 0x2381e988ac91d16d, 0x12ecd35beddd15ee, 0xd6f86b2ce9e2396, 0xa61f7cdbb6f0bbfc, 0x440c01ef30573c1, 0x3625b800385e8036,
    0x1261ce1fc097ed35, 0x8288605238573c88, 0x6a6859d1984fcaf8, 0xb55914f6e51ae067, 0x3f66dd99708bfb20, 0xf83e6aea42180c0d, 0x9c426d26829c1baf, 0xc9c93e4be3e08494,
    0x9fd665cd2f1e7a5b, 0x8c09ef7174e2a7b4, 0x7d981a2dd4100f05, 0x2e27003aa49f5296, 0x4f8b8963133f1707, 0x90d9c782ec35fdab, 0x8d479d72a6181e87, 0x424200ee2a2cbbf7,
    0xc4b2d75e262e061e, 0xd86bc5e8bc0d8399, 0xdffb2d8b1578f44d, 0xcca8560cb854f3e2, 0x3974d432eb7e6762, 0xbdff4528a86a0698, 0xa49483697a0741d1, 0x4c3c39447e9f72a3,
    0xe0c7e99e11ba8154, 0xaf07e8a093e3f6bd, 0xef7600183320fe8a, 0x6cc381d183027fdf, 0x62273c3631615461, 0x3261df25eefd883c, 0x4aabacb4090c8331, 0x990c765b317c0656,
    0xc362454532a5fb25, 0x1f6226453ae24dc6, 0x1cf985bdffdde889, 0xa138c7d1a347d8e0, 0xe50f351eafa6714d, 0x438f0ab963640869, 0x6e7694d1f998de87, 0xd1f4a990e2478860,
    0x10adf844e75de094, 0x4cff996f789a5959, 0x8d2e7b3952e7b714, 0x6657d4c13473aa42, 0xe19edcbe8bda03b7, 0xb09ba10828dc5800, 0x303b3e0a9c16d6fc, 0x86bd16e3d194357d,
    0xe39820bb083dc5e8, 0x58d51b8a969c22ac, 0x54c4248ec23e7b2a, 0x83d2886d2ffd8b8e, 0x13ab742d4e7794a4, 0xa18aeff0be3a5ec9, 0x1819c8192f08bb37, 0xbec699a724dba0a7,
    0xd57e22b4c507a73a, 0x416bcda8ccf666d7, 0x98f7729c16bb7d49, 0x50b60cdbb90969a5, 0x4dc279fa648213ee, 0xfacc7d61a8ee18d2, 0x204de19b3a9a9728, 0x2bbf469fbc620271,
    0x83a907b3325b2979, 0xc5887ce23d22dbca, 0xf947219cde208d81, 0xb105ea55d3acb6c1, 0x6a867fd478738065, 0x7415615b48b7e2d0, 0x3ad18618aa022389, 0xa568be576bea6941,
    0xc6d3b35fd48a3218, 0x1ccb0c83ff0b9a6e, 0x7349ae2bc6349a04, 0xe640b0401c2a1cda, 0xf9f74527a09dc74d, 0x71e06599a21e97d0, 0xaba4923fcd354f67, 0xae2b1d3835861bef,
    0x61c38382b32f5588, 0x5c2a7960ebed26c1, 0xb8b343f11fa668fd, 0x9466349f6fd7e21, 0x700d5fbf0413350c, 0xc7e181acc63fd995, 0x7b19ff557bc8d6f9, 0xe78607b0038480e7,
    0x9e6655677045a166, 0x29b9aa48face39e6, 0xf4afa2dacb5b8c13, 0xbd318bddb82a111d, 0x750445ed6d476dc8, 0x16a93ff07105d1c0, 0x56924db13a956766, 0x519b7be5f7674ed,
    0xe0129ac9bf13b0de, 0x41900e09d58f0e8c, 0xedd93c86f706a955, 0x37ba1c08bcf24a14, 0xd4e56dc0a4c45567, 0xc43efaa088af1924, 0x87bb8e79550ea207, 0xdb467371048b1823,
    0x8a502da9134dc32e, 0x99b2b4bff5e74b22, 0x8d06f9e760fc116e, 0x5c715496b5abdc22, 0xf2b03dff929ce31, 0x2d84e6d3004e70b5, 0x3e5f79c782b9ab49, 0xaf1170d08477ca86,
    0xa06b231f2d2241b0, 0x286ad787f98cfa05, 0xb2b9252b6e137f5e, 0xead76107e3001fb3, 0xea475111c2e5a693, 0xf1cea67baf61ce74, 0xcf306a39224610e4, 0x634815a74fdd07be,
    0x68d65fdf5799dd60, 0x31d48225ab241b86, 0xc565ef6ffbfc428e, 0xb03b8d075873274c, 0x67a4ec6837abf8df, 0x545b750071066292, 0xa0e6faebda5fb9f5, 0x806b3d7313ed3463,
    0x7e64909868401474, 0x29721a14cfd504e5, 0x248716eb8eb222fa, 0x9ce31ffdf7f59bdf, 0x56af2905af4f1b77, 0xd08ebef87377c2f3, 0x4bf0e09a8830c04a, 0x65e00eb49fb9551,
    0x10e601950eb9de7f, 0xe9e9f63c5bdb299b, 0xa6422765ebf76e6e, 0xb0ba1058e022ba4a, 0x42943d1ef33763ed, 0x2edbf0210d20e896, 0xf74f39437e74e880, 0x7af0b34e4f2cbb5,
    0x4192cc1bed68d0d8, 0xea8b50b6ad20ec0f, 0x73bff42547b1c4f0, 0xe933a1da34e4b2a, 0x13c06a4397dd3519, 0xd6e21a0ae4abc7ec, 0x2769fada31011ecc, 0x637383ed59c62f9e,
    0xb456096d3a8d3011, 0x718c2802ce437652, 0x3675840fc521b47, 0x821d6ec12ec1236c, 0x5ba3a0590f1637bb, 0x5529b0c68746b4b8, 0xe38d462c891dedbd, 0x482481742d30869b,
    0xdafc3e38c4598081, 0x690f06d069633c55, 0xcad385cddf1f9029, 0x3c32e3386f1f2235, 0x241e602913438576, 0xb84aabc91f58e42d, 0xe08d04f615beec07, 0xcd9290620eaf5e83,
    0xa53a5ccc8b3d5681, 0xf98029a82ee8eec5, 0x68abfc978c15f213, 0x1341daa9b76fa790, 0x13d5b3962946ff4f, 0x9aed766a67bb75b4, 0x3cca935054ddb48f, 0x9d6be535011e293e,
    0x446f917a5c0b5460, 0x31096d026597c180, 0xe1e65cc1197d2e61, 0xfd04710d64b9dbc6, 0x3d4bd43e55f21e5, 0xe8eccbdba0a63727, 0xcb9a645e23152f0a, 0x9e20bf8faac59d00,
    0xf65b469a4b36ff46, 0x2b6c278b5d92dfaa, 0xc1b18991949c5e8e, 0xe770d9cd46f310d5, 0xcd96da6edf8f84aa, 0x967f96bf9470aa04, 0xbe8904c2dc6c9533, 0x84d0d2a7a70a0f5d,
    0x44f242ec917b18de, 0x9f44f2b68974fe27, 0xfc7f04e5ca3022d, 0xe5087923eb7d4ebf, 0xc7ead8d5d5cefee9, 0x7fab179165e180af, 0x7d2eff43421c8eb1, 0x331355027b8a35fc,
    0x173471c3f839f9d8, 0xc125cfb6bd3c4159, 0x2cc2d54097703ebb, 0x903a17d7e1942fbe, 0xd1172d6483cbb08a, 0xa43e6303a685dc65, 0x658c485331763f90, 0x3386347391e6bb63,
    0xd10463fd9de4a393, 0x4e082cbf7bdac0b9, 0xd8960c17556c3a36, 0x50ccfc1a57235092, 0x255167e53d9944fe, 0x9254ce1d357c2579, 0x12f8e14635f58d97, 0xa8be9d0c71d8b9bb,
    0x53cdd7665ad3d2b5, 0x46b389b67de0f00e, 0xe64bbd8bef87f857, 0x807a7f51cae2b610, 0xd443c6d005194571, 0xb41c168125f5455f, 0xe48d5d9998d856ef, 0xb72a801cfc66fa97,
    0x6e78e53e87965716, 0xc1591c8dea1826b2, 0xe16bc9be7cfcc9de, 0x64728a847c801a0a, 0x606933bb221a9e13, 0x7caba42ab83600eb, 0x6123ef2d6c7e687e, 0xaa57fe91c0da855c,
    0xe4b62e14ce34c56, 0xacb6f7095461011f, 0x435603b484826036, 0x45ae513b17cea8c3, 0x2d672d77ffe5b6d, 0x37d147f14191949, 0xa436ec3a156fa14e, 0x250d9a1a46ab3c15,
    0x898a55cf86a2976, 0x6db2db0fa71f7b1a, 0x30381a2f1cf9ff73, 0x61c68141bf4ebcc7, 0x70b85b829826b08d, 0x1e042fc1bb274180, 0xcf8cc4e4bc158684, 0xcbadc6bd5aaa57e1,
    0x6896116ea5bd46df, 0x281cde93337e17f2, 0x2684bf7b46560dd6, 0x918484e4bcca40cb, 0x5d4cd096b6cdb055, 0xa3eb97bd24261a19, 0xb93a46e31699388f, 0xc0e5ab9171ee3c8a,
    0xd73007ba0b7ea241, 0xabce3187abb6ec6, 0xbe506a368265f669, 0xec4544d057bbdeca, 0x60a317558f8606f2, 0xb695773256b996e5, 0x4f28ccf5c6bfbbe7, 0x1563d57e919b5a14,
    0x266c127fedeb3f28, 0x23a32792bd2df1f, 0xa9aaa1011743edab, 0xd6c19a0b31c4b2e8, 0xdc425197c2d8ca56, 0xc034dc12dde717cd, 0xa8fe79e73bc80b8e, 0x6e45298fe7880f80,
    0x7a754b4afa1861c1, 0x51ef0abcd05b5a3f, 0x578d29967d469f6f, 0x9da2c33e9f29bc14, 0xe5e932bb7698362c, 0xc5f6995e2c99951b, 0x9ab99420a1191f1b, 0xbec2a409180e12d9,
    0xe4f131784ed73c8, 0x81bdf1d1df540b93, 0x5e4be0955dfb7984, 0x3435f4f9cdb9ec9f, 0xebbab4c04e39250d, 0x70bf71e965acd12, 0x4670621f90539c29, 0x8a7b6df592be8bf,
    0xa5e89f752a832ffa, 0x4d889cfae6ca5771, 0x7397636a1321c584, 0x803094b8da7fcd5c, 0x56cd941bfc55e8a6, 0xed67eaa889f0f6d3, 0xf31a813bcfb4acde, 0xbeffce606bff09d8,
    0x8efe627cdbcec9d2, 0x446905f6ee27de58, 0x89e7bb12a816549b, 0x869b6f22c5c327d3, 0xa923443ef63977f2, 0x7e4c46e3c22cb79f, 0x7502a3fcdf74d204, 0xe3e533f28b50b9a9,
    0x8e84cc5bba0b207c, 0x6b545660e70a8acd, 0x285d7404d109b355, 0x57f9e2ff050fd83, 0x463369c7a1f0ffa, 0xb9525c927c2655a3, 0xaae49fc5575a016e, 0xba44be47fe59dbe9,
    0x27761aa5b03ad92e, 0xc5bf5d59e6c27b58, 0x260b2d9354bc7535, 0xb1e4f55feb6841fb, 0x8da26c6bb6746383, 0xd15d0277ea336cd6, 0xc290da56f994420c, 0x571b0fc39b535fe2,
    0xd88019eb6a9a86b2, 0x74feb78e645bd003, 0x85d2df3d3719acd3, 0x6590433df8ff2a65, 0xd7df231f2e2b4ec4, 0x9d244a3b7bc523d7, 0xbd0202ee5e1d1a78, 0x6687669a0e7f9e28,
    0xb9d8283afc757626, 0x13ea37fbe1e5c067, 0xc5c8209e63a39981, 0xd0a55012b0df2ccb, 0x7488f85e69febb87, 0xa2abf2ba0f107f07, 0x1f2c167cbb809b22, 0x77088f859fd00fdd,
    0xce3867b1c00eb665, 0xec3badc5d93a95f1, 0xac2edfe4b64c2dcc, 0xdff40e57b4d5a0d0, 0x9ce62a79cfd3413f, 0xdb5764705e217f06, 0xe77d20970c0ae7c8, 0x49f89f53a7b5bf2e,
    0xc87b628158b86592, 0x52c1f761cedb8547, 0x44b8742692fc5bff, 0x1a82a7afe7de0f20, 0x1c0aa502390dd3b7, 0x6f6ff9c68fcd6022, 0x7513b462e9aa36d2, 0x2090ae42d1f00dcf,
    0xab0a1daccf12f20b, 0xd5be4e6a1fe47db9, 0x6fb88c26ae6d8d88, 0x5e214e58636cfab, 0xf80dae8898482eee, 0x59950b55c42d4fe9, 0xced8dfa9cead398d, 0x430dac5d1b1fd0bc,
    0x29dab7e1bb992a22, 0xabb9abd29e306a13, 0x34c0176dbc2f344f, 0xaa7230965992b84d, 0x8b1711e59b03371c, 0x65853f93ac294e40, 0xd12ebdc977889873, 0x57ac2bf8097bb04f,
    0x8f0eed467a5a517, 0x1ad0b7883d081f31, 0x71e080a26ba63a37, 0xd8c4e19c9a15b7b2, 0xf4dc06bad13527e0, 0xa7554f6122c0161e, 0xb557383a9af49e65, 0x4d78cc90c9e80329,
    0x99da096cce619422, 0x7c91b7d33e51a063, 0x262f84e85fabdd6e, 0x2d073bc8b93c7462, 0x38d1f0889bcc7a91, 0x386f651940a1ea46, 0xb44b074860138847, 0x273a1a340818fbb3,
    0x35064d2eb7420920, 0x950f52a196fc733d, 0xf05ac9f0e52be90e, 0x251e137006fc461e, 0x1b2d4661f19322a4, 0x971f6c68b0024e56, 0x7ebb7410ee6dc20f, 0xe1f75eacb825ab4e,
    0x126b2da5dc4b7a1b, 0xc1016b5409731961, 0xbced8f702efcb822, 0x5e56580f7e632fa0, 0x91a28dad43fb75f4, 0xfe911db995d90659, 0x4ef1b104126cc180, 0xc3719110e6c10a3,
    0xe7ce1f8a58531305, 0x1d3339f009eeeaa2, 0x2fe5218acdefbefb, 0x42ca496d3e9ca063, 0x1caeb469a949eba7, 0xab443b7551add457, 0xf81b3a15053bf30c, 0x4186da3b665b3bef,
    0x58dea569fb315474, 0xd8b8a7d9fbbdf811, 0xc584a389f0fe7ea6, 0x9ae0fedcba6213e9, 0x36262a3e14ee305d, 0xf6151542aa1f133b, 0xb247fb8c65b371ab, 0xc7c9a7af4eef7940,
    0x13c35d40f7ccfd9c, 0xcb13cb8f2b97727, 0x58215dc343e085c1, 0xcaf8c7281dd4dc74, 0x7b547f67c6013c94, 0x32884ca46fdb6c12, 0xe3bc3acf542b6bfa, 0xf8ce41873b9e5f77,
    0x3e5519d286c8f18d, 0xcb7c748fb7081a26, 0xae1880333ed104ca, 0x3d558eeecc45b6e9, 0x6f7373af889e9585, 0x5fab9b48ba0fe678, 0xa6d40dcdf91f6cc1, 0xbb8b2382eedfbe8d,
    0xa3a03f5c46e564dc, 0x2b4a70c96200dd3a, 0x76baa07712c30daa, 0x612e9f95a3201c89, 0xc700bc912a047900, 0xff84285b31178ea9, 0xef040caa9a4fb654, 0x5d31d4edbbcc0c6a,
    0x2c2ca8caab993fcf, 0x515b4e91fc152318, 0xf678e346a559baa7, 0x57a1f41d91bcc99d, 0x192781363fb25601, 0x4a11215e8ab7bffc, 0xa3c5e140f5563c52, 0x7f20657ebdc92f22,
    0xbffc0d39284c48d6, 0x3c283be5d3d1209a, 0x2145392dc82864f9, 0xcddf3daef5efc92e, 0xf4ad080752e9b5c9, 0x1a856be4948163c, 0x47edb8a4a0becbe2, 0xe194208d4a65457c,
    0x2ba453af9003339c, 0xed5641b88ea353c2, 0x524b452bd5c610c8, 0x545185fd0ee3531, 0x71c83a67da6d8b32, 0xf06d064524d0743b, 0xa9816aeeec043e70, 0x7c22c8cf14512ca,
    0x84d7eede753565e8, 0x851bcb854f8767ab, 0x8bda6a75efd15a48, 0xd46d1b0ada85ddce, 0x48ab0922dbeb8b51, 0xed1509d7b2ed4150, 0xed5b7f65645a7bc6, 0xbccd4b183f93d34c,
};
