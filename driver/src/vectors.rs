//! Published HighwayHash test vectors (key 00..1f, data 00..n).
#![allow(clippy::all)]
pub const V64: [u64; 65] = [
    0x907a56de22c26e53,
    0x7eab43aac7cddd78,
    0xb8d0569ab0b53d62,
    0x5c6befab8a463d80,
    0xf205a46893007eda,
    0x2b8a1668e4a94541,
    0xbd4ccc325befca6f,
    0x4d02ae1738f59482,
    0xe1205108e55f3171,
    0x32d2644ec77a1584,
    0xf6e10acdb103a90b,
    0xc3bbf4615b415c15,
    0x243cc2040063fa9c,
    0xa89a58ce65e641ff,
    0x24b031a348455a23,
    0x40793f86a449f33b,
    0xcfab3489f97eb832,
    0x19fe67d2c8c5c0e2,
    0x04dd90a69c565cc2,
    0x75d9518e2371c504,
    0x38ad9b1141d3dd16,
    0x0264432ccd8a70e0,
    0xa9db5a6288683390,
    0xd7b05492003f028c,
    0x205f615aea59e51e,
    0xeee0c89621052884,
    0x1bfc1a93a7284f4f,
    0x512175b5b70da91d,
    0xf71f8976a0a2c639,
    0xae093fef1f84e3e7,
    0x22ca92b01161860f,
    0x9fc7007ccf035a68,
    0xa0c964d9ecd580fc,
    0x2c90f73ca03181fc,
    0x185cf84e5691eb9e,
    0x4fc1f5ef2752aa9b,
    0xf5b7391a5e0a33eb,
    0xb9b84b83b4e96c9c,
    0x5e42fe712a5cd9b4,
    0xa150f2f90c3f97dc,
    0x7fa522d75e2d637d,
    0x181ad0cc0dffd32b,
    0x3889ed981e854028,
    0xfb4297e8c586ee2d,
    0x6d064a45bb28059c,
    0x90563609b3ec860c,
    0x7aa4fce94097c666,
    0x1326bac06b911e08,
    0xb926168d2b154f34,
    0x9919848945b1948d,
    0xa2a98fc534825ebe,
    0xe9809095213ef0b6,
    0x582e5483707bc0e9,
    0x086e9414a88a6af5,
    0xee86b98d20f6743d,
    0xf89b7ff609b1c0a7,
    0x4c7d9cc19e22c3e8,
    0x9a97005024562a6f,
    0x5dd41cf423e6ebef,
    0xdf13609c0468e227,
    0x6e0da4f64188155a,
    0xb755ba4b50d7d4a1,
    0x887a3484647479bd,
    0xab8eebe9bf2139a0,
    0x75542c5d4cd2a6ff,
];
pub const V128: [[u64; 2]; 65] = [
    [0x0fed268f9d8ffec7, 0x33565e767f093e6f],
    [0xd6b0a8893681e7a8, 0xdc291df9eb9cdcb4],
    [0x3d15ad265a16da04, 0x78085638dc32e868],
    [0x0607621b295f0beb, 0xbfe69a0fd9cedd79],
    [0x26399eb46dace49e, 0x2e922ad039319208],
    [0x3250bdc386d12ed8, 0x193810906c63c23a],
    [0x6f476ab3cb896547, 0x7cde576f37ed1019],
    [0x2a401fca697171b4, 0xbe1f03ff9f02796c],
    [0xa1e96d84280552e8, 0x695cf1c63bec0ac2],
    [0x142a2102f31e63b2, 0x1a85b98c5b5000cc],
    [0x51a1b70e26b6bc5b, 0x929e1f3b2da45559],
    [0x88990362059a415b, 0xbed21f22c47b7d13],
    [0xcd1f1f5f1caf9566, 0xa818ba8ce0f9c8d4],
    [0xa225564112fe6157, 0xb2e94c78b8ddb848],
    [0xbd492febd1cc0919, 0xcecd1dbc025641a2],
    [0x142237a52bc4af54, 0xe0796c0b6e26bcd7],
    [0x414460ffd5a401ad, 0x029ea3d5019f18c8],
    [0xc52a4b96c51c9962, 0xecb878b1169b5ea0],
    [0xd940ca8f11fbeace, 0xf93a46d616f8d531],
    [0x8ac49d0ae5c0cbf5, 0x3ffdbf8df51d7c93],
    [0xac6d279b852d00a8, 0x7dcd3a6ba5ebaa46],
    [0xf11621bd93f08a56, 0x3173c398163dd9d5],
    [0x0c4ce250f68cf89f, 0xb3123cda411898ed],
    [0x15ab97ed3d9a51ce, 0x7ce274479169080e],
    [0xcd001e198d4845b8, 0xd0d9d98bd8aa2d77],
    [0x34f3d617a0493d79, 0x7dd304f6397f7e16],
    [0x5cb56890a9f4c6b6, 0x130829166567304f],
    [0x30da6f8b245bd1c0, 0x6f828b7e3fd9748c],
    [0xe0580349204c12c0, 0x93f6da0cac5f441c],
    [0xf648731ba5073045, 0x5fb897114fb65976],
    [0x024f8354738a5206, 0x509a4918eb7e0991],
    [0x06e7b465e8a57c29, 0x52415e3a07f5d446],
    [0x1984df66c1434aaa, 0x16fc1958f9b3e4b9],
    [0x111678afe0c6c36c, 0xf958b59de5a2849d],
    [0x773fbc8440fb0490, 0xc96ed5d243658536],
    [0x91e3dc710bb6c941, 0xea336a0bc1eeace9],
    [0x25cfe3815d7ad9d4, 0xf2e94f8c828fc59e],
    [0xb9fb38b83cc288f2, 0x7479c4c8f850ec04],
    [0x1d85d5c525982b8c, 0x6e26b1c16f48dbf4],
    [0x8a4e55bd6060bde7, 0x2134d599058b3fd0],
    [0x2a958ff994778f36, 0xe8052d1ae61d6423],
    [0x89233ae6be453233, 0x3acf9c87d7e8c0b9],
    [0x4458f5e27ea9c8d5, 0x418fb49bca2a5140],
    [0x090301837ed12a68, 0x1017f69633c861e6],
    [0x330dd84704d49590, 0x339df1ad3a4ba6e4],
    [0x569363a663f2c576, 0x363b3d95e3c95ef6],
    [0xacc8d08586b90737, 0x2ba0e8087d4e28e9],
    [0x39c27a27c86d9520, 0x8db620a45160932e],
    [0x8e6a4aeb671a072d, 0x6ed3561a10e47ee6],
    [0x0011d765b1bec74a, 0xd80e6e656ede842e],
    [0x2515d62b936ac64c, 0xce088794d7088a7d],
    [0x91621552c16e23af, 0x264f0094eb23ccef],
    [0x1e21880d97263480, 0xd8654807d3a31086],
    [0x39d76aaf097f432d, 0xa517e1e09d074739],
    [0x0f17a4f337c65a14, 0x2f51215f69f976d4],
    [0xa0fb5cda12895e44, 0x568c3dc4d1f13cd1],
    [0x93c8fc00d89c46ce, 0xbad5da947e330e69],
    [0x817c07501d1a5694, 0x584d6ee72cbfac2b],
    [0x91d668af73f053bf, 0xf98e647683c1e0ed],
    [0x5281e1ef6b3ccf8b, 0xbc4cc3df166083d8],
    [0xaad61b6dbeaaeeb9, 0xff969d000c16787b],
    [0x4325d84fc0475879, 0x14b919bd905f1c2d],
    [0x79a176d1aa6ba6d1, 0xf1f720c5a53a2b86],
    [0x74bd7018022f3ef0, 0x3aea94a8ad5f4bcb],
    [0x98bb1f7198d4c4f2, 0xe0bc0571de918fc8],
];
pub const V256: [[u64; 4]; 65] = [
    [0xdd44482ac2c874f5, 0xd946017313c7351f, 0xb3aebeccb98714ff, 0x41da233145751df4],
    [0xedb941bce45f8254, 0xe20d44ef3dcac60f, 0x72651b9bcb324a47, 0x2073624cb275e484],
    [0x3fdff9df24afe454, 0x11c4bf1a1b0ae873, 0x115169cc6922597a, 0x1208f6590d33b42c],
    [0x480aa0d70dd1d95c, 0x89225e7c6911d1d0, 0x8ea8426b8bbb865a, 0xe23dfbc390e1c722],
    [0xc9cfc497212be4dc, 0xa85f9df6afd2929b, 0x1fda9f211df4109e, 0x07e4277a374d4f9b],
    [0xb4b4f566a4dc85b3, 0xbf4b63ba5e460142, 0x15f48e68cddc1de3, 0x0f74587d388085c6],
    [0x6445c70a86adb9b4, 0xa99cfb2784b4ceb6, 0xdae29d40a0b2db13, 0xb6526df29a9d1170],
    [0xd666b1a00987ad81, 0xa4f1f838eb8c6d37, 0xe9226e07d463e030, 0x5754d67d062c526c],
    [0xf1b905b0ed768bc0, 0xe6976ff3fcff3a45, 0x4fbe518dd9d09778, 0xd9a0afeb371e0d33],
    [0x80d8e4d70d3c2981, 0xf10fbbd16424f1a1, 0xcf5c2dbe9d3f0cd1, 0xc0bfe8f701b673f2],
    [0xade48c50e5a262be, 0x8e9492b1fdfe38e0, 0x0784b74b2fe9b838, 0x0e41d574db656dcd],
    [0xa1be77b9531807cf, 0xba97a7de6a1a9738, 0xaf274cef9c8e261f, 0x3e39b935c74ce8e8],
    [0x15ad3802e3405857, 0x9d11cbdc39e853a0, 0x23ea3e993c31b225, 0x6cd9e9e3caf4212e],
    [0x01c96f5eb1d77c36, 0xa367f9c1531f95a6, 0x1f94a3427cdadcb8, 0x97f1000abf3bd5d3],
    [0x0815e91eeeff8e41, 0x0e0c28fa6e21df5d, 0x4ead8e62ed095374, 0x3ffd01da1c9d73e6],
    [0xc11905707842602e, 0x62c3db018501b146, 0x85f5ad17fa3406c1, 0xc884f87bd4fec347],
    [0xf51ad989a1b6cd1f, 0xf7f075d62a627bd9, 0x7e01d5f579f28a06, 0x1ad415c16a174d9f],
    [0x19f4cfa82ca4068e, 0x3b9d4abd3a9275b9, 0x8000b0dde9c010c6, 0x8884d50949215613],
    [0x126d6c7f81ab9f5d, 0x4edaa3c5097716ee, 0xaf121573a7dd3e49, 0x9001ac85aa80c32d],
    [0x06aabef9149155fa, 0xdf864f4144e71c3d, 0xfdbabce860bc64da, 0xde2ba54792491cb6],
    [0xadfc6b4035079fdb, 0xa087b7328e486e65, 0x46d1a9935a4623ea, 0xe3895c440d3cee44],
    [0xb5f9d31deea3b3df, 0x8f3024e20a06e133, 0xf24c38c8288fe120, 0x703f1dcf9bd69749],
    [0x2b3c0b854794efe3, 0x1c5d3f969bdacea0, 0x81f16aafa563ac2e, 0x23441c5a79d03075],
    [0x418af8c793fd3762, 0xbc6b8e9461d7f924, 0x776ff26a2a1a9e78, 0x3aa0b7bfd417ca6e],
    [0xcd03ea2ad255a3c1, 0x0185fee5b59c1b2a, 0xd1f438d44f9773e4, 0xbe69dd67f83b76e4],
    [0xf951a8873887a0fb, 0x2c7b31d2a548e0ae, 0x44803838b6186efa, 0xa3c78ec7be219f72],
    [0x958ff151ea0d8c08, 0x4b7e8997b4f63488, 0xc78e074351c5386d, 0xd95577556f20eefa],
    [0x29a917807fb05406, 0x3318f884351f578c, 0xdd24ea6ef6f6a7fa, 0xe74393465e97aeff],
    [0x98240880935e6ccb, 0x1fd0d271b09f97da, 0x56e786472700b183, 0x291649f99f747817],
    [0x1bd4954f7054c556, 0xffdb2eff7c596ceb, 0x7c6ac69a1bab6b5b, 0x0f037670537fc153],
    [0x8825e38897597498, 0x647cf6ebaf6332c1, 0x552bd903dc28c917, 0x72d7632c00bfc5ab],
    [0x6880e276601a644d, 0xb3728b20b10fb7da, 0xd0bd12060610d16e, 0x8aef14ef33452ef2],
    [0xbce38c9039a1c3fe, 0x42d56326a3c11289, 0xe35595f764fcaea9, 0xc9b03c6bc9475a99],
    [0xf60115cbf034a6e5, 0x6c36ea75bfce46d0, 0x3b17c8d382725990, 0x7edaa2ed11007a35],
    [0x1326e959edf9dea2, 0xc4776801739f720c, 0x5169500fd762f62f, 0x8a0dd0d90a2529ab],
    [0x935149d503d442d4, 0xff6bb41302dad144, 0x339cb012cd9d36ec, 0xe61d53619ecc2230],
    [0x528bc888aa50b696, 0xb8aeeca36084e1fc, 0xa158151ec0243476, 0x02c14aad097cec44],
    [0xbed688a72217c327, 0x1ee65114f760873f, 0x3f5c26b37d3002a6, 0xddf2e895631597b9],
    [0xe7db21cf2b0b51ad, 0xfafc6324f4b0ab6c, 0xb0857244c22d9c5b, 0xf0ad888d1e05849c],
    [0x05519793cd4dcb00, 0x3c594a3163067deb, 0xac75081acf119e34, 0x5ac86297805cb094],
    [0x09228d8c22b5779e, 0x19644db2516b7e84, 0x2b92c8abf83141a0, 0x7f785ad725e19391],
    [0x59c42e5d46d0a74b, 0x5ea53c65ca036064, 0x48a9916bb635aeb4, 0xbae6df143f54e9d4],
    [0x5eb623696d03d0e3, 0xd53d78bcb41da092, 0xfe2348dc52f6b10d, 0x64802457632c8c11],
    [0x43b61bb2c4b85481, 0xc6318c25717e80a1, 0x8c4a7f4d6f9c687d, 0xbd0217e035401d7c],
    [0x7f51ca5743824c37, 0xb04c4d5eb11d703a, 0x4d511e1ecbf6f369, 0xd66775ea215456e2],
    [0x39b409eef87e45cc, 0x52b8e8c459fc79b3, 0x44920918d1858c24, 0x80f07b645eee0149],
    [0xce8694d1be9ad514, 0xbfa19026526836e7, 0x1ea4fdf6e4902a7d, 0x380c4458d696e1fe],
    [0xd189e18bf823a0a4, 0x1f3b353be501a7d7, 0xa24f77b4e02e2884, 0x7e94646f74f9180c],
    [0xaff8c635d325ec48, 0x2c2e0aa414038d0b, 0x4ed37f611a447467, 0x39ec38e33b501489],
    [0x2a2bfdad5f83f197, 0x013d3e6ebef274cc, 0xe1563c0477726155, 0xf15a8a5de932037e],
    [0xd5d1f91ec8126332, 0x10110b9bf9b1ff11, 0xa175ab26541c6032, 0x87badc5728701552],
    [0xc7b5a92cd8082884, 0xdda62ab61b2eeefb, 0x8f9882ecfeae732f, 0x6b38bd5cc01f4ffb],
    [0xcf6ef275733d32f0, 0xa3f0822da2bf7d8b, 0x304e7435f512406a, 0x0b28e3efebb3172d],
    [0xe698f80701b2e9db, 0x66ae2a819a8a8828, 0x14ea9024c9b8f2c9, 0xa7416170523eb5a4],
    [0x3a917e87e307edb7, 0x17b4dedae34452c1, 0xf689f162e711cc70, 0x29ce6bfe789cdd0e],
    [0x0eff3ad8cb155d8e, 0x47cd9ead4c0844a2, 0x46c8e40ee6fe21eb, 0xdef3c25df0340a51],
    [0x03fd86e62b82d04d, 0x32ab0d600717136d, 0x682b0e832b857a89, 0x138ce3f1443739b1],
    [0x2f77c754c4d7f902, 0x1053e0a9d9adbfea, 0x58e66368544ae70a, 0xc48a829c72dd83ca],
    [0xf900eb19e466a09f, 0x31be9e01a8c7d314, 0x3afec6b8ca08f471, 0xb8c0eb0f87ffe7fb],
    [0xdb277d8fbe3c8efb, 0x53ce6877e11aa57b, 0x719c94d20d9a7e7d, 0xb345b56392453cc9],
    [0x37639c3bdba4f2c9, 0x6095e7b336466dc8, 0x3a8049791e65b88a, 0x82c988cde5927cd5],
    [0x6b1fb1a714234ae4, 0x20562e255ba6467e, 0x3e2b892d40f3d675, 0xf40ce3fbe41ed768],
    [0x8ee11cb1b287c92a, 0x8fc2aaeff63d266d, 0x66643487e6eb9f03, 0x578aa91de8d56873],
    [0xf5b1f8266a3aeb67, 0x83b040be4dec1add, 0x7fe1c8635b26fbae, 0xf4a3a447defed79f],
    [0x90d8e6ff6ac12475, 0x1a422a196edac1f2, 0x9e3765fe1f8eb002, 0xc1bdd7c4c351cfbe],
];
