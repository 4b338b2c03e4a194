package main

// Primes of throw-away test keys: two of 1024 bits, one each of 1536, 2048 and
// 2064.
const (
	keyP  = "fa8ecfa6ef9875c943761d05bc3e3555319abbb84166b46e44d2f63b3269a98ea21e818a231cf655f7954ff4d5275343fef778ce48a688064dab0de9a36b209b"
	keyQ  = "d8177ea656edb8607e0b931902fdf2f48367b56cf016b8c4ee5a3642ba5d2b1729f85883191f6eb80ebfacf5fa8a9b51ddb54642847592b56f20fadba494fb3d"
	key2P = "df27b474402615f619baa4a49f0ac0170928ca2ceca468e9ce6ba18b8ad12fc9a0d4f2e345ffb65d9f9bc6d3adae2c57eafd6a994409a2329ef50006a43e3769"
	key2Q = "c32432886bb4127246699464dbe63772bad97069fd356ef093eecdd538cc3f84e44f625809d585da734ef52360ef18d51da125316aac9f018e6343b605eceb4f"
	key3P = "dcaa687a3044b9c1aba06ef89f133f2abb16b33ef9bcd083fa6fff26a9e1c1b5067354f30364a8ad6718ebdd94e775a3b2e4c7d05ce8cf0c48848ac62dcd14ea88e813ed641749b12175a66530eebe119ad6a5dabab9be8c4d32ef14f4a8c29f"
	key3Q = "d7bbddf068e004614c1da6977b30e7e5ad31b27a305ad40bb7eb3768318843420e28740120d4b0bf3df543d4a627533a0c7707892873f06965afddc660081c2e503d06e5b063f5ce19295bff226fced3aea77a4b53895efba21bfb303c74f5bd"
	key4P = "d0b7d0743106c5b59c4f1eb9fe793f576734cf60eaf3ad598e8bcc5b3f06e79516f0c5d4751e20143c549e58625d02dbbc964978af6529c81a253096953a33e8a8caa30144755cd53a0c94c957489f1d5246640f36638c3a6ffb8a69ad87a705fe8cd5cce9551197738ae89737699e10fafa3b3318e8fa426d703beb35e7a16f"
	key4Q = "e6962349a15c8e7f0a2a5d4af13ae4af077150e1aa39433375045cd35652022ccaa00bab8dd30cd034bec049de9307783a46d41d9a1e0b14f25c2f61b78d1e94f06ff0463345219a469be6a8ee05f970035a2c8fa4d8a91e88187ded0667b08d80f9335ec8e09283401025fe7d48c5d43b81058b37443c81a51a37c8a2352ffb"
	key5P = "f3955b0df56801408cfeb1ecb98256774e0166dea7b2519fce210f6b65002c4c840b1be43b15df703fcd37f1f2d9cc966b9d073ff74aaf76809091010e2e14ed15ad4dd4d7d4eedbae821ebf9636f9138c6b15450009cd6d852fd76c64e93a999ef0095a833f89776931d10330adfda3dcccb7d4b5f16a4a6d5b76cbf9bc7f7c99"
	key5Q = "ccf0fe0fea8fe6e6ed75783c726851d716b2096ff8422a8c44d4f794a01f2ef93bda27c13c7ac6fd46226e4e21fef36156856cfe22fc22457d6b263cc22dd6077a4e957a4fa64f01759cd1e59c429ab9b2be4259aa658b887d9e76f7769e17b43d31eb7b3d215b77ffae231643152cfa12ab40561efbce18fea808abb6110f2705"
)
