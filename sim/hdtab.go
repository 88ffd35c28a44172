//go:build go1.18

package main

// hdSpecialSeed is a seed whose children include keys that are rare by nature:
// private keys, tweaks and x coordinates that start with zero bytes.
const hdSpecialSeed = "deterministic simulation seed #1"

// hdSpecial lists, per curve, the children of that seed's root with such a
// private key, tweak or public key.
var hdSpecial = map[uint32][]uint32{
	0xecc00000: {0x52, 0x17b, 0x2a8, 0x36e9, 0x4bc0, 0xf5de, 0x10a37dd, 0x2387faf, 0x80000066, 0x8000007e, 0x8000027d, 0x80003aae, 0x8000a926, 0x80409fd5, 0x804250ee},
	0xecc00001: {0x80000057, 0x80000066, 0x8000027d, 0x80003aae, 0x8000a926, 0x80409fd5, 0x804250ee},
	0xecc00002: {0x102, 0x141, 0x219, 0x155b, 0x569c, 0x10936a, 0x659219, 0x80000066, 0x800001f6, 0x8000027d, 0x80000454, 0x80003aae, 0x8000a926, 0x80409fd5, 0x804250ee},
	0xecc00004: {0xee, 0x153, 0x157e8, 0xa9419e, 0x800000de, 0x80000112, 0x80003246, 0x80004d34, 0x80adbd7e},
	0xecc00005: {0xee, 0x153, 0x157e8, 0xa9419e, 0x800000de, 0x80000112, 0x80003246, 0x80004d34, 0x80adbd7e},
	0xecc00006: {0xee, 0x153, 0x157e8, 0xa9419e, 0x800000de, 0x80000112, 0x80003246, 0x80004d34, 0x80adbd7e},
	0xecc00007: {0xd, 0x94, 0x14d, 0xd116, 0x11756, 0xb5fe45, 0x161b944, 0x80000003, 0x8000002e, 0x8000019f, 0x80001296, 0x8001fe02, 0x80073766, 0x81c1cc35},
	0xecc00008: {0xd, 0x94, 0x14d, 0xd116, 0x11756, 0xb5fe45, 0x161b944, 0x80000003, 0x8000002e, 0x8000019f, 0x80001296, 0x8001fe02, 0x80073766, 0x81c1cc35},
	0xecc00009: {0x0, 0x88, 0x1161, 0x5151, 0x1f1da, 0x9f59a0, 0x80000005, 0x8000001e, 0x800000c0, 0x80009d42, 0x8000cdb0, 0x808a34c1, 0x82897465},
}
