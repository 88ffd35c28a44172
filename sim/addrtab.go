//go:build go1.18

package main

import ae "github.com/blocktree/go-owcdrivers/addressEncoder"

// addrTypes lists every built-in address type with the values its network
// defines, written out independently of the variables they are compared with.
var addrTypes = []addrType{
	{"BTC_mainnetAddressP2PKH", &ae.BTC_mainnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "00", ""},
	{"BTC_mainnetAddressP2SH", &ae.BTC_mainnetAddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "05", ""},
	{"BTC_mainnetAddressBech32V0", &ae.BTC_mainnetAddressBech32V0, "bech32", b32alpha, "bc", "h160", 20, "00", ""},
	{"BTC_mainnetPrivateWIF", &ae.BTC_mainnetPrivateWIF, "base58", b58std, "doubleSHA256", "", 32, "80", ""},
	{"BTC_mainnetPrivateWIFCompressed", &ae.BTC_mainnetPrivateWIFCompressed, "base58", b58std, "doubleSHA256", "", 32, "80", "01"},
	{"BTC_mainnetPublicBIP32", &ae.BTC_mainnetPublicBIP32, "base58", b58std, "doubleSHA256", "", 74, "0488b21e", ""},
	{"BTC_mainnetPrivateBIP32", &ae.BTC_mainnetPrivateBIP32, "base58", b58std, "doubleSHA256", "", 74, "0488ade4", ""},
	{"BTC_testnetAddressP2PKH", &ae.BTC_testnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "6f", ""},
	{"BTC_testnetAddressP2SH", &ae.BTC_testnetAddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "c4", ""},
	{"BTC_testnetAddressBech32V0", &ae.BTC_testnetAddressBech32V0, "bech32", b32alpha, "tb", "h160", 20, "00", ""},
	{"BTC_testnetPrivateWIF", &ae.BTC_testnetPrivateWIF, "base58", b58std, "doubleSHA256", "", 32, "ef", ""},
	{"BTC_testnetPrivateWIFCompressed", &ae.BTC_testnetPrivateWIFCompressed, "base58", b58std, "doubleSHA256", "", 32, "ef", "01"},
	{"BTC_testnetPublicBIP32", &ae.BTC_testnetPublicBIP32, "base58", b58std, "doubleSHA256", "", 74, "043587cf", ""},
	{"BTC_testnetPrivateBIP32", &ae.BTC_testnetPrivateBIP32, "base58", b58std, "doubleSHA256", "", 74, "04358394", ""},
	{"XMR_mainnetPublicAddress", &ae.XMR_mainnetPublicAddress, "XMR", b58std, "keccak256", "", 64, "12", ""},
	{"XMR_mainnetPublicSubAddress", &ae.XMR_mainnetPublicSubAddress, "XMR", b58std, "keccak256", "", 64, "2a", ""},
	{"XMR_mainnetPublicIntegratedAddress", &ae.XMR_mainnetPublicIntegratedAddress, "XMR", b58std, "keccak256", "payID", 72, "13", ""},
	{"XMR_testnetPublicAddress", &ae.XMR_testnetPublicAddress, "XMR", b58std, "keccak256", "", 64, "35", ""},
	{"XMR_testnetPublicSubAddress", &ae.XMR_testnetPublicSubAddress, "XMR", b58std, "keccak256", "", 64, "3f", ""},
	{"XMR_testnetPublicIntegratedAddress", &ae.XMR_testnetPublicIntegratedAddress, "XMR", b58std, "keccak256", "payID", 72, "36", ""},
	{"DOGE_multiSignAddressP2PKH", &ae.DOGE_multiSignAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "16", ""},
	{"ONT_Address", &ae.ONT_Address, "base58", b58std, "doubleSHA256", "h160", 20, "17", ""},
	{"XRP_Address", &ae.XRP_Address, "base58", b58ripple, "doubleSHA256", "h160", 20, "00", ""},
	{"BTM_mainnetAddressBech32V0", &ae.BTM_mainnetAddressBech32V0, "bech32", b32alpha, "bm", "h160", 20, "00", ""},
	{"BTM_testnetAddressBech32V0", &ae.BTM_testnetAddressBech32V0, "bech32", b32alpha, "tm", "h160", 20, "00", ""},
	{"ZEC_mainnet_t_AddressP2PKH", &ae.ZEC_mainnet_t_AddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "1cb8", ""},
	{"ZEC_mainnet_t_AddressP2SH", &ae.ZEC_mainnet_t_AddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "1cbd", ""},
	{"ZEC_testnet_t_AddressP2PKH", &ae.ZEC_testnet_t_AddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "1d25", ""},
	{"ZEC_testnet_t_AddressP2SH", &ae.ZEC_testnet_t_AddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "1cba", ""},
	{"LTC_mainnetAddressP2PKH", &ae.LTC_mainnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "30", ""},
	{"LTC_mainnetAddressP2SH", &ae.LTC_mainnetAddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "05", ""},
	{"LTC_mainnetAddressP2SH2", &ae.LTC_mainnetAddressP2SH2, "base58", b58std, "doubleSHA256", "h160", 20, "32", ""},
	{"LTC_mainnetAddressBech32V0", &ae.LTC_mainnetAddressBech32V0, "bech32", b32alpha, "ltc", "h160", 20, "00", ""},
	{"LTC_mainnetPrivateWIF", &ae.LTC_mainnetPrivateWIF, "base58", b58std, "doubleSHA256", "", 32, "b0", ""},
	{"LTC_mainnetPrivateWIFCompressed", &ae.LTC_mainnetPrivateWIFCompressed, "base58", b58std, "doubleSHA256", "", 32, "b0", "01"},
	{"LTC_mainnetPublicBIP32", &ae.LTC_mainnetPublicBIP32, "base58", b58std, "doubleSHA256", "", 74, "0488b21e", ""},
	{"LTC_mainnetPrivateBIP32", &ae.LTC_mainnetPrivateBIP32, "base58", b58std, "doubleSHA256", "", 74, "0488ade4", ""},
	{"LTC_testnetAddressP2PKH", &ae.LTC_testnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "6f", ""},
	{"LTC_testnetAddressP2SH", &ae.LTC_testnetAddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "c4", ""},
	{"LTC_testnetAddressP2SH2", &ae.LTC_testnetAddressP2SH2, "base58", b58std, "doubleSHA256", "h160", 20, "3a", ""},
	{"LTC_testnetAddressBech32V0", &ae.LTC_testnetAddressBech32V0, "bech32", b32alpha, "tltc", "h160", 20, "00", ""},
	{"LTC_testnetPrivateWIF", &ae.LTC_testnetPrivateWIF, "base58", b58std, "doubleSHA256", "", 32, "ef", ""},
	{"LTC_testnetPrivateWIFCompressed", &ae.LTC_testnetPrivateWIFCompressed, "base58", b58std, "doubleSHA256", "", 32, "ef", "01"},
	{"LTC_testnetPublicBIP32", &ae.LTC_testnetPublicBIP32, "base58", b58std, "doubleSHA256", "", 74, "043587cf", ""},
	{"LTC_testnetPrivateBIP32", &ae.LTC_testnetPrivateBIP32, "base58", b58std, "doubleSHA256", "", 74, "04358394", ""},
	{"BCH_mainnetAddressLegacy", &ae.BCH_mainnetAddressLegacy, "base58", b58std, "doubleSHA256", "h160", 20, "00", ""},
	{"BCH_mainnetAddressCash", &ae.BCH_mainnetAddressCash, "base32PolyMod", b32alpha, "bitcoincash", "h160", 21, "", ""},
	{"XTZ_mainnetAddress_tz1", &ae.XTZ_mainnetAddress_tz1, "base58", b58std, "doubleSHA256", "blake2b160", 20, "06a19f", ""},
	{"XTZ_mainnetAddress_tz2", &ae.XTZ_mainnetAddress_tz2, "base58", b58std, "doubleSHA256", "blake2b160", 20, "06a1a1", ""},
	{"XTZ_mainnetAddress_tz3", &ae.XTZ_mainnetAddress_tz3, "base58", b58std, "doubleSHA256", "blake2b160", 20, "06a1a4", ""},
	{"XTZ_mainnetPublic_edpk", &ae.XTZ_mainnetPublic_edpk, "base58", b58std, "doubleSHA256", "", 32, "0d0f25d9", ""},
	{"XTZ_mainnetPrivate_edsk", &ae.XTZ_mainnetPrivate_edsk, "base58", b58std, "doubleSHA256", "", 64, "0d0f3a07", ""},
	{"XTZ_mainnetPrivate_edsk2", &ae.XTZ_mainnetPrivate_edsk2, "base58", b58std, "doubleSHA256", "", 32, "2bf64e07", ""},
	{"XTZ_mainnetPrivate_spsk", &ae.XTZ_mainnetPrivate_spsk, "base58", b58std, "doubleSHA256", "", 32, "11a2e0c9", ""},
	{"XTZ_mainnetPrivate_p2sk", &ae.XTZ_mainnetPrivate_p2sk, "base58", b58std, "doubleSHA256", "blake2b160", 32, "1051eebd", ""},
	{"ETH_mainnetPublicAddress", &ae.ETH_mainnetPublicAddress, "eip55", "", "", "keccak256", 32, "", ""},
	{"QTUM_mainnetAddressP2PKH", &ae.QTUM_mainnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "3a", ""},
	{"QTUM_mainnetAddressP2SH", &ae.QTUM_mainnetAddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "32", ""},
	{"QTUM_mainnetPrivateWIF", &ae.QTUM_mainnetPrivateWIF, "base58", b58std, "doubleSHA256", "", 32, "80", ""},
	{"QTUM_mainnetPrivateWIFCompressed", &ae.QTUM_mainnetPrivateWIFCompressed, "base58", b58std, "doubleSHA256", "", 32, "80", "01"},
	{"QTUM_mainnetPublicBIP32", &ae.QTUM_mainnetPublicBIP32, "base58", b58std, "doubleSHA256", "", 74, "0488b21e", ""},
	{"QTUM_mainnetPrivateBIP32", &ae.QTUM_mainnetPrivateBIP32, "base58", b58std, "doubleSHA256", "", 74, "0488ade4", ""},
	{"QTUM_testnetAddressP2PKH", &ae.QTUM_testnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "78", ""},
	{"QTUM_testnetAddressP2SH", &ae.QTUM_testnetAddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "6e", ""},
	{"QTUM_testnetPrivateWIF", &ae.QTUM_testnetPrivateWIF, "base58", b58std, "doubleSHA256", "", 32, "ef", ""},
	{"QTUM_testnetPrivateWIFCompressed", &ae.QTUM_testnetPrivateWIFCompressed, "base58", b58std, "doubleSHA256", "", 32, "ef", "01"},
	{"QTUM_testnetPublicBIP32", &ae.QTUM_testnetPublicBIP32, "base58", b58std, "doubleSHA256", "", 74, "043587cf", ""},
	{"QTUM_testnetPrivateBIP32", &ae.QTUM_testnetPrivateBIP32, "base58", b58std, "doubleSHA256", "", 74, "04358394", ""},
	{"DCRD_mainnetAddressP2PKH", &ae.DCRD_mainnetAddressP2PKH, "base58", b58std, "doubleBlake256", "ripemd160", 20, "073f", ""},
	{"DCRD_mainnetAddressP2PK", &ae.DCRD_mainnetAddressP2PK, "base58", b58std, "doubleBlake256", "ripemd160", 20, "1386", ""},
	{"DCRD_mainnetAddressPKHEdwards", &ae.DCRD_mainnetAddressPKHEdwards, "base58", b58std, "doubleBlake256", "ripemd160", 20, "071f", ""},
	{"DCRD_mainnetAddressPKHSchnorr", &ae.DCRD_mainnetAddressPKHSchnorr, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0701", ""},
	{"DCRD_mainnetAddressP2SH", &ae.DCRD_mainnetAddressP2SH, "base58", b58std, "doubleBlake256", "ripemd160", 20, "071a", ""},
	{"DCRD_mainnetAddressPrivate", &ae.DCRD_mainnetAddressPrivate, "base58", b58std, "doubleBlake256", "ripemd160", 20, "22de", ""},
	{"DCRD_testnetAddressP2PKH", &ae.DCRD_testnetAddressP2PKH, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0f21", ""},
	{"DCRD_testnetAddressP2PK", &ae.DCRD_testnetAddressP2PK, "base58", b58std, "doubleBlake256", "ripemd160", 20, "28f7", ""},
	{"DCRD_testnetAddressPKHEdwards", &ae.DCRD_testnetAddressPKHEdwards, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0f01", ""},
	{"DCRD_testnetAddressP2PKHSchnorr", &ae.DCRD_testnetAddressP2PKHSchnorr, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0ee3", ""},
	{"DCRD_testnetAddressP2SH", &ae.DCRD_testnetAddressP2SH, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0efc", ""},
	{"DCRD_testnetAddressPrivate", &ae.DCRD_testnetAddressPrivate, "base58", b58std, "doubleBlake256", "ripemd160", 20, "230e", ""},
	{"DCRD_simnetAddressP2PKH", &ae.DCRD_simnetAddressP2PKH, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0e91", ""},
	{"DCRD_simnetAddressP2PK", &ae.DCRD_simnetAddressP2PK, "base58", b58std, "doubleBlake256", "ripemd160", 20, "276f", ""},
	{"DCRD_simnetAddressPKHEdwards", &ae.DCRD_simnetAddressPKHEdwards, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0e71", ""},
	{"DCRD_simnetAddressPKHSchnorr", &ae.DCRD_simnetAddressPKHSchnorr, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0e53", ""},
	{"DCRD_simnetAddressP2SH", &ae.DCRD_simnetAddressP2SH, "base58", b58std, "doubleBlake256", "ripemd160", 20, "0e6c", ""},
	{"DCRD_simnetAddressPrivate", &ae.DCRD_simnetAddressPrivate, "base58", b58std, "doubleBlake256", "ripemd160", 20, "2307", ""},
	{"NAS_AccountAddress", &ae.NAS_AccountAddress, "base58", b58std, "sha3_256", "sha3_256_ripemd160", 20, "1957", ""},
	{"NAS_SmartContractAddress", &ae.NAS_SmartContractAddress, "base58", b58std, "sha3_256", "sha3_256_ripemd160", 20, "1958", ""},
	{"TRON_mainnetAddress", &ae.TRON_mainnetAddress, "base58", b58std, "doubleSHA256", "keccak256_last_twenty", 20, "41", ""},
	{"TRON_testnetAddress", &ae.TRON_testnetAddress, "base58", b58std, "doubleSHA256", "keccak256_last_twenty", 20, "a0", ""},
	{"ICX_walletAddress", &ae.ICX_walletAddress, "ICX", "", "hx", "sha3_256_last_twenty", 20, "", ""},
	{"VSYS_mainnetAddress", &ae.VSYS_mainnetAddress, "base58", b58std, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, "054d", ""},
	{"VSYS_testnetAddress", &ae.VSYS_testnetAddress, "base58", b58std, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, "0554", ""},
	{"EOS_mainnetPublic", &ae.EOS_mainnetPublic, "eos", b58std, "ripemd160", "", 33, "454f53", ""},
	{"EOS_mainnetPrivateWIF", &ae.EOS_mainnetPrivateWIF, "base58", b58std, "doubleSHA256", "", 32, "80", ""},
	{"EOS_mainnetPrivateWIFCompressed", &ae.EOS_mainnetPrivateWIFCompressed, "base58", b58std, "doubleSHA256", "", 32, "80", "01"},
	{"AE_mainnetAddress", &ae.AE_mainnetAddress, "aeternity", b58std, "doubleSHA256", "", 32, "616b5f", ""},
	{"ATOM_mainnetAddress", &ae.ATOM_mainnetAddress, "bech32", b32alpha, "cosmos", "h160", 20, "", ""},
	{"ATOM_testnetAddress", &ae.ATOM_testnetAddress, "bech32", b32alpha, "cosmos", "h160", 20, "", ""},
	{"ELA_Address", &ae.ELA_Address, "base58", b58std, "doubleSHA256", "h160", 20, "21", ""},
	{"WICC_mainnetAddressP2PKH", &ae.WICC_mainnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "49", ""},
	{"WICC_testnetAddressP2PKH", &ae.WICC_testnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "87", ""},
	{"TV_mainnetAddress", &ae.TV_mainnetAddress, "base58", b58std, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, "1d3b", ""},
	{"TV_testnetAddress", &ae.TV_testnetAddress, "base58", b58std, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, "1d54", ""},
	{"HC_mainnetPublicAddress", &ae.HC_mainnetPublicAddress, "base58", b58std, "doubleBlake256", "h160", 20, "097f", ""},
	{"HC_mainnetAddressP2PK", &ae.HC_mainnetAddressP2PK, "base58", b58std, "doubleBlake256", "h160", 20, "19a4", ""},
	{"HC_mainnetAddressP2PKBliss", &ae.HC_mainnetAddressP2PKBliss, "base58", b58std, "doubleBlake256", "h160", 20, "07c3", ""},
	{"HC_mainnetAddressP2PKH", &ae.HC_mainnetAddressP2PKH, "base58", b58std, "doubleBlake256", "h160", 20, "097f", ""},
	{"HC_mainnetAddressPKHEdwards", &ae.HC_mainnetAddressPKHEdwards, "base58", b58std, "doubleBlake256", "h160", 20, "0960", ""},
	{"HC_mainnetAddressPKHSchnorr", &ae.HC_mainnetAddressPKHSchnorr, "base58", b58std, "doubleBlake256", "h160", 20, "0941", ""},
	{"HC_mainnetAddressPKHBliss", &ae.HC_mainnetAddressPKHBliss, "base58", b58std, "doubleBlake256", "h160", 20, "0958", ""},
	{"HC_mainnetAddressP2SH", &ae.HC_mainnetAddressP2SH, "base58", b58std, "doubleBlake256", "h160", 20, "095a", ""},
	{"HC_mainnetAddressPrivate", &ae.HC_mainnetAddressPrivate, "base58", b58std, "doubleBlake256", "h160", 20, "19ab", ""},
	{"HC_testnetAddressP2PK", &ae.HC_testnetAddressP2PK, "base58", b58std, "doubleBlake256", "h160", 20, "28f7", ""},
	{"HC_testnetAddressP2PKBliss", &ae.HC_testnetAddressP2PKBliss, "base58", b58std, "doubleBlake256", "h160", 20, "0c66", ""},
	{"HC_testnetAddressP2PKH", &ae.HC_testnetAddressP2PKH, "base58", b58std, "doubleBlake256", "h160", 20, "0f21", ""},
	{"HC_testnetAddressPKHEdwards", &ae.HC_testnetAddressPKHEdwards, "base58", b58std, "doubleBlake256", "h160", 20, "0f01", ""},
	{"HC_testnetAddressP2PKHSchnorr", &ae.HC_testnetAddressP2PKHSchnorr, "base58", b58std, "doubleBlake256", "h160", 20, "0ee3", ""},
	{"HC_testnetAddressPKHBliss", &ae.HC_testnetAddressPKHBliss, "base58", b58std, "doubleBlake256", "h160", 20, "0ef9", ""},
	{"HC_testnetAddressP2SH", &ae.HC_testnetAddressP2SH, "base58", b58std, "doubleBlake256", "h160", 20, "0efc", ""},
	{"HC_testnetAddressPrivate", &ae.HC_testnetAddressPrivate, "base58", b58std, "doubleBlake256", "h160", 20, "230e", ""},
	{"HC_simnetAddressP2PK", &ae.HC_simnetAddressP2PK, "base58", b58std, "doubleBlake256", "h160", 20, "276f", ""},
	{"HC_simnetAddressP2PKBliss", &ae.HC_simnetAddressP2PKBliss, "base58", b58std, "doubleBlake256", "h160", 20, "0bef", ""},
	{"HC_simnetAddressP2PKH", &ae.HC_simnetAddressP2PKH, "base58", b58std, "doubleBlake256", "h160", 20, "0e91", ""},
	{"HC_simnetAddressPKHEdwards", &ae.HC_simnetAddressPKHEdwards, "base58", b58std, "doubleBlake256", "h160", 20, "0e71", ""},
	{"HC_simnetAddressPKHSchnorr", &ae.HC_simnetAddressPKHSchnorr, "base58", b58std, "doubleBlake256", "h160", 20, "0e53", ""},
	{"HC_simnetAddressPKHBliss", &ae.HC_simnetAddressPKHBliss, "base58", b58std, "doubleBlake256", "h160", 20, "0e69", ""},
	{"HC_simnetAddressP2SH", &ae.HC_simnetAddressP2SH, "base58", b58std, "doubleBlake256", "h160", 20, "0e6c", ""},
	{"HC_simnetAddressPrivate", &ae.HC_simnetAddressPrivate, "base58", b58std, "doubleBlake256", "h160", 20, "2307", ""},
	{"BNB_mainnetAddress", &ae.BNB_mainnetAddress, "bech32", b32alpha, "bnb", "h160", 20, "", ""},
	{"BSV_mainnetAddressP2PKH", &ae.BSV_mainnetAddressP2PKH, "base58", b58std, "doubleSHA256", "h160", 20, "00", ""},
	{"BSV_mainnetAddressP2SH", &ae.BSV_mainnetAddressP2SH, "base58", b58std, "doubleSHA256", "h160", 20, "05", ""},
	{"EVA_mainnetAddress", &ae.EVA_mainnetAddress, "bech32", b32alpha, "eva", "h160", 20, "", ""},
	{"EVA_testnetAddress", &ae.EVA_testnetAddress, "bech32", b32alpha, "eva", "h160", 20, "", ""},
	{"XCH_mainnetAddress", &ae.XCH_mainnetAddress, "bech32m", b32alpha, "xch", "", 32, "", ""},
}
