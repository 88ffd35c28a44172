# Property table, read by mkdocs.py.
BTC7 = ["btcTransaction", "hcTransaction", "cxcTransaction", "omniTransaction", "zencashTransaction", "bitcoincashTransaction", "bitcoinsvTransaction"]
def btcfiles(*names):
    return [f"{p}/{n}" for p in BTC7 for n in names]

ALL = ["btcTransaction", "hcTransaction", "cxcTransaction", "omniTransaction", "zencashTransaction", "bitcoincashTransaction", "bitcoinsvTransaction", "addressEncoder", "owkeychain", "vergeTransaction", "rippleTransaction", "ontologyTransaction", "polkadotTransaction"]
prop("C01", "Concurrent callers do not interfere",
 "The address encoder, the HD keychain and every transaction driver may be used by several goroutines at once: each caller obtains, from every call, exactly the result (including the error) it obtains when it is the only user with the same arguments, clock readings and entropy; no call of one caller changes, delays forever or crashes the calls of another, whichever driver or coin each of them uses, and no two of them access the same memory without synchronisation. This includes the first calls made in a process.",
 ["schedules","inputs","histories"],
 "every number of callers, mix of drivers and interleaving of their statements",
 "the tests call each function from a single goroutine",
 [f"{p}" for p in ALL],
 [("package-level tables, prefixes and caches","*/txProfile.go, */base58.go, */bech32.go, addressEncoder/encoderProfile.go, owkeychain/hdprofile.go"),("every exported function","*/transaction.go")],
 "package-level variables",
 "results of concurrent calls",
 "seeded search over interleavings: a scheduler compiled into every statement of the repository decides which caller runs, and the race detector observes each interleaving")

prop("C02", "Results do not depend on what the process did before",
 "Every call of the address encoder, the HD keychain and the transaction drivers gives, for the same arguments, clock readings and entropy, the same result (including the error) whatever calls were made before in the same process — of the same or other drivers, successful, refused, given damaged data or failing for lack of entropy — and the same as in a freshly started process; no call leaves something behind that changes a later one, and no result depends on the order in which maps are iterated.",
 ["inputs","histories","fault_sequences","crash_points"],
 "every sequence of earlier calls, failures included, and every restart in between",
 "each test makes a few calls in a fixed order and never compares a call with its repetition after others",
 [f"{p}" for p in ALL],
 [("package-level tables, prefixes and caches","*/txProfile.go, */base58.go, */bech32.go, addressEncoder/encoderProfile.go, owkeychain/hdprofile.go"),("every exported function","*/transaction.go")],
 "package-level variables of the process",
 "results of repeated calls",
 "seeded search over call histories; every piece of work is repeated after other work and faults, and in a fresh process in another order")

prop("C03", "Callers keep their buffers",
 "A slice, struct or key handed to the address encoder, the HD keychain or a transaction driver is never written to, not even behind its length, and is not kept: once a call has returned, its results and the behaviour of objects obtained from it no longer depend on what the caller does with the buffers it passed in or with the ones it got back earlier. Handing the same arguments to a later step, or clearing a private key after use, is therefore safe. (Mateverse's GetSigHash is documented to fill in the input list it is given; that list is its result.)",
 ["inputs","histories"],
 "every call, every layout of the buffers passed (shared, with spare capacity), and every reuse of them afterwards",
 "tests use fresh buffers for each call and do not look at them afterwards",
 [f"{p}" for p in ALL],
 [("byte helpers that append or reverse in place","*/txUtils.go, */SignaturePubkey.go, */txSigPub.go"),("NewExtendedKey and key accessors","owkeychain/extendedkey.go, owkeychain/hdkey.go"),("alphabets and prefixes","addressEncoder/*.go")],
 "byte slices shared between caller and callee",
 "buffers before and after each call, results after reuse",
 "seeded search: buffers lent to the drivers have spare capacity filled with a pattern, are compared after each step, then overwritten, while signing ceremonies and key or address work go on")

prop("C04", "Bitcoin-style drivers: the finished transaction spends exactly what was asked",
 "For every payment intent (inputs, owners' keys, output addresses and amounts, locktime, replace-by-fee flag, extra payloads) given to the Bitcoin, HC/Zcash-prefix, CXC, Omni, ZenCash, BitcoinCash and BitcoinSV drivers, the digests they hand out are the ones the network's rules define for that transaction and each is routed to the owner of its input. Once every owner has signed its digest, in any order and through any lost, repeated or delayed messages, wallet restarts, clock jumps or entropy failures, the drivers combine and verify, and the bytes they return are exactly the intended transaction with valid signatures for every input. Honest signing always completes: no valid set of signatures, including ones with short r or s values, is rejected.",
 ["inputs","schedules","crash_points","histories","fault_sequences"],
 "every intent, every order and repetition of build, sign and combine steps, crashes with restart from stored state, and every valid signature the owners could produce",
 "the tests check a few fixed transactions with one fixed signature each, in one order, and never a restart, a re-signing or unusual counts, heights, amounts or signature shapes",
 btcfiles("transaction.go","txStruct.go"),
 [("CreateEmptyRawTransaction / CreateRawTransactionHashForSig","*/transaction.go"),("InsertSignatureIntoEmptyTransaction / VerifyRawTransaction","*/transaction.go"),("script and signature encoding","*/SignaturePubkey.go, */txStruct.go")],
 "unsigned transaction text, digests and signatures kept by the wallet between steps",
 "text returned by each driver step",
 "seeded search over signing ceremonies between a simulated wallet and simulated signers; all seven driver packages run as real code")

prop("C05", "Bitcoin-style drivers: corrupted or foreign shares are never accepted",
 "Whatever is corrupted, truncated, swapped between inputs or transactions, signed by a key that does not own the input, repeated, missing or left over from another build, the Bitcoin-style drivers' combine-then-verify step either refuses or returns exactly the intended transaction validly signed by the inputs' owners. A coin locked to another key's hash, even one that differs in a single bit, is never verified as the signer's. A finished transaction damaged in storage is refused when it is verified again. The step never crashes: once corruption stops, the same ceremony completes.",
 ["inputs","fault_sequences","crash_points","histories"],
 "every corruption of the stored transaction, digests, signatures and public keys, every misrouting between parties and concurrent ceremonies, and every premature combine",
 "tests verify that one good transaction is accepted; they try no wrong share at all",
 btcfiles("transaction.go","txStruct.go","SignaturePubkey.go"),
 [("VerifyRawTransaction","*/transaction.go"),("InsertSignatureIntoEmptyTransaction","*/transaction.go")],
 "unsigned transaction text, digests and signatures kept by the wallet between steps",
 "result of combine followed by verify",
 "as C04 with a hostile network and disk; single-key and multisig inputs")

prop("C06", "Bitcoin-style multisig: any M of N key holders suffice, never fewer",
 "For every M-of-N account the Bitcoin, HC, CXC and Omni drivers create (pay-to-script-hash, and pay-to-witness-script-hash nested in it where supported), the account's address and redeem script are those of the listed keys, every digest is routed to all N keys with threshold M, and any M or more of the key holders signing in any order yield a transaction the driver verifies and which is exactly the intended one with M valid signatures in key order. Shares of other keys, repeated shares of one key, or fewer than M shares never yield an accepted transaction. An account that cannot exist (no or too many signatures required, too many or malformed keys) is refused.",
 ["inputs","schedules","crash_points","fault_sequences"],
 "every M, N up to 15, every subset and order of signers, mixed inputs, restarts and message faults",
 "tests cover a couple of fixed 2-of-n accounts with fixed signatures",
 [f"{p}/{n}" for p in BTC7[:4] for n in ("transaction.go","txMultiSig.go")],
 [("CreateMultiSig","*/txMultiSig.go"),("multisig branches of digest, combine and verify","*/transaction.go")],
 "redeem script, per-key signatures collected so far",
 "account address, digests, final transaction",
 "as C04 and C05 for multisig inputs; bitcoincash and bitcoinsv multisig are outside (they hash multisig inputs with the legacy rule)")

prop("C07", "btcLikeTxDriver: exactly the intended testnet transaction or an error",
 "For every payment intent with pay-to-pubkey-hash, nested and native witness-pubkey-hash inputs given to btcLikeTxDriver (Bitcoin testnet), the digests are the ones the network's rules define, and once every owner has signed, through any message faults, restarts or entropy failures, combine and verify succeed and give exactly the intended transaction; signing for all owners in one call gives the same. Shares that are corrupted, swapped, missing or of a key that does not own the input (even if its hash differs in a single bit), and finished transactions damaged in storage, are refused by combine or verify. For an M-of-N account (N up to 15) address and redeem script are those of the listed keys, and M signatures in key order give a transaction whose single input is validly unlocked; another number of signatures is refused.",
 ["inputs","schedules","crash_points","histories","fault_sequences"],
 "every intent, every order and repetition of build, sign and combine steps, restarts, corruption, and every valid signature the owners could produce",
 "the tests check a few fixed transactions with one fixed signature each and a single 2-of-3 account, and try no wrong share",
 ["btcLikeTxDriver/transaction.go","btcLikeTxDriver/txStruct.go","btcLikeTxDriver/multiSig.go","btcLikeTxDriver/witness.go"],
 [("CreateEmptyRawTransaction, CreateRawTransactionHashForSig, SignEmptyRawTransaction","btcLikeTxDriver/transaction.go"),("InsertSignatureIntoEmptyTransaction, VerifyRawTransaction","btcLikeTxDriver/transaction.go"),("CreateMultiSig","btcLikeTxDriver/multiSig.go")],
 "unsigned transaction text, digests and signatures kept by the wallet between steps",
 "text returned by each driver step",
 "as C04 and C05; this driver does not verify multisig transactions itself (documented in its tests), so those are checked against the reference only")

UTXO = ["vergeTransaction","aliencoinTransaction","vollarTransaction","hypercashTransaction","mateverseTransaction","elastosTransaction","fiiiTransaction","bigbangTransaction","bytomTransaction"]
prop("C08", "Other UTXO coins: the finished transaction spends exactly what was asked",
 "For every payment intent given to the Verge, Aliencoin, Vollar, Hypercash (including its Omni token sends), Mateverse, Elastos, Fiii, BigBang and Bytom (single-key and M-of-N accounts) drivers, the digests handed out for signing are the ones the coin's rules define for exactly that transaction (previous outputs, amounts, output addresses, locktime, expiry, sequence, lock scripts, and for Verge, Fiii and BigBang a timestamp that is a clock reading taken while building, for Verge plus the requested interval). Once every owner has signed, in any order and through any lost, repeated or delayed messages, wallet restarts, clock jumps or entropy failures, combining succeeds and returns exactly the intended transaction carrying each owner's signature and public key at its own input. No valid set of signatures, including ones with short or high r or s values, is rejected, and transactions with several hundred inputs or outputs work. An intent the coin's format cannot express (for BigBang more than 252 inputs or data bytes, or a zero amount or fee) is refused, never altered.",
 ["inputs","schedules","crash_points","histories","fault_sequences"],
 "every intent, every order and repetition of build, sign and combine steps, restarts from stored state, clock jumps, and every valid signature the owners could produce",
 "the tests build a few fixed transactions with fixed signatures; no restart, no re-signing, no unusual counts, amounts or signature shapes",
 [f"{p}/{n}" for p in UTXO for n in ("transaction.go",)],
 [("CreateEmpty(Raw)TransactionAndHash, GetSigHash","*/transaction.go"),("VerifyAndCombine(Raw)Transaction","*/transaction.go")],
 "unsigned transaction text, digests and signatures kept by the wallet between steps",
 "text returned by each driver step",
 "seeded search over signing ceremonies between a simulated wallet and simulated signers; the driver packages run as real code")

prop("C09", "Other UTXO coins: corrupted or foreign shares are never accepted",
 "Whatever is corrupted, truncated, swapped between inputs or transactions, signed by a key that does not own the input, repeated, missing or left over from another build, the combine step of the Verge, Aliencoin, Vollar, Hypercash, Mateverse, Elastos, Fiii, BigBang and Bytom drivers either refuses or returns exactly the intended transaction validly signed by the owner of each input (Elastos transactions do not name the owners, so there any key's valid signature may stand), and never crashes; once corruption stops the same ceremony completes. (Hypercash's per-input amount, block height and index, Bytom's mux position, and the parts of a Fiii transaction its signatures do not cover are outside.)",
 ["inputs","fault_sequences","crash_points","histories"],
 "every corruption of the stored transaction, digests, signatures and public keys, every misrouting between parties and concurrent ceremonies, and every premature combine",
 "tests verify that a few good transactions are accepted; they try no wrong share",
 [f"{p}/{n}" for p in UTXO for n in ("transaction.go",)],
 [("VerifyAndCombine(Raw)Transaction","*/transaction.go"),("signature and owner checks","*/txSigPub.go, */txSignature.go, */txIn.go")],
 "unsigned transaction text, digests and signatures kept by the wallet between steps",
 "result of the combine step",
 "as C08 with a hostile network and disk")

ACCT = ["rippleTransaction","ontologyTransaction","virtualeconomyTransaction","cosmosTransaction","evaioTransaction","binancechainTransaction","polkadotTransaction","waykichainTransaction","moacchainTransaction","filenetTransaction"]
prop("C10", "Account coins: the finished transaction moves exactly what was asked",
 "For every transfer intent given to the Ripple, Ontology (ONT, ONG, ONG withdrawal, both versions), VSYS, Cosmos, EVA.io, Binance Chain, Polkadot/Kusama, WaykiChain (register, common, contract and coin transfers), MOAC and FileNet drivers, the message handed out for signing is the one the network's rules define for exactly that transfer (sender, recipients, amounts, fees, gas, nonce or sequence, memo, tags, heights, chain; timestamps are clock readings taken while building, nonces are fresh entropy). Once the account's keys have signed, in any order and through any lost, repeated or delayed messages, wallet restarts, clock jumps or entropy failures, verification succeeds and the transaction produced for broadcast is exactly the intended one carrying those signatures. A transfer the coin's format cannot express exactly (amounts, tags, attachments, IDs or keys out of range, FileNet totals that are zero or overflow) is refused with an error, never altered.",
 ["inputs","schedules","crash_points","histories","fault_sequences"],
 "every intent including amounts and texts of any size, every order and repetition of build, sign and combine steps, restarts from stored state, clock jumps, and every valid signature the owners could produce",
 "the tests build one or two fixed transfers per coin; no boundary amounts, long memos, restarts, re-signing or unusual signature shapes",
 [f"{p}/transaction.go" for p in ACCT],
 [("CreateEmpty(Raw)Transaction(AndHash/AndMessage)","*/transaction.go"),("VerifyAndCombine(Raw)Transaction, CreateJsonForSend, CreateJSONRawForSendTransaction","*/transaction.go"),("field encoding","*/txStruct.go, */txUtils.go")],
 "unsigned transaction text, message to sign and signatures kept by the wallet between steps",
 "text returned by each driver step",
 "seeded search over signing ceremonies between a simulated wallet and simulated signers; the ten driver packages run as real code")

prop("C11", "Account coins: corrupted or foreign shares are never accepted",
 "Whatever is corrupted, truncated, swapped between transactions, signed by another key, repeated, missing or left over from another build, the verify and combine step of the Ripple, Ontology, VSYS, Cosmos, EVA.io, Binance Chain, Polkadot, WaykiChain, MOAC and FileNet drivers either refuses or returns exactly the intended transaction carrying a signature that is valid for it under the public key it names; for Ripple and Polkadot that key is the one the transaction was built for. The step never crashes, and once corruption stops the same ceremony completes.",
 ["inputs","fault_sequences","crash_points","histories"],
 "every corruption of the stored transaction, message, signature and public key, every misrouting between concurrent ceremonies, and every premature combine",
 "tests verify that a few good transactions are accepted; they try no wrong share",
 [f"{p}/transaction.go" for p in ACCT],
 [("VerifyAndCombine(Raw)Transaction, VerifyTransaction(Sig)","*/transaction.go")],
 "unsigned transaction text, message to sign and signatures kept by the wallet between steps",
 "result of the verify and combine step",
 "as C10 with a hostile network and disk; the other coins' transactions do not name the signing key, so any key's valid signature may stand there")

prop("C12", "HD keychain: watch-only and signing wallets derive the same keys",
 "For every curve the keychain supports, every seed and every derivation path, an offline signer that holds private extended keys and a watch-only node that holds only public ones derive the same public keys, chain codes, fingerprints, depths and indexes, which are the ones the keychain's documented derivation defines; exporting a key as owpub/owprv text or as a multisig share and reading it back, on another node or after a restart, gives the same key. A watch-only node never obtains a private key or a hardened child. Key texts damaged in storage or transit are refused, never read as another key, and requests that cannot be met (indexes out of range, children of a key at depth 255, shares the format cannot hold, malformed paths) are errors and not other keys.",
 ["inputs","histories","crash_points","fault_sequences"],
 "every seed, curve, path, export and import sequence, restart and corruption of a stored or sent key text",
 "tests derive a few fixed paths from fixed seeds per curve; they try no damaged text, no limit and no interleaving of exports and derivations",
 ["owkeychain/extendedkey.go","owkeychain/hdkey.go","owkeychain/owencode.go","owkeychain/multisig.go"],
 [("GenPrivateChild, GenPublicChild, InitRootKeyFromSeed","owkeychain/extendedkey.go"),("DerivedPrivateKeyWithPath, DerivedPublicKeyFromPath","owkeychain/hdkey.go"),("OWEncode, OWDecode","owkeychain/owencode.go"),("GetMultiSigShareData, ChainDecode","owkeychain/multisig.go")],
 "extended keys as text on each node's disk",
 "derived keys and key texts",
 "seeded search over histories of a simulated signer, watch-only node and vault; owchain share texts carry no checksum, so damage to them is outside")

prop("C13", "Damaged, mistyped or foreign addresses are never paid",
 "For each of the addressEncoder's address types the text produced for a payload or public key is the one the network defines and decodes to the same payload; AddressCheck accepts it for its coin. A text that was damaged by storage, transmission or typing, or that belongs to another network whose addresses are distinguishable, is refused by AddressDecode and AddressCheck with an error and no panic; so is a text with a right checksum but another length, version, witness version, prefix or padding than the network's. Only bech32 and cashaddr texts may also be written all in capitals. A driver whose coin's addresses carry a checksum (the Bitcoin-style ones, Verge, Aliencoin, Vollar, Hypercash, Elastos, Fiii, BigBang, Bytom, Ripple, Ontology, VSYS, Binance Chain, WaykiChain) builds a transaction for a damaged address only if the damage leaves the paid destination unchanged, and refuses a well-formed address of a network, witness version or length other than its own.",
 ["inputs","fault_sequences"],
 "every payload, every damage to the text, every confusion between networks",
 "tests encode and decode one address per type and try no damaged or foreign one",
 ["addressEncoder/addressEncoder.go","addressEncoder/addressCheck.go","addressEncoder/bech32/bech32.go","addressEncoder/bech32m/bech32m.go","addressEncoder/base32PolyMod/base32PolyMod.go","addressEncoder/eos.go","addressEncoder/aeternity.go"],
 [("AddressEncode, AddressDecode","addressEncoder/addressEncoder.go"),("AddressCheck","addressEncoder/addressCheck.go"),("output address decoding of each driver","*/txOut.go, */transaction.go")],
 "address texts on a node's disk and in transit",
 "payload or error; transaction or error",
 "seeded search over damage and misrouting; eip55, ICX, FileNet and MOAC texts carry no checksum in this library and Cosmos/EVA.io pass texts through, so damage to those is outside, as are bech32's inherent collisions")

prop("C14", "The clock decides the timestamp and nothing else",
 "Only the Verge, Fiii, BigBang, VSYS and FileNet drivers put a time into their transactions, and it is a reading of the clock taken while the transaction was built (for Verge plus the requested interval), correct for clocks that are wrong by any amount within 1970 to 2105, stand still, run backwards or jump between two readings. Nothing else any driver, the address encoder or the HD keychain returns depends on the clock: building for the other coins, signing, combining and verifying, encoding, decoding and key derivation give the same result, with the same arguments and entropy, whatever the clock says, so a transaction built at one time is signed, combined and verified at any other.",
 ["inputs","schedules","fault_sequences"],
 "every clock reading and every clock jump between or within the steps",
 "tests run at one time on one clock",
 [f"{p}" for p in ALL] + ["fiiiTransaction","bigbangTransaction","virtualeconomyTransaction","filenetTransaction"],
 [("timestamp fields","vergeTransaction/transaction.go, fiiiTransaction/transaction.go, bigbangTransaction/*.go, virtualeconomyTransaction/*.go, filenetTransaction/*.go"),("every exported function","*/transaction.go")],
 "wall clock",
 "transactions, digests and results under different clocks",
 "seeded search over clock settings for each step of simulated ceremonies, key and address work; results compared with the reference model at that time and with each other")

prop("C15", "A signature given out is a valid one",
 "Every signing function of the drivers returns either an error or a signature that is valid under the key it was given for exactly the digest or message it was given (canonical low-S for ECDSA except WaykiChain, whose network takes both; with the right recovery id for MOAC; with that key's public key where the function returns one). It answers every well-formed request, also for digests at the limits of the group order. A damaged digest (wrong length, not hexadecimal), a damaged private key (wrong length, zero, not below the group order) or an entropy source that fails gives an error or a signature that is valid all the same, never one that is not; two different digests are never signed with the same nonce, even when the machine was restored from a snapshot and its entropy repeats.",
 ["inputs","fault_sequences","histories"],
 "every digest, key and entropy source state",
 "tests sign a few fixed digests with fixed keys",
 [f"{p}" for p in ALL],
 [("SignRawTransaction, SignTransaction, SignTransactionHash, SignRawTransactionHash, SignTransactionMessage","*/transaction.go, */txSign.go, */SignaturePubkey.go")],
 "private keys and entropy source of a signing service",
 "signatures and errors",
 "seeded search over requests to a simulated signing service with damaged keys and digests, failing and rewound entropy; Edwards keys are exempt from entropy failure, since there the Go runtime ends the process")

prop("C16", "Damaged input never crashes a wallet",
 "No text, transaction, signature, public key, script, address, key text or digest that was damaged in storage or transit — changed, cut, extended, repeated, emptied or replaced by another kind of data — makes a function of the transaction drivers, the address encoder or the HD keychain panic, loop forever or exhaust memory: each call returns, with an error, a refusal or a result.",
 ["inputs","fault_sequences"],
 "every damage to every argument that came from storage or another party",
 "tests pass well-formed data only",
 [f"{p}" for p in ALL],
 [("decoders of transactions, scripts and signatures","*/txStruct.go, */transaction.go, */SignaturePubkey.go, */txMultiSig.go"),("AddressDecode, AddressCheck","addressEncoder/addressEncoder.go"),("OWDecode, ChainDecode","owkeychain/owencode.go, owkeychain/multisig.go")],
 "texts on disk and in transit",
 "return of each call",
 "seeded search over damage to everything a wallet reads back or receives, at every step of simulated ceremonies; arguments chosen by the caller itself (private keys, output lists) are not damaged")

prop("C17", "Text and number codecs are exact",
 "Every exported codec of the packages — base58 in all its alphabets, base58 with the coins' checksums, bech32, bech32m and segwit addresses, cashaddr, base64, bit regrouping, CRC-32 and BLAKE-256 checksums, SCALE compact numbers — writes exactly the text its format defines, for every data, alphabet, prefix and length it accepts, and reads that text back to exactly the data, also when another package's codec of the same format wrote it. A text damaged in transit is refused, or, where its format has no checksum, read as what the format says it means; no codec panics, loops or changes the data it was given.",
 ["inputs","fault_sequences"],
 "every data, alphabet, prefix and length, every pair of packages and every damage in transit",
 "tests encode and decode a handful of fixed values",
 ["*/base58.go","*/bech32.go","addressEncoder/base58.go","addressEncoder/base32PolyMod/base32PolyMod.go","addressEncoder/bech32/bech32.go","addressEncoder/bech32m/bech32m.go","addressEncoder/blake256/blake256.go","polkadotTransaction/txUtil.go","owkeychain/base58.go"],
 [("Encode, Decode, EncodeCheck, DecodeCheck","*/base58.go"),("Bech32Encode, Bech32Decode","*/bech32.go"),("Encode, BytesToCompactBytes","polkadotTransaction/*.go")],
 "texts in transit between nodes running different packages",
 "text and data on each side",
 "seeded search over data and damage sent between nodes that use different packages' codecs, judged by independently written reference codecs; base58 alphabets with Latin-1 characters are outside")
