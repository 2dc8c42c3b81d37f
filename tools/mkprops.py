#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Base58 and Base58Check are exact inverses and detect corruption",
 "Encoding any byte string as Base58 gives the standard Bitcoin text (one '1' per leading zero byte) and decoding that text gives the same bytes back; text with a foreign character decodes to nothing. Base58Check returns the version and payload that were encoded, and accepts a text exactly when its last four bytes are the double-SHA256 checksum of the rest, reporting every other text (too short, altered, foreign characters) as an error.",
 ["inputs"],"all byte strings, versions and texts, including empty ones, leading zeros, every character value and single-character alterations",
 "The tests compare a few dozen fixed pairs; leading zeros at every length, every non-alphabet character, and corruption anywhere in the text are not sampled.",
 ["xbase/base58.go"],[("Base58Encode/Base58Decode big-integer conversion and leading-zero accounting","xbase/base58.go"),("Base58CheckDecode length and checksum test","xbase/base58.go")],
 observe=["Base58Encode","Base58Decode","Base58CheckEncode","Base58CheckDecode"])
p("C02","Bech32 and segwit address text follows BIP173 exactly",
 "Bech32 and segwit-address decoding accept exactly the texts BIP173 calls valid (length, single case, character range, separator, checksum, witness version, program length, zero padding) and return the human-readable part, version and program they carry. Encoding a valid version and program produces the BIP173 text, which decodes back to the same values, and any alteration of up to four characters of a valid text is rejected.",
 ["inputs"],"all texts and all (prefix, version, program) triples, including upper and mixed case, corrupted and mis-padded texts",
 "The tests hold a fixed list of valid and invalid strings; error detection and acceptance for arbitrary strings are not enumerable by hand.",
 ["xbase/bech32.go","xbase/witness.go"],[("Bech32Decode character, case, separator and checksum tests","xbase/bech32.go"),("convertBits regrouping and padding rules","xbase/witness.go"),("WitnessDecode version and length rules","xbase/witness.go")],
 observe=["Bech32Encode","Bech32Decode","WitnessEncode","WitnessDecode"])
p("C03","Addresses, networks and locking scripts correspond one to one",
 "For every hash, kind (pay-to-pubkey-hash, pay-to-script-hash, witness pubkey hash, witness script hash) and network, the address text decodes under that network to an address of the same kind and hash, whose locking script is the standard script for it, and that script parses back to the same address. An address text of one network is an error under the other, and malformed texts or texts of unsupported kinds or versions are errors. The predefined networks carry Bitcoin's published prefixes, magics and ports.",
 ["inputs","configurations"],"all hashes, kinds, networks, text forms (either case for witness addresses), and malformed texts",
 "The tests decode a handful of addresses on one network each; cross-network confusion, all-hash round trips and script/address agreement are not covered.",
 ["xcore/address.go","xcore/address_p2pkh.go","xcore/address_p2sh.go","xcore/address_p2wpkh_v0.go","xcore/address_p2wsh_v0.go","xcore/script.go","network/network.go"],[("DecodeAddress prefix and version dispatch","xcore/address.go"),("LockingScript of each address kind","xcore/address_*.go"),("ParseLockingScript classification","xcore/script.go"),("per-network address constants","network/network.go")],
 observe=["DecodeAddress","Address.ToString","Address.LockingScript","ParseLockingScript"])
p("C04","Wire integers and byte strings round-trip and reading never overruns",
 "Values written to the wire buffer in any sequence are read back equal and in order, in the little-endian and compact-size encodings of the Bitcoin protocol, and the announced compact size is the number of bytes written. Reading past the end, or a byte string whose declared length exceeds what is left (up to the largest 64-bit value), is an error that consumes no memory proportional to the declared length and never panics.",
 ["inputs","histories"],"all sequences of typed writes and reads, all 64-bit values and all truncations and hostile length prefixes",
 "The tests write and read one sequence of small values; boundary values, truncation at each byte and lengths that overflow machine integers are not sampled.",
 ["xbase/buffer.go"],[("bounds check before every read","xbase/buffer.go"),("compact size switch on value ranges","xbase/buffer.go")],
 state=[("seek","read position","xbase/buffer.go")],observe=["Buffer.Read*/Write*","VarIntSerializeSize"])
p("C05","Transactions serialise exactly and survive a decode/encode round trip",
 "A transaction's legacy and witness serialisations are the byte formats of the Bitcoin protocol and BIP144; decoding canonical bytes and encoding again gives the same bytes, whatever the counts, script lengths and witnesses. The transaction id is the reversed double-SHA256 of the legacy form and so does not depend on witness data, the witness id is that of the witness form, and truncated or hostile bytes are decoding errors.",
 ["inputs"],"all transactions (0..many inputs/outputs, script and witness lengths across every compact-size boundary, extreme values) and all truncations or mutations of their bytes",
 "The tests decode a few real transactions with short scripts; size-class boundaries, mixed witness/non-witness inputs and truncation points are not sampled.",
 ["xcore/transaction.go","xbase/buffer.go","xbase/hash.go"],[("Serialize/SerializeNoWitness field order","xcore/transaction.go"),("Deserialize/DeserializeNoWitness","xcore/transaction.go"),("Hash, ID, WitnessHash, WitnessID","xcore/transaction.go")],
 observe=["Serialize","SerializeNoWitness","Deserialize","DeserializeNoWitness","ID","WitnessID"])
p("C06","Reported sizes, weight and virtual size match the real serialisation",
 "For every transaction, the reported base size is the length of the serialisation without witness, the total size is the length of the full serialisation, and the witness size is their difference. The weight is three times the base size plus the total size and the virtual size is the weight divided by four, rounded up.",
 ["inputs"],"all unsigned, signed and decoded transactions of every mix of input kinds and script lengths",
 "The tests compare sizes of a few fixed transactions; compact-size boundaries, mixed inputs, and unsigned or decoded witness inputs are not sampled.",
 ["xcore/transaction.go"],[("BaseSize and WitnessSize recompute the serialised lengths","xcore/transaction.go"),("Weight, Vsize, Size","xcore/transaction.go")],
 observe=["BaseSize","WitnessSize","Size","Weight","Vsize"])
p("C07","Signature hashes follow the legacy and BIP143 rules for every hash type",
 "For every transaction, input, hash type and locking or redeem script, the digest that is signed is the one Bitcoin defines: the legacy algorithm for non-witness inputs and BIP143 for version 0 witness inputs, including NONE, SINGLE (also without a matching output) and ANYONECANPAY. The digest depends only on the transaction's current content, not on which digests, signatures or serialisations were computed before.",
 ["inputs","histories"],"all transactions, input indexes, hash-type bytes, and all interleavings of hashing with edits, signing and serialising",
 "The tests sign with few hash types and compare few digests; the product of hash types, positions and call histories cannot be listed.",
 ["xcore/transaction.go"],[("RawSignatureHash legacy digest","xcore/transaction.go"),("WitnessV0SignatureHash BIP143 digest","xcore/transaction.go")],
 observe=["RawSignatureHash","WitnessV0SignatureHash","TxIn.SignatureHash after signing"])
p("C08","Whatever the holder of the right keys signs, verification accepts",
 "An input signed with the keys its locking script asks for (pay-to-pubkey-hash with either key form, M-of-N multisig under pay-to-script-hash or witness script hash, witness pubkey hash) verifies, for every hash type, number and mix of inputs and outputs, both on the signed transaction and after serialising, decoding and restoring the spent outputs. The unlocking data is the standard one, so an independent verifier accepts it as well.",
 ["inputs","configurations"],"all keys, key forms, hash types, M-of-N combinations, mixes of input kinds, signing orders and amounts",
 "The tests sign a few transactions with one key set and mostly one hash type and rarely re-verify after a wire round trip.",
 ["xcore/transaction.go","xcore/script_p2pkh.go","xcore/script_p2sh.go","xcore/script_p2wpkh_v0.go","xcore/script_p2wsh_v0.go","xcore/script_multsig.go","xvm/engine.go","xvm/instruction_crypto.go"],[("SignIndex/EmbedIdxSignature build the unlocking","xcore/transaction.go"),("unlocking script of each kind","xcore/script_*.go"),("Verify runs the script engine","xcore/transaction.go")],
 observe=["SignIndex","EmbedIdxSignature","EmbedIdxEcdsaSignature","Verify"])
p("C09","Verification rejects every spend that is not properly authorised",
 "Verification fails when any committed part of a signed transaction changes (outputs, amounts of witness inputs, sequence, lock time, version, outpoints), when a signature, key or redeem script is missing, altered, of another key, in the wrong order or fewer than required, or when the unlocking data merely manipulates the script stack. Fields that the hash type leaves uncommitted may change without breaking it, and verification agrees with an independent verifier on every tampered transaction.",
 ["inputs"],"all single and combined tamperings of signed transactions for every input kind and hash type, and hostile unlocking scripts and witnesses",
 "The tests check a few failing spends; the space of tamperings times hash types times input kinds is not enumerable, and accepting one is loss of funds.",
 ["xcore/transaction.go","xvm/engine.go","xvm/instruction_crypto.go","xcrypto/signature_ecdsa.go","xcore/script_p2sh.go","xcore/script_p2wsh_v0.go"],[("Verify: per-version sighash and signature functions","xcore/transaction.go"),("engine pay-to-script-hash and clean-stack rules","xvm/engine.go"),("OP_CHECKSIG/OP_CHECKMULTISIG matching","xvm/instruction_crypto.go")],
 observe=["Transaction.Verify","Transaction.SetTxIn"])
p("C10","The script engine gives every supported script its Bitcoin meaning",
 "For every unlocking and locking script made of supported opcodes, the engine succeeds or fails as Bitcoin's script semantics (with minimal numbers and minimal IF arguments enforced) prescribes, including nested conditionals, numeric encoding, stack underflow, multisig matching order and pay-to-script-hash evaluation; unsupported or malformed scripts fail. Running a script never panics, an earlier run or tracing never changes the outcome, and traced stacks are the true intermediate stacks.",
 ["programs","histories"],"all scripts over the opcode set, all engine reuse histories, debug tracing on or off, any signature outcome",
 "The tests run a fixed file of scripts; programs form an infinite space where nesting, boundary numbers and stack states interact.",
 ["xvm/engine.go","xvm/instruction.go","xvm/instruction_flowcontrol.go","xvm/instruction_stack.go","xvm/instruction_bitwise.go","xvm/instruction_numeric.go","xvm/instruction_crypto.go","xvm/instruction_pushdata.go","xvm/stack.go","xvm/scriptnum.go","xvm/scriptreader.go"],[("Engine.Step dispatch and branch skipping","xvm/engine.go"),("Engine.Verify phases","xvm/engine.go"),("stack operations","xvm/stack.go"),("MakeScriptNum range and minimality","xvm/scriptnum.go")],
 state=[("dstack","data stack","xvm/engine.go"),("cstack","conditional stack","xvm/engine.go")],observe=["Engine.Verify","Engine.Execute","Engine.Traces"])
p("C11","Scripts built, parsed, printed and numbers encoded stay faithful",
 "Data and integers added to a script are pushed with the shortest standard opcode and, when the script is parsed or executed, give back exactly the data or number added; a script assembled from a textual listing has the bytes the listing denotes, and parsing covers every byte of a script exactly once or reports an error. Script numbers encode minimally and decode to themselves over the whole range, and non-minimal or over-long encodings are refused. Every opcode constant and name stands for Bitcoin's byte.",
 ["inputs","programs"],"all data lengths across push-opcode boundaries, all 64-bit integers, all byte strings as scripts and all opcode sequences",
 "The tests push a few lengths and numbers; boundary lengths (75/76, 255/256, 65535/65536), all one-byte values and arbitrary bytes are not swept.",
 ["xvm/scriptbuilder.go","xvm/scriptreader.go","xvm/scriptnum.go","xvm/instruction.go"],[("AddData/AddInt64 opcode choice","xvm/scriptbuilder.go"),("NextInstruction length rules","xvm/scriptreader.go"),("ScriptNum.Bytes and MakeScriptNum","xvm/scriptnum.go")],
 observe=["ScriptBuilder","ScriptReader","DisasmString","RemoveOpcode","ScriptNum.Bytes","MakeScriptNum"])
p("C12","The transaction builder conserves value and never overspends",
 "Every transaction the builder returns spends exactly the coins given and pays exactly the requested outputs and data outputs, with inputs minus outputs equal to the fee asked for (fixed, or rate times estimated size) and the whole remainder, if any, in one change output to the change address. The builder returns an error rather than a transaction whenever value or fee is insufficient, negative, above the configured maximum fee or above the money supply, or when coins, outputs, change address or keys are missing.",
 ["inputs","histories"],"all sequences of builder calls: coins, amounts (including extreme ones), outputs, fees, rates, limits, data outputs, signing",
 "The tests build a few typical transactions; extreme amounts, sums that overflow, exact-change boundaries and combinations of options are not swept.",
 ["xcore/transactionbuilder.go","xcore/coinbuilder.go","xcore/estimate.go","xcore/transaction.go"],[("BuildTransaction amount accounting","xcore/transactionbuilder.go"),("fee selection and limit","xcore/transactionbuilder.go"),("Fees of the result","xcore/transaction.go")],
 observe=["TransactionBuilder.BuildTransaction","Transaction.Fees"])
p("C13","Estimated fees pay at least the requested rate",
 "The fee for a size and a rate is the size times the rate per thousand bytes, rounded down, monotone in both, never negative and never wrapped around. The estimated size of a transaction is at least the virtual size it has once signed, so a builder given a fee rate produces a signed transaction that pays at least that rate.",
 ["inputs","configurations"],"all sizes and rates, all numbers and kinds of inputs and outputs, data outputs and key sets",
 "The tests pin estimates for a few shapes and never compare an estimate with the size of the signed transaction.",
 ["xcore/estimate.go","xcore/transactionbuilder.go"],[("EstimateSize, EstimateNormalSize, EstimateFees","xcore/estimate.go")],
 observe=["EstimateSize","EstimateNormalSize","EstimateFees","Vsize of the signed transaction"])
p("C14","Key arithmetic is the secp256k1 group and encodings are strict",
 "Point addition, doubling and scalar multiplication follow the secp256k1 group law for all points and scalars (identity, inverses, doubling, scalars of any length), and the public key of a private key is the base point times it; adding to a private key and adding to its public key agree. Every valid public key round-trips through its compressed, uncompressed and hybrid encodings, and any byte string that is not such an encoding of a curve point is an error.",
 ["inputs"],"all points, scalars and byte strings, including identity, P and -P, equal points, scalars near 0 and the group order, and near-valid encodings",
 "The tests check a few multiples and keys; exceptional cases of the group law and near-valid encodings are not reached by sampling a few.",
 ["xcrypto/secp256k1/secp256k1.go","xcrypto/secp256k1/sec.go","xcrypto/secp256k1/scalar.go","xcrypto/pubkey.go","xcrypto/prvkey.go"],[("Jacobian addition/doubling and exceptional cases","xcrypto/secp256k1/secp256k1.go"),("PubKeyFromBytes format, range and curve checks","xcrypto/pubkey.go"),("SecMarshal/SecUnmarshal","xcrypto/secp256k1/sec.go"),("PrvKey.Add/PubKey.Add","xcrypto/prvkey.go")],
 observe=["SECP256K1()","PubKeyFromBytes","PubKey.Serialize*","PrvKeyFromBytes","PrvKey.Add","PubKey.Add","Scalar.Add"])
p("C15","ECDSA signatures are deterministic, low-S, and verify strictly",
 "Signing a digest gives the RFC 6979 signature with its S in the lower half of the order, encoded as strict DER, the same every time, and it verifies under the signer's key. Verification accepts a signature exactly when its DER encoding is canonical and the ECDSA equation holds with both numbers in range, so it rejects altered signatures, digests or keys, zero or out-of-range numbers, and trailing or malformed bytes.",
 ["inputs"],"all keys, digests of any length but zero, and all byte strings as signatures",
 "The tests use a few vectors; rare nonce retries, short R or S, digest lengths and malleated encodings are not sampled.",
 ["xcrypto/ecdsa/ecdsa.go","xcrypto/ecdsa/rfc6979.go","xcrypto/signature_ecdsa.go"],[("NonceRFC6979","xcrypto/ecdsa/rfc6979.go"),("low-S normalisation","xcrypto/ecdsa/ecdsa.go"),("Deserialize canonical DER check","xcrypto/signature_ecdsa.go")],
 observe=["EcdsaSign","EcdsaVerify","ecdsa.Sign","ecdsa.Verify","NonceRFC6979","HashToInt"])
p("C16","Schnorr signatures follow the scheme and verify strictly",
 "Signing gives the 64-byte signature of the deterministic scheme (nonce hashed from key and message, R with quadratic-residue Y, challenge over R, public key and message) and it verifies under the signer's key. Verification accepts exactly the 64-byte strings satisfying the scheme's equation, rejecting every alteration of signature, message or key and every other length.",
 ["inputs"],"all keys, messages of any length and all byte strings as signatures",
 "The tests check listed vectors only; acceptance for arbitrary altered signatures and both nonce parities over many keys is not sampled.",
 ["xcrypto/schnorr/schnorr.go","xcrypto/signature_schnorr.go"],[("Sign/Verify and GetK0, GetK, GetE","xcrypto/schnorr/schnorr.go"),("64-byte encoding","xcrypto/signature_schnorr.go")],
 observe=["SchnorrSign","SchnorrVerify","schnorr.Sign","schnorr.Verify","schnorr.GetK0","schnorr.GetK","schnorr.GetE"])
p("C17","Paillier encryption decrypts and computes homomorphically",
 "Decrypting an encryption returns the plaintext for every plaintext below the modulus, and values outside that range are refused; encrypting twice gives different ciphertexts. Adding, subtracting, and adding, multiplying or dividing by a plaintext on ciphertexts decrypt to the same operation on the plaintexts modulo the public modulus, without changing their operands.",
 ["inputs","histories"],"all key pairs, plaintexts (including 0, 1, N-1) and sequences of homomorphic operations",
 "The tests use small integers and single operations, so wrap-around modulo N and long operation chains are never seen.",
 ["xcrypto/paillier/paillier.go","xcrypto/paillier/homomorphism.go"],[("Encrypt/Decrypt","xcrypto/paillier/paillier.go"),("Add, Sub, AddPlaintext, MultPlaintext, DivPlaintext","xcrypto/paillier/homomorphism.go")],
 observe=["GenerateKeyPair","Encrypt","Decrypt","homomorphic operations"])
p("C18","Two-party ECDSA yields a valid signature of the shared key",
 "When two parties run the signing phases on the same digest, both derive the same shared public key (the product of their keys) and shared nonce point, and each party's final phase produces a strict low-S ECDSA signature that verifies under the shared key. When the digests differ or a message is altered, no party's final phase gives a signature that verifies over its own digest.",
 ["inputs","schedules"],"all key pairs and digests, either party finalising, all phase interleavings the protocol allows",
 "The tests run the protocol for one fixed key pair and message, where special cases (high-S, short values, order of phases) are not exercised.",
 ["xcrypto/mpc_ecdsa.go","xcrypto/paillier/homomorphism.go"],[("Phase1..Phase5","xcrypto/mpc_ecdsa.go")],
 observe=["EcdsaParty.Phase1..5","EcdsaVerify"])
p("C19","Multi-party Schnorr yields a valid signature of the shared key",
 "When any number of parties run the signing phases on the same message, they derive the same aggregate key and nonce point and the combined signature verifies under the aggregate key as an ordinary Schnorr signature, whatever the order of aggregation and the parity of the nonces. Repeating a phase gives the same share, and a missing, altered or foreign share gives no valid signature.",
 ["inputs","schedules"],"two or more parties, all keys and messages, all aggregation orders and repetitions of phases",
 "The tests run two fixed parties and a fixed message, one parity of the nonce and one order.",
 ["xcrypto/mpc_schnorr.go","xcrypto/schnorr/schnorr.go"],[("Phase1..Phase5","xcrypto/mpc_schnorr.go")],
 observe=["SchnorrParty.Phase1..5","SchnorrVerify"])
p("C20","Scriptless swaps: the signature is valid and reveals exactly the secret",
 "When both parties run the adaptor-signature phases on the same digest, the completed signature verifies under the shared key, and from the completed pre-signature and her own value Alice recovers exactly Bob's secret. Without the secret her value is not a valid signature.",
 ["inputs"],"all key pairs, digests and secrets in the scalar range",
 "The tests run the swap once with one fixed secret.",
 ["xcrypto/scriptless_ecdsa.go","xcrypto/mpc_ecdsa.go"],[("ScriptlessPhase1..6 of both parties","xcrypto/scriptless_ecdsa.go")],
 observe=["EcdsaAlice/EcdsaBob.ScriptlessPhase1..6","EcdsaVerify"])
p("C21","Hierarchical keys follow BIP32 on both private and public branches",
 "Master keys, child keys and their serialised form are those of BIP32 for every seed, path and network; deriving a normal child from the public half gives the public half of the private child, hardened derivation from a public key is an error, and path derivation equals step-by-step derivation. Importing an exported key gives a key with the same derivations and export, and corrupted, mis-versioned or out-of-range texts, invalid paths and depths beyond the limit are errors.",
 ["inputs"],"all seeds, child numbers, paths, depths, networks, key texts and their corruptions",
 "The tests cover the published vectors; leading-zero keys, arbitrary paths, deep keys and corrupted exports are not sampled.",
 ["xcore/bip32/hdkey.go"],[("Derive and getIntermediary","xcore/bip32/hdkey.go"),("DeriveByPath parsing","xcore/bip32/hdkey.go"),("ToString/NewHDKeyFromString","xcore/bip32/hdkey.go")],
 observe=["NewHDKey","Derive","DeriveByPath","HDPublicKey","ToString","NewHDKeyFromString"])
p("C22","Mnemonics follow BIP39 and detect every invalid sentence",
 "Every entropy of 128 to 256 bits (multiple of 32) gives the BIP39 sentence of its word list, which decodes back to that entropy, and every other entropy length is an error. A sentence is accepted exactly when it has a valid number of listed words and a matching checksum, and its seed is PBKDF2-HMAC-SHA512 of sentence and passphrase as BIP39 says.",
 ["inputs","configurations"],"all entropies, word lists, passphrases and sentences including altered, reordered, truncated and unknown words",
 "The tests cover the published English vectors and few failures; leading-zero entropies, each length and checksum detection over random sentences are not swept.",
 ["xcore/bip39/bip39.go","xcrypto/pbkdf2/pbkdf2.go"],[("NewMnemonic/EntropyFromMnemonic bit packing","xcore/bip39/bip39.go"),("MnemonicToByteArray checksum","xcore/bip39/bip39.go"),("NewSeed","xcore/bip39/bip39.go")],
 observe=["NewMnemonic","EntropyFromMnemonic","MnemonicToByteArray","IsMnemonicValid","NewSeed","NewBIP39"])
p("C23","Generated secrets are fresh, full-size and unpredictable",
 "Every generated mnemonic, entropy, random master key and encryption key has the full requested number of random bits, never repeats, shows no bit that is constant or strongly biased, and cannot be reproduced from the time of generation or a guessable seed, also when many are generated at the same moment by concurrent callers.",
 ["schedules","inputs"],"all generation requests, sizes and languages, sequential or concurrent",
 "The tests generate one value and check its length or that it round-trips, which any constant generator would pass.",
 ["xcore/bip39/bip39.go","xcore/bip32/hdkey.go","xcrypto/paillier/paillier.go"],[("NewEntropy and NewBIP39 read the system random source","xcore/bip39/bip39.go"),("NewHDKeyRand","xcore/bip32/hdkey.go"),("getPrimer/getRandom","xcrypto/paillier/paillier.go")],
 observe=["NewEntropy","NewBIP39","NewHDKeyRand","paillier.GenerateKeyPair/Encrypt"])
p("C24","Hash and key-stretching primitives equal their standards",
 "RIPEMD-160, SHA-256, double SHA-256, HASH160 and PBKDF2 give the standard result for every input of every length; the streaming hash gives the same digest however the input is split, taking a digest does not disturb the stream, and reset starts afresh.",
 ["inputs","histories"],"all inputs and lengths, all ways of splitting writes and interleaving digests and resets, all iteration counts and output lengths",
 "The tests use a few published vectors with whole-input writes; block boundaries, splits and multi-block derived keys are not swept.",
 ["xcrypto/hash.go","xcrypto/ripemd160/ripemd160.go","xcrypto/ripemd160/ripemd160block.go","xcrypto/pbkdf2/pbkdf2.go"],[("ripemd160 block buffering and padding","xcrypto/ripemd160/ripemd160.go"),("pbkdf2 block loop","xcrypto/pbkdf2/pbkdf2.go")],
 observe=["ripemd160.New","Hash160","Sha256","DoubleSha256","Ripemd160","pbkdf2.Key"])
p("C25","Merkle roots are Bitcoin's and proofs prove exactly membership",
 "The root over any non-empty list of transaction hashes is Bitcoin's merkle root, and every leaf of the list has a proof that verifies against that root. A proof does not verify for another leaf, another root, or with any of its nodes altered, removed, reordered or with sides exchanged.",
 ["inputs"],"all list lengths from 1 up, all leaf positions, and all single alterations of proofs",
 "The tests use a few lists; odd counts at several tree levels and altered proofs are not swept.",
 ["xcrypto/merkle.go"],[("NewMerkle levels and odd-node duplication","xcrypto/merkle.go"),("Proofs/Verify","xcrypto/merkle.go")],
 observe=["NewMerkle","Root","Proofs","Verify"])
p("C26","Peer messages encode to the protocol bytes and decode to the same content",
 "Each peer-to-peer message (version, verack, ping, pong, inventory, getdata, getheaders, headers, tx, reject) encodes to the Bitcoin protocol's payload bytes, decodes back to equal content whatever the receiving object held before, and reports as size the length of its encoding. Element limits of the protocol hold however elements are added or received, block hashes are those of the 80-byte header, and truncated payloads are errors.",
 ["inputs","histories"],"all field values, element counts up to and beyond the limits, strings of any length, and truncations",
 "The tests round-trip one small instance of each message; counts across compact-size boundaries, limits and reuse of objects are not swept.",
 ["xprotocol/msgversion.go","xprotocol/msgheaders.go","xprotocol/msggetheaders.go","xprotocol/msginv.go","xprotocol/msggetdata.go","xprotocol/msgreject.go","xprotocol/blockheader.go","xprotocol/invvect.go","xprotocol/msgping.go","xprotocol/msgpong.go","xprotocol/msgtx.go"],[("Encode/Decode/Size of each message","xprotocol/msg*.go"),("BlockHash","xprotocol/blockheader.go")],
 observe=["Message.Encode","Message.Decode","Message.Size","BlockHeader.BlockHash"])
p("C27","Message framing delivers exactly what was sent or reports an error",
 "Messages written to a stream arrive in order, each exactly once and with equal content, however the transport fragments or delays the bytes; the frames are the protocol's 24-byte header (magic, command, length, checksum) and payload. A frame with another network's magic, a wrong checksum, an oversized length or truncated bytes is an error and is never delivered as a message, and a declared length does not by itself cause unbounded memory use.",
 ["inputs","fault_sequences"],"all message sequences, all fragmentations, corruptions of every header or payload byte, truncations and hostile lengths",
 "The tests send whole messages over a loopback socket; fragmentation, corruption of each byte and hostile headers are not exercised.",
 ["xprotocol/stream.go","xprotocol/message.go","xprotocol/command.go"],[("ReadMessage/WriteMessage framing and checksum","xprotocol/stream.go"),("command to message dispatch","xprotocol/command.go")],
 observe=["Stream.ReadMessage","Stream.WriteMessage"])
p("C28","Connections deliver concurrent traffic intact and in order",
 "Messages sent concurrently on one connection by any number of goroutines arrive as whole frames, each exactly once, and those of one sender in its order, while each side may send and receive at the same time without either waiting for the other. Every delivered message reaches the receive callback once and in arrival order, and the end of the peer is reported to the disconnect callback once.",
 ["schedules","histories"],"all interleavings of concurrent senders and readers on both ends, with fragmented and slow transports and peer closes",
 "The tests exchange a few messages sequentially; interleaved writes, simultaneous send/receive and close races need many schedules.",
 ["xprotocol/connection.go","xprotocol/stream.go"],[("separate read and write locks of the stream","xprotocol/stream.go"),("ReadLoop and Send","xprotocol/connection.go")],
 observe=["Connection.Send","Connection.ReadLoop","receive and disconnect callbacks","raw bytes on the transport"])
p("C29","RPC calls return exactly the node's answer or an error",
 "Each RPC call sends one authenticated JSON-RPC request with the right method and parameters, and returns exactly the values of the node's result, including large numbers, for every well-formed answer. An answer carrying an error object, no result, a result (or a field of it) of another JSON type, malformed or cut JSON or a transport failure is returned as an error, never as a zero value and never as a panic.",
 ["inputs","fault_sequences"],"all results and fault sequences a server can produce for each call",
 "The tests replay one canned good answer per call; missing results, error objects, wrong types and truncation are not exercised.",
 ["xrpc/client.go","xrpc/method.go","xrpc/models.go"],[("request building and response checks","xrpc/client.go"),("result decoding per method","xrpc/method.go")],
 observe=["Client.GetBlock*","requests received by a local server"])
p("C30","Independent objects can be used from several goroutines without data races",
 "Using the library concurrently from many goroutines on separate objects, or on shared read-only values such as networks, curves, keys and word lists (including first use), and using one connection from several goroutines, causes no data race, no corrupted result and no crash.",
 ["schedules"],"all interleavings of the public operations on distinct objects and shared constants",
 "The tests are sequential, so races on package-level state and lazily initialised tables are never driven; only a race detector on hostile schedules shows them.",
 ["xcrypto/secp256k1/secp256k1.go","xcore/bip39/bip39.go","xvm/instruction.go","xprotocol/connection.go","xrpc/client.go"],[("one-time initialisation of the curve","xcrypto/secp256k1/secp256k1.go"),("guarded word list","xcore/bip39/bip39.go"),("read-only opcode tables","xvm/instruction.go")],
 observe=["Go race detector reports","results compared with the sequential ones"])
p("C31","Operations neither modify their arguments nor depend on having been called",
 "No library operation writes into byte slices, keys, signatures or numbers its caller passed in, even when those have spare capacity, and values it returns do not change when further operations run. Reading operations (serialising, hashing, sizing, printing, verifying, encoding) leave the object as it was and give the same answer when repeated.",
 ["inputs","histories"],"all operations, argument slices with and without spare capacity, and all interleavings of reading operations",
 "The tests pass fresh exact-capacity literals once and never look at their arguments or repeat a call afterwards, so aliasing is invisible to them.",
 ["xbase/witness.go","xbase/bech32.go","xvm/engine.go","xcore/transaction.go","xcrypto/schnorr/schnorr.go","xcrypto/mpc_schnorr.go","xprotocol/msggetheaders.go","xcrypto/prvkey.go"],[("copies instead of in-place append","xbase, xvm, xcore, xcrypto")],
 observe=["guarded argument slices before and after each call","repeated results"])
p("C32","Hostile bytes never crash a decoder or exhaust memory",
 "Every decoding entry point of the library (addresses, Base58, Bech32, keys, extended keys, mnemonics, signatures, scripts, transactions, peer messages and frames, RPC answers) returns a value or an error for every input: it never panics, hangs, or allocates memory out of proportion to the input. What it accepts can be used further (printed, measured, re-encoded, executed, verified) without panicking either.",
 ["inputs"],"all byte strings and texts given to each decoding entry point",
 "The tests feed well-formed or slightly wrong inputs; crashes come from mutated lengths, counts and nested structures.",
 ["xbase/buffer.go","xcore/transaction.go","xcore/script.go","xcore/address.go","xvm/scriptreader.go","xvm/engine.go","xcrypto/pubkey.go","xcrypto/signature_ecdsa.go","xcore/bip32/hdkey.go","xcore/bip39/bip39.go","xprotocol/stream.go"],[("bounds checks of the buffer reader","xbase/buffer.go"),("count checks while decoding","xcore/transaction.go")],
 observe=["panics","bytes allocated per call","watchdog"])
p("C33","An error names the actual cause with its values",
 "An error made from an error table carries the number, state and message registered for its code with the placeholders filled by the given values in order (an unregistered code gives the unknown error), its text, which Error, %v, %s and %q print, holds all of them (with %+v also where it was made), and neither the table nor earlier errors change. When building, signing or verifying a transaction or decoding an address, Base58Check text or mnemonic is refused for exactly one reason, the error is the one of that reason with the actual values (positions, counts, amounts, versions, texts) in it. When the scripts of an input do not verify, the error names the first such input by its position and outpoint.",
 ["inputs","histories"],"all tables, codes and values, and all requests to the builder, transactions and address decoder with one thing wrong at any position",
 "The tests check that an error is returned, or print it; the code, the values and their order for other positions and amounts are never compared.",
 ["xerror/error.go","xcore/error.go","xcore/transactionbuilder.go","xcore/transaction.go","xcore/address.go","xbase/base58.go","xcore/bip39/bip39.go"],[("formatting of a table entry into a fresh error","xerror/error.go"),("the refusals of the builder","xcore/transactionbuilder.go"),("position and outpoint of a failed input","xcore/transaction.go")],
 observe=["errors returned by DecodeAddress, BuildTransaction, SignIndex, EmbedIdxSignature, SetTxIn, NewTxIn, Verify","text of NewError"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
print(len(P))
