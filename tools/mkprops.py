#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One P(...) per property; kept as source so ids stay stable.
import json
out=[]
def P(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    out.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

P("C01","Wire buffer: typed writes and reads are exact inverses and reads are safe",
"Every sequence of typed writes to a wire buffer appends exactly Bitcoin's wire encoding of each value (fixed-width little-endian integers, shortest-form compact-size integers, length-prefixed byte strings), and reading it back with the matching reads returns the same values in order and consumes exactly those bytes. A read that asks for more bytes than remain, including one whose decoded length is negative or absurdly large, returns an error and never panics, over-reads or moves the read position backwards.",
["inputs","histories"],"all 64-bit values, all byte strings, all interleavings of typed writes and reads, all (also hostile) buffers given to the reader",
"The unit tests write and read one fixed sequence of values and a handful of truncated buffers; value boundaries, hostile length prefixes and arbitrary histories are never reached.",
["xbase/buffer.go"],[("append-only writers","xbase/buffer.go Write*"),("bounds-checked readers","xbase/buffer.go Read*")],
[("seek","read position, 0 <= seek <= length","xbase/buffer.go Buffer")],["Buffer.Bytes","Buffer.Seek","Read* results"])
P("C02","Base58 and Base58Check are exact, reversible and checksum-guarded",
"For every byte string, Base58 encoding gives the big-endian base-58 digits with one '1' per leading zero byte, and decoding that text gives the byte string back; text containing a character outside the alphabet is not decoded. Base58Check decoding accepts a text exactly when its payload ends in the first four bytes of the double SHA-256 of everything before them, and then returns the version byte and payload that were encoded.",
["inputs"],"all byte strings (any length, any number of leading zeros) and all texts",
"Tests compare a table of about 25 vectors; the digit arithmetic (division, carry, leading zeros, high bytes) must be right for every length and value.",
["xbase/base58.go"],[("big-integer digit loop and leading-zero handling","xbase/base58.go Base58Encode/Base58Decode"),("checksum","xbase/base58.go Base58CheckEncode/Base58CheckDecode")])
P("C03","Bech32 and 5/8-bit regrouping round trip; every checksum error is rejected",
"For every human-readable part and every sequence of 5-bit values that fits the length limit, Bech32 encoding and then decoding returns the same part and values, and encoding leaves the caller's data untouched. The decoder accepts a text only if its case is uniform, its characters are legal and its checksum is the BCH checksum of the rest, so changing any one data character of a valid text makes it rejected. Regrouping 8-bit data into 5-bit groups with padding and back without padding returns the data, and regrouping rejects over-long or non-zero padding.",
["inputs"],"all human-readable parts, all 5-bit/8-bit sequences, all single-character changes",
"Tests use the BIP173 vectors; the checksum's linear algebra and the bit regrouping are claims over all data and all corruptions.",
["xbase/bech32.go"],[("polymod step and checksum","xbase/bech32.go bech32Polymod"),("ConvertBits","xbase/bech32.go ConvertBits")])
P("C04","Address text, kind, hash and network determine each other",
"Every address built from a key hash or script hash is rendered as the standard text for its kind and network, and decoding that text for the same network returns an address of the same kind with the same hash. Decoding any text either fails with an error (never a panic) or yields an address whose rendering on that network is that text up to letter case, so an address of one network or kind is never accepted as another.",
["inputs","configurations"],"all 20- and 32-byte hashes, all texts, all supported networks",
"Tests decode a few addresses per kind; hostile texts, other networks' prefixes, other witness versions and lengths are not tried.",
["xcore/address.go","xcore/address_p2pkh.go","xcore/address_p2sh.go","xcore/address_p2wpkh_v0.go","xcore/address_p2wsh_v0.go","xbase/witness.go","network/network.go"],
[("prefix and length dispatch","xcore/address.go DecodeAddress"),("witness program checks","xbase/witness.go WitnessDecode")])
P("C05","Script pushes: what is built is what is read, minimally encoded",
"Adding data, integers or opcodes to a script appends exactly the canonical minimal push (small-integer opcode, direct push, or the shortest OP_PUSHDATA form) and reading the script back yields that one instruction with that data. Reading any byte string as a script never panics: it yields instructions that together cover exactly the bytes read and reports an error when a push runs past the end; removing an opcode or data from a script deletes exactly the matching instructions and keeps every other byte in order.",
["inputs","histories"],"all data lengths and values (except the one-byte value zero, which is pushed as the empty item), all integers, all byte strings as scripts",
"Tests use about a dozen fixed scripts and the length boundaries of none of the push forms.",
["xvm/scriptbuilder.go","xvm/scriptreader.go","xvm/instruction.go"],[("push-form selection","xvm/scriptbuilder.go AddData"),("instruction reader","xvm/scriptreader.go")])
P("C06","Script numbers: minimal little-endian sign-magnitude, exactly reversible",
"For every signed integer, encoding it as a script number gives the shortest little-endian sign-magnitude byte string, and decoding returns the integer; zero is the empty string. Decoding rejects any input longer than the permitted length and, when minimality is required, any input that is not the shortest encoding, and conversion to a 32-bit integer saturates instead of wrapping.",
["inputs"],"all 64-bit integers representable in the format, all byte strings, all length limits",
"Tests list a few dozen values; sign bit, carry byte and minimality conditions quantify over all byte strings.",
["xvm/scriptnum.go"],[("sign-bit and extra-byte rules","xvm/scriptnum.go Bytes/NewScriptNum"),("minimality","xvm/scriptnum.go checkMinimalDataEncoding")])
P("C07","Script interpreter: every opcode has exactly its stack effect and nothing panics",
"Executing any byte strings as unlocking and locking scripts terminates with success or an error and never panics or hangs. Each stack, splice, bitwise, hash and flow-control operation either replaces its operands at the top of the stack by exactly the result Bitcoin defines, leaving all deeper items unchanged, or fails when there are too few operands, and instructions in a branch not taken have no effect.",
["inputs","programs","histories"],"all scripts (byte strings) and all stack contents",
"Tests execute a JSON table of short scripts; hostile operands (empty signatures, negative counts, unbalanced conditionals) and deep stacks are not covered.",
["xvm/engine.go","xvm/stack.go","xvm/instruction.go","xvm/instruction_stack.go","xvm/instruction_flowcontrol.go","xvm/instruction_crypto.go","xvm/instruction_bitwise.go","xvm/instruction_numeric.go","xvm/instruction_pushdata.go","xvm/opcode.go"],
[("stack operations","xvm/stack.go"),("dispatch table","xvm/opcode.go"),("conditional stack","xvm/instruction_flowcontrol.go")],[("stacks","data stack and conditional stack","xvm/engine.go Engine")])
P("C08","An output can be spent only with the key, script and signature it names",
"Verification of a spend of a pay-to-public-key-hash, pay-to-script-hash or witness-v0 output succeeds only if the unlocking data reveals the public key or script that hashes to the committed hash and the required signatures over this transaction's signature hash verify under the revealed keys. A redeem script whose hash matches is always itself executed against the remaining unlocking data, and malformed or unbalanced unlocking data can never make the locking conditions be skipped.",
["inputs","programs"],"all unlocking scripts and witnesses, all redeem scripts, all committed hashes",
"Tests verify honest spends and a few wrong signatures; adversarial unlocking data that manipulates control flow is not explored.",
["xvm/engine.go","xcore/transaction.go","xvm/instruction_crypto.go","xcore/script.go"],
[("script engine","xvm/engine.go Verify"),("per-input verification","xcore/transaction.go Verify")])
P("C09","m-of-n multisignature checks demand m distinct, ordered, valid signatures",
"A multisignature check succeeds exactly when every one of the m supplied signatures can be matched, in order, to a different one of the n listed public keys under which it verifies, with 0 <= m <= n. It consumes exactly the counts, keys, signatures and the one extra item, and any malformed count or signature yields failure or an error, never a panic.",
["inputs"],"all m, n, key lists, signature lists and verification outcomes",
"Tests sign one 2-of-3 and some fixed scripts; reordering, repetition and partial matches across all m and n are not tried.",
["xvm/instruction_crypto.go","xcore/script_multsig.go"],[("greedy ordered matching loop","xvm/instruction_crypto.go opCheckMultiSig")])
P("C10","Transaction bytes and transaction determine each other; parsing is safe",
"Serializing any transaction gives the Bitcoin wire format (with the segregated-witness marker, flag and witness stacks exactly when some input carries a witness), and parsing those bytes gives back the same version, inputs, outputs, witnesses and lock time, which serialize to the same bytes again. Parsing arbitrary bytes returns a transaction or an error and never panics or attempts to allocate an amount of memory unrelated to the input's size.",
["inputs"],"all transactions (any number of inputs, outputs, witness items, script lengths) and all byte strings",
"Tests round trip four fixed transactions; list lengths, hostile counts and re-serialization of parsed witness transactions are not covered.",
["xcore/transaction.go"],[("Serialize","xcore/transaction.go"),("Deserialize","xcore/transaction.go")])
P("C11","Transaction ids and sizes follow the serialization",
"A transaction's id is the double SHA-256 of its serialization without witness data, and its witness id the double SHA-256 of its full serialization, so changing only witness data never changes the id and changing anything else changes the preimage. Base size, total size, weight and virtual size are exactly the two serializations' lengths, 3*base+total, and that weight divided by four.",
["inputs"],"all transactions with and without witnesses, signed or parsed",
"Tests assert the id of a few fixed transactions and sizes of one without witness.",
["xcore/transaction.go"],[("ID/WitnessID","xcore/transaction.go"),("size arithmetic","xcore/transaction.go BaseSize/Size/Weight/Vsize")])
P("C12","Legacy signature hash commits to exactly what its type says",
"For every transaction, input index and script, the legacy signature hash for type ALL is the double SHA-256 of the transaction's serialization in which every input script is empty except the signed input, which carries the given script, followed by the four-byte hash type. Computing it does not modify the transaction, and an input index outside the transaction is an error rather than a panic or a signature over nothing.",
["inputs","histories"],"all transactions, indices, scripts",
"Tests check the hash of one or two fixed transactions.",
["xcore/transaction.go"],[("RawSignatureHash","xcore/transaction.go")])
P("C13","Witness v0 signature hash follows BIP143 and is independent of call history",
"For every transaction, input index, script code, amount and hash type, the witness-v0 signature hash is the double SHA-256 of the BIP143 preimage: version, hashes of all outpoints, sequences and outputs (each zeroed or restricted as ALL, NONE, SINGLE and ANYONECANPAY prescribe), the signed input's outpoint, script code, amount and sequence, lock time and hash type. The result depends only on the transaction's present contents, never on which hashes were computed earlier or on changes made since.",
["inputs","histories"],"all transactions, indices, amounts, all six hash types, all orders of calls and edits",
"Tests use only the ALL type on a freshly built transaction; other types and call histories are never exercised.",
["xcore/transaction.go"],[("WitnessV0SignatureHash and cached hashes","xcore/transaction.go")],[("cached hashes","memoised BIP143 midstates","xcore/transaction.go Transaction")])
P("C14","Signing produces a spend that verifies, and embeds exactly the data given",
"For every supported output kind, signing an input with the key or keys the output names puts into the transaction exactly the unlocking script or witness stack the kind prescribes (signatures with their hash-type byte, public keys, redeem script), and the signed transaction then verifies. Any failure to build the unlocking data, including a wrong number of signatures or an index outside the transaction, is reported as an error and never silently ignored or turned into a panic.",
["inputs","histories"],"all keys, output kinds, numbers of inputs, orders of signing",
"Tests sign one or two inputs per kind with fixed keys and never make the embedding fail.",
["xcore/transaction.go","xcore/script_p2pkh.go","xcore/script_p2sh.go","xcore/script_p2wpkh_v0.go","xcore/script_p2wsh_v0.go","xcore/script_multsig.go"],
[("SignIndex/EmbedIdxSignature","xcore/transaction.go"),("unlocking builders","xcore/script_*.go")])
P("C15","Transaction builder conserves value and respects fee limits",
"A transaction the builder returns has output values and fee that add up exactly to its input values, with every requested recipient paid exactly the requested amount and all the remainder going to the change address; no amount wraps around. The builder returns an error instead when inputs do not cover outputs plus fee, when change is due but no change address is set, or when the fee would exceed the configured maximum.",
["inputs","histories"],"all coin values, recipient values, fee settings, numbers of groups",
"Tests build a few transactions with small round amounts; overflow and boundary amounts are not tried.",
["xcore/transactionbuilder.go","xcore/estimate.go","xcore/coinbuilder.go"],[("fee and change arithmetic","xcore/transactionbuilder.go BuildTransaction")])
P("C16","Merkle root and inclusion proofs are exact",
"For every non-empty list of leaf hashes the Merkle root is the one Bitcoin defines (double SHA-256 of pairs, the last of an odd level paired with itself). For every leaf index the generated proof folds to that root, and a verification accepts exactly the proofs that fold to it.",
["inputs"],"all list lengths and leaf values",
"Tests use lists of a few fixed sizes; the level arithmetic for non-power-of-two sizes is wrong or right per size.",
["xcrypto/merkle.go"],[("linear-array tree construction","xcrypto/merkle.go")])
P("C17","BIP32 child derivation and path parsing follow the standard",
"Every hardened or normal child of a private extended key, and every normal child of a public one, has the key, chain code, depth, parent fingerprint and child number BIP32 prescribes, and deriving publicly then comparing with the public half of the private derivation gives the same key. Deriving a hardened child of a public key, deriving from an unusable seed or index, or exceeding the depth limit is an error; a textual path derives exactly the children it names or returns an error, and never panics.",
["inputs","histories"],"all seeds, parent keys, child indices, depths and path texts",
"Tests use the BIP32 vectors; key values with leading zero bytes, malformed paths and depth overflow are not tried.",
["xcore/bip32/hdkey.go"],[("Derive","xcore/bip32/hdkey.go"),("DeriveByPath","xcore/bip32/hdkey.go")])
P("C18","Extended keys survive text serialization exactly",
"The text form of an extended key is Base58 of the 78-byte BIP32 structure plus checksum, with the version bytes of its network and kind, and parsing that text returns a key equal in every field. Text of the wrong length, checksum or key range is an error, never a panic.",
["inputs"],"all extended keys, all texts",
"Tests parse the BIP32 vectors only.",
["xcore/bip32/hdkey.go"],[("ToString/NewHDKeyFromString","xcore/bip32/hdkey.go")])
P("C19","Mnemonics and entropy determine each other and the seed is BIP39's",
"For every entropy of a permitted length, the mnemonic consists of the BIP39 words of the entropy followed by its SHA-256 checksum bits, and converting it back returns that entropy. A phrase is accepted exactly when its word count is permitted, every word is in the list and the checksum matches, and the seed is PBKDF2-HMAC-SHA512 of the phrase with salt 'mnemonic' plus password, 2048 rounds, 64 bytes.",
["inputs"],"all entropies of 128 to 256 bits, all phrases and passwords",
"Tests use the official vectors; leading zero bits and each length's checksum arithmetic are sampled only.",
["xcore/bip39/bip39.go"],[("bit slicing with big integers","xcore/bip39/bip39.go NewMnemonic"),("checksum","xcore/bip39/bip39.go")])
P("C20","ECDSA signatures are valid, low-S, deterministic and strictly encoded",
"For every private key and 32-byte digest, signing gives a signature that verifies under the matching public key, is a function of key and digest only (RFC 6979 nonce), and has S at most half the group order; its DER form parses back to the same pair. Verification accepts a signature exactly when 0<R,S<N and the ECDSA equation holds, and malformed encodings are rejected without panicking.",
["inputs"],"all keys, digests, signatures and encodings",
"Tests sign a few digests; nonce bit handling, short R/S values and malformed encodings are not sampled.",
["xcrypto/ecdsa/ecdsa.go","xcrypto/ecdsa/rfc6979.go","xcrypto/signature_ecdsa.go","xcrypto/prvkey.go"],[("Sign/low-S","xcrypto/ecdsa/ecdsa.go"),("nonce","xcrypto/ecdsa/rfc6979.go")])
P("C21","Curve operations implement the secp256k1 group",
"Addition, doubling, scalar multiplication and base-point multiplication return the secp256k1 group results for all curve points including equal points, opposite points and the point at infinity, and results lie on the curve with coordinates in the field. Operations do not modify their arguments.",
["inputs"],"all pairs of curve points including infinity, all scalars",
"Tests use a few fixed multiples; the exceptional cases of the addition formula are not covered.",
["xcrypto/secp256k1/secp256k1.go","xcrypto/secp256k1/sec.go","xcrypto/secp256k1/scalar.go"],[("Jacobian formulas","xcrypto/secp256k1/secp256k1.go")])
P("C22","Public key encodings round trip and only curve points are accepted",
"Compressed and uncompressed encodings of every public key have the standard 33/65-byte form with fixed-width coordinates and parse back to the same point. Parsing accepts a byte string only if it has a valid prefix and length and decodes to a point on the curve with the parity the prefix states, and returns an error otherwise, never a panic.",
["inputs"],"all curve points (including coordinates with leading zero bytes), all byte strings",
"Tests parse a table of fixed keys.",
["xcrypto/pubkey.go","xcrypto/secp256k1/sec.go"],[("format byte and on-curve checks","xcrypto/pubkey.go PubKeyFromBytes"),("sqrt decompression","xcrypto/secp256k1/sec.go")])
P("C23","Schnorr signatures: sign then verify, 64-byte form, strict verification",
"For every private key and message, Schnorr signing yields a deterministic signature that verifies under the key's public key, and its 64-byte form parses back to the same pair. Verification accepts only when r is below the field size, s is below the group order, and the Schnorr equation holds with the nonce point's y a quadratic residue; any other length or value is rejected without panicking.",
["inputs"],"all keys, messages and 64-byte (and other-length) signatures",
"Tests use the published vectors and one random loop; range boundaries and malformed lengths are not covered.",
["xcrypto/schnorr/schnorr.go","xcrypto/signature_schnorr.go"],[("range checks and equation","xcrypto/schnorr/schnorr.go Verify")])
P("C24","Two-party and scriptless ECDSA produce ordinary valid signatures",
"When two parties run the signing phases honestly with any keys and message, both compute the same joint public key and nonce and the resulting signature verifies as an ordinary ECDSA signature with S in the lower half; in the scriptless variant the party holding the final signature lets the other recover exactly the hidden secret. A message from the other party that fails its consistency check makes the phase return an error.",
["inputs","histories"],"all key pairs, nonces, messages and encryption keys",
"Tests run the protocol on a few fixed keys; reduction modulo the order and half-order normalisation only matter for some values.",
["xcrypto/mpc_ecdsa.go","xcrypto/scriptless_ecdsa.go","xcrypto/paillier/homomorphism.go"],[("phase arithmetic","xcrypto/mpc_ecdsa.go"),("secret extraction","xcrypto/scriptless_ecdsa.go")])
P("C25","Multi-party Schnorr aggregation yields an ordinary valid signature",
"When parties run the aggregate Schnorr phases honestly with any keys and message, all compute the same aggregate key and nonce, and the combined signature verifies as an ordinary Schnorr signature under the aggregate key. Repeating a phase gives the same result.",
["inputs","histories"],"all keys, messages, and repetitions of phases",
"Tests run a fixed pair of keys; nonce negation depends on the quadratic character of the aggregate nonce.",
["xcrypto/mpc_schnorr.go","xcrypto/schnorr/schnorr.go"],[("nonce negation","xcrypto/schnorr/schnorr.go GetK"),("aggregation","xcrypto/mpc_schnorr.go")])
P("C26","Paillier encryption decrypts correctly and is additively homomorphic",
"For every generated key pair and every message below the modulus, decrypting an encryption returns the message, the product of ciphertexts decrypts to the sum, and a ciphertext raised to a constant decrypts to the product, all modulo the public modulus. Messages or ciphertexts outside their range are rejected with an error.",
["inputs"],"all messages and constants, all well-formed keys and randomisers",
"Tests encrypt a few small numbers; the algebra must hold for every residue and randomiser.",
["xcrypto/paillier/paillier.go","xcrypto/paillier/homomorphism.go"],[("modular arithmetic","xcrypto/paillier/*.go")])
P("C27","P2P messages encode and decode losslessly and within protocol limits",
"Every peer-to-peer message encodes to Bitcoin's wire layout for its command, decoding that encoding into an empty message returns equal contents, and its reported size is the length of its encoding. Decoding any byte string returns a message or an error and never panics, and lists cannot grow past the protocol's limits through either adding or decoding.",
["inputs","histories"],"all field values, list lengths and payload byte strings",
"Tests round trip one sample per message type.",
["xprotocol/msgversion.go","xprotocol/msginv.go","xprotocol/msggetdata.go","xprotocol/msggetheaders.go","xprotocol/msgheaders.go","xprotocol/msgreject.go","xprotocol/msgping.go","xprotocol/msgpong.go","xprotocol/msgtx.go","xprotocol/msgverack.go","xprotocol/msgunhandle.go","xprotocol/blockheader.go","xprotocol/invvect.go"],
[("Encode/Decode pairs","xprotocol/msg*.go"),("list limits","xprotocol/msginv.go, msgheaders.go")])
P("C28","Message framing: a frame is accepted only if magic, length and checksum match",
"Writing a message emits magic, zero-padded command, payload length, the first four bytes of the payload's double SHA-256, and the payload. Reading yields exactly the message that was written and consumes exactly its bytes; a frame with another network's magic, an over-limit length, a wrong checksum or a truncated header or payload is an error and never a panic or an unbounded allocation.",
["inputs","fault_sequences"],"all messages, all byte streams including truncated and corrupted ones",
"Tests exchange well-formed frames only, over a loopback connection.",
["xprotocol/stream.go","xprotocol/message.go","xprotocol/command.go"],[("header encode/decode, checksum compare","xprotocol/stream.go")])
P("C29","Hash helpers and key stretching compute the standard functions",
"The hash helpers are exactly the compositions their names state (double SHA-256, SHA-256 then RIPEMD-160, HMAC), RIPEMD-160 equals the standard function for every input and every way of splitting it into writes, and PBKDF2 equals the RFC 8018 construction for every password, salt, iteration count and output length. Reading a digest does not disturb further writes.",
["inputs","histories"],"all inputs, all splits into writes, all parameters",
"Tests use the published vectors.",
["xcrypto/hash.go","xbase/hash.go","xcrypto/ripemd160/ripemd160.go","xcrypto/ripemd160/ripemd160block.go","xcrypto/pbkdf2/pbkdf2.go"],[("block buffering","xcrypto/ripemd160/ripemd160.go"),("block/iteration loops","xcrypto/pbkdf2/pbkdf2.go")])
P("C30","RPC responses of any shape give a value or an error",
"Whatever the server answers (HTTP failure, malformed body, null or missing result, an error object), an RPC call returns either the decoded result or a non-nil error, and never panics. A server-reported error is never turned into a success.",
["inputs","fault_sequences"],"all response bodies and HTTP statuses",
"Tests use a mock that returns one well-formed body per method.",
["xrpc/client.go","xrpc/method.go","xrpc/models.go"],[("error and result unwrapping","xrpc/client.go")])
P("C31","Secret randomness comes only from the operating system's secure source",
"All generated entropy, private keys, encryption primes and encryption randomisers are drawn from the operating system's cryptographic random source over the whole required range, and a failure of that source is reported rather than replaced by a predictable value.",
["inputs","fault_sequences"],"all calls, all failures of the source",
"Tests can only see that some value comes out; predictability is not observable on samples.",
["xcore/bip39/bip39.go","xcrypto/prvkey.go","xcrypto/paillier/paillier.go","xcrypto/mpc_ecdsa.go"],[("random source selection","NewEntropy, GenerateKey, getRandom")])
P("C32","A peer connection may be used from several goroutines at once",
"Concurrent sends on one peer connection never interleave the bytes of two frames, and closing a connection unblocks its readers.",
["schedules"],"all interleavings of senders, readers and close",
"The test uses one sender and one reader.",
["xprotocol/connection.go"],[("stream writer","xprotocol/connection.go")])
with open("/verif/properties.jsonl","w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
print(len(out))
