na("C32", "an ordering property of several goroutines over one socket and of io unblocking; sequential contracts over one call have no way to express or decide it, and the code takes no lock whose invariant could be stated")
claim("C01", "every Buffer method is under a full functional contract; write/read inverses are lemmas over those contracts; all obligations discharged for all inputs")
claim("C06", "ScriptNum.Bytes, Int32, checkMinimalDataEncoding and MakeScriptNum (length limit up to 8) are proved against the shortest-form specification for every int64 and every byte string; the round trip is a lemma over the two contracts", "decoding with a length limit of nine")
claim("C05", "ScriptBuilder pushes, ScriptReader.NextInstruction and Instruction.bytes are proved for every input; the per-instruction coverage of AllInstructions and RemoveOpcode's filtering are bounded", "AllInstructions and RemoveOpcode over all one- and two-byte scripts and generated longer ones")
claim("C27", "Encode, Decode, Size and the list limits of every message are proved for all field values and payloads (element by element for the lists); the equality of re-decoded contents follows from the two byte-level contracts and is also exercised")
claim("C28", "the checksum and the mapping from command to message type are proved; framing over the connection is bounded", "WriteMessage and ReadMessage over generated, truncated and corrupted streams")
claim("C02", "Base58 and Base58Check encode and decode are proved for every input against the positional definition; the round trip is a lemma over the contracts")
claim("C03", "toBytes, toChars, HRP expansion, checksum, Polymod, VerifyChecksum, Encode/Decode, convertBits in both directions and the witness address pair are proved for every input; the generator's matrix facts are checked by the bit-vector back end; detection of every single-character error is a lemma")
claim("C04", "every address constructor, ToString and DecodeAddress are proved for every input against the Base58Check and bech32 contracts")
claim("C29", "Sha256, DoubleSha256, Hash160 and PBKDF2 (every block, every iteration, every output length) are proved against the RFC 8018 recurrence", "RIPEMD-160 itself and its splitting into writes")
claim("C26", "every Paillier operation is proved against the scheme's equations, with the scheme's own number theory (Paillier 1999) as named axioms; key generation establishes the key relation they need")
claim("C17", "NewHDKey, getIntermediary, Derive (private and public, every index, depth and parent) and the index sequence of DeriveByPath are proved against the BIP32 equations; the agreement of public and private derivation is a lemma over the contract of the group operation", "point addition and multiplication as group operations (see C21); the keys along a path of several steps")
claim("C18", "ToString and NewHDKeyFromString are proved for every key and every text against the 78-byte layout, over the Base58 and key-encoding contracts")
claim("C19", "entropy, mnemonic and seed functions are proved for every entropy and every word list position against the BIP39 layout")
claim("C20", "RFC 6979 nonce generation, Sign, the digest conversion and DER wrapping are proved for every key and digest; crypto/ecdsa.Verify and encoding/asn1 of the standard library are assumed to meet their specification and are exercised by the harness", "the ECDSA equation inside crypto/ecdsa and DER parsing inside encoding/asn1")
claim("C21", "curve parameters, IsOnCurve and ScalarBaseMult are proved; the group law itself is compared with an independent implementation", "Add, Double and ScalarMult over generated points and scalars, including infinity, equal and opposite points")
claim("C22", "public and private key encodings are proved for every byte string and every point; the round trips are lemmas over the contracts")
claim("C23", "Schnorr nonce, challenge, Sign, Verify, the 64-byte form and both wrappers are proved for every key, message and signature; that signatures satisfy the verification equation is a lemma in the group", "point addition and multiplication as group operations (see C21)")
claim("C24", "every phase of both parties, plain and scriptless, is proved to compute the value the protocol prescribes for every key, nonce, message and encryption key, over the Paillier and curve contracts", "point addition and multiplication as group operations (see C21)")
claim("C25", "every phase of the two-party Schnorr protocol is proved to compute the value the protocol prescribes", "point addition and multiplication as group operations (see C21)")
claim("C31", "entropy, HD seeds, Paillier randomisers and primes are proved to come from the operating system's source over their whole range, with its failure reported")
claim("C10", "both serializations are proved equal to the wire format for every transaction, inputs, outputs and witness items of any number and length; parsing is proved free of panics with every read inside the input", "that re-parsing serialized transactions gives the same fields, and that allocation stays proportional to the input")
claim("C11", "both ids and all five sizes are proved to be the double hash and the exact lengths of the two serializations for every transaction")
claim("C12", "the legacy signature hash is proved equal to its preimage for every transaction, index, script and hash type", "the removal of code separators from a script")
claim("C13", "the witness signature hash is proved equal to the BIP143 preimage for every transaction, index, amount and hash type, computed from the fields at the time of the call")
claim("C16", "the pair hash and proof verification are proved for every proof and leaf", "tree building and proof generation for every number of leaves up to the bound")
