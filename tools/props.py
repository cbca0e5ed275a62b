import json
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); return d
L=[]
L.append(P("C01","Script interpreter executes every program as specified, step by step",
"For every byte string run as a script, each supported opcode (pushes, constants, flow control, stack, equality, arithmetic, hash and signature opcodes) transforms the data and condition stacks as defined, instructions in untaken branches have no effect, and the run ends with exactly the defined verdict. Unknown opcodes, truncated pushes, stack underflow, oversized or non-minimal numbers, non-minimal branch conditions, unbalanced conditionals and a false top element are always reported as errors. The recorded step trace (step number, opcode, stack, remaining script) is the sequence of states that execution really went through. The exported data stack (push, pop, peek, dup, drop, swap, copy) follows the same definitions. Pinned by the tests and therefore part of the definition: an empty final stack is success and OP_RETURN does nothing.",
["programs","inputs","histories"],"all scripts over the full opcode space, all stack contents, repeated runs on the same or different engines",
"vm.json holds 27 hand-written scripts; branch nesting, untaken branches containing pushes or failing opcodes, number boundaries and every opcode on every stack depth are unreached.",
["xvm/engine.go","xvm/instruction.go","xvm/instruction_*.go","xvm/stack.go","xvm/scriptnum.go","xvm/scriptreader.go"],
[("Engine.Step / execute","xvm/engine.go"),("opcode handlers","xvm/instruction_*.go"),("Stack operations","xvm/stack.go"),("MakeScriptNum / ScriptNum.Bytes","xvm/scriptnum.go")],
[("dstack","data stack","xvm/engine.go"),("cstack","condition stack","xvm/engine.go"),("reader position","program counter","xvm/scriptreader.go")],
["Engine.Execute","Engine.Traces"]))
L.append(P("C02","A locking script is always enforced, whatever the unlocking script does",
"Verifying an unlocking script against a locking script succeeds only if the locking script, run from its first instruction on the stack left by the unlocking script, itself runs to completion with a true (or empty) result: no unlocking script can skip, comment out or alter part of it. When the locking script is a pay-to-script-hash, the committed redeem script must in addition run successfully on the remaining items, and a locking script that is not of that form never causes an unlocking item to be executed as code. The verdict depends only on the two scripts and the signature callbacks, not on earlier use of the engine, and the caller's byte slices are not modified.",
["programs","histories","inputs"],"all pairs of unlocking and locking scripts, including conditionals crossing the boundary, and any earlier use of the same engine",
"Tests pair one honest unlocking script with each locking script; an adversarial unlocking script is never tried.",
["xvm/engine.go","xcore/transaction.go"],[("Engine.Verify","xvm/engine.go"),("Transaction.Verify","xcore/transaction.go")],
[("cstack across the script boundary","open conditionals","xvm/engine.go"),("copyStk","stack handed to the redeem script","xvm/engine.go")],["Engine.Verify"]))
L.append(P("C03","Signature opcodes accept exactly the required signatures, keys and order",
"CHECKSIG yields true only when the verifier accepts the signature (without its final hash-type byte) for that key and for the signature hash of that hash-type byte; the empty signature yields false. CHECKMULTISIG with m of n yields true exactly when the m signatures can be matched, in order, to m distinct keys in order; it consumes exactly n keys, m signatures, both counts and one extra element. The VERIFY forms fail the script whenever the plain form would yield false, and malformed counts, missing elements or missing callbacks are errors, never acceptance or a crash.",
["inputs","programs"],"all m,n, all orders, duplicates, missing, empty and foreign signatures, all hash-type bytes, arbitrary verifier callbacks",
"The tests run four multisig scripts with m=1..2; wrong order is tried once, duplicates, empty signatures, bad counts, mixed hash types never.",
["xvm/instruction_crypto.go","xvm/instruction_bitwise.go"],[("opCheckSig, opCheckMultiSig and VERIFY forms","xvm/instruction_crypto.go")],None,["Engine.Execute with recording callbacks"]))
L.append(P("C04","Scripts built by the library parse back to what was put in",
"Building a script from any sequence of data pushes, opcodes and integers uses the shortest canonical push for each length and value, and parsing the result returns the same sequence of opcodes and data; re-serialising parsed instructions and removing an opcode leave every other instruction's bytes unchanged. Script numbers encode minimally, little endian with a sign bit, and decoding inverts encoding. Standard templates and m-of-n multisig scripts have exactly the defined bytes, every well-formed standard script is classified as its own type, and no other script is; a script already handed out is not changed by later use of its builder.",
["inputs","histories"],"all push lengths across the 1/75/76/255/256/65535/65536 boundaries, all single byte values, all 64-bit integers, all m and n, arbitrary scripts to classify",
"Tests use a dozen lengths and values; the 75/76 and 255/256 edges with parse-back, builder reuse after hand-out and near-miss templates are not sampled.",
["xvm/scriptbuilder.go","xvm/scriptreader.go","xvm/scriptnum.go","xcore/script*.go"],[("ScriptBuilder","xvm/scriptbuilder.go"),("ScriptReader.NextInstruction","xvm/scriptreader.go"),("ParseLockingScript","xcore/script.go"),("GenMultiSigScript","xcore/script_multsig.go")],
None,["ScriptBuilder.Script","AllInstructions","DisasmString","RemoveOpcode","ParseLockingScript"]))
L.append(P("C05","Transaction wire format, identifiers and sizes are exact and lossless",
"Every transaction with at least one input serialises to exactly the BIP144 (or legacy) layout of its fields, and deserialising those bytes and serialising again reproduces them, witness data included. The txid is the double SHA-256 of the witness-stripped form and so never changes with witness data; the witness id is that of the full form; stripped size, total size, witness size, weight and rounded-up virtual size equal those of the actual serialised bytes. Fees equals the sum of input values minus the sum of output values whenever that fits a signed 64-bit integer. Bytes that no transaction serialises to may be refused or accepted.",
["inputs","histories"],"any number of inputs/outputs/witness items including counts and lengths at 252/253/65535/65536, mixed witness and plain inputs in any order, signed or unsigned, any version/locktime/sequence",
"The vectors contain small transactions with uniform input kinds; count and length boundaries, mixed inputs and decode-encode round trips with witness are not covered.",
["xcore/transaction.go","xbase/buffer.go"],[("Serialize/Deserialize(NoWitness)","xcore/transaction.go"),("BaseSize/WitnessSize/Weight/Vsize/Size","xcore/transaction.go")],None,["Serialize","SerializeNoWitness","Hash","ID","WitnessID","Size"]))
L.append(P("C06","Signature hashes commit to exactly what the hash type says",
"For every input and hash type (ALL, NONE, SINGLE, each with or without ANYONECANPAY; any further bits of the 32 are committed to as well), the legacy signature hash equals the Bitcoin definition and the witness-v0 signature hash equals BIP143. It is a function of the transaction's current contents only: computing hashes for other inputs or other hash types first, or changing the transaction between computations, never influences it. (Script codes are well-formed scripts without OP_CODESEPARATOR; witness hashes are for inputs that exist.)",
["inputs","histories","configurations"],"all hash types, all input indices, input/output counts including SINGLE beyond the last output, all orders of hash computations and mutations",
"Tests sign with ALL (and in one case another type) once per fresh transaction; a second computation on the same transaction, another hash type or a later mutation is not checked against the definition.",
["xcore/transaction.go"],[("RawSignatureHash","xcore/transaction.go"),("WitnessV0SignatureHash","xcore/transaction.go")],[("hashPrevouts/hashSequence/hashOutputs","cached BIP143 parts","xcore/transaction.go")],["RawSignatureHash","WitnessV0SignatureHash"]))
L.append(P("C07","Signed transactions verify; tampered or under-signed ones never do",
"Signing every input of a transaction with the right keys (single key, m-of-n multisig, legacy or segwit, compressed or not, any hash type of one byte) yields a transaction that verifies, before and after a serialise/deserialise/attach-outputs round trip. If fewer or wrong keys sign, or a field that the used hash type commits to (value, sequence, output, input, script, locktime) is changed afterwards, or the revealed script does not match the committed hash, verification fails. Signing or attaching for an index that does not exist is an error and leaves the transaction unchanged. (SIGHASH_SINGLE on an input without a matching output commits to nothing, as in Bitcoin.)",
["inputs","histories","configurations"],"all mixes of input kinds and orders, all hash types, key counts, subsets and orders of signers, all single-field mutations after signing",
"Tests sign and verify honest transactions; only a couple of negative cases exist and no systematic tampering.",
["xcore/transaction.go","xcore/script_*.go","xvm/engine.go"],[("SignIndex/EmbedIdxSignature/SetTxIn/Verify","xcore/transaction.go")],None,["Transaction.Verify"]))
L.append(P("C08","The transaction builder conserves value and obeys the fee policy",
"A built transaction spends exactly the added coins and pays exactly the requested outputs in order, then at most one change output, then one zero-value data output per pushed datum; inputs minus outputs equals the fee demanded (the fixed fee, or rate times estimated size when a relay rate is set), with all the remainder going to the change address. No transaction is produced if inputs or outputs are missing, amounts do not cover outputs plus fee (also for sums beyond 2^63), the fee exceeds the maximum, change is due but no change address is set, or a key is missing when signing; an error naming an obstacle that really applies is reported. Building twice gives the same transaction and does not alter the builder.",
["inputs","configurations","histories"],"all sequences of builder calls, values over the whole 64-bit range, any number of groups, relay rates and push data",
"Tests build about ten configurations with small amounts and one fee rate.",
["xcore/transactionbuilder.go","xcore/estimate.go","xcore/coinbuilder.go"],[("BuildTransaction","xcore/transactionbuilder.go"),("EstimateSize/EstimateFees","xcore/estimate.go")],[("groups/idx","pending inputs and outputs","xcore/transactionbuilder.go")],["BuildTransaction"]))
L.append(P("C09","Addresses encode and decode without loss and never cross networks or types",
"For every key or script hash and network, the textual address decodes on that network to the same type and hash and to the same locking script; the locking script of an address, parsed back, yields that address. A string that is malformed, has any character changed, has the wrong length or version, or belongs to a network whose prefixes differ is rejected, never decoded to a different destination.",
["inputs","configurations"],"all 20- and 32-byte hashes (leading zeros included), all networks, all single-character corruptions, truncated and mixed-case strings",
"Tests check a few fixed addresses per type.",
["xcore/address*.go","xbase/base58.go","xbase/bech32.go","xbase/witness.go","network/network.go"],[("DecodeAddress","xcore/address.go"),("ToString/LockingScript","xcore/address_*.go")],None,["DecodeAddress","ToString","LockingScript","ParseLockingScript().GetAddress"]))
L.append(P("C10","HD key derivation follows BIP32 on every path",
"For every seed and path, private and public child keys, chain codes, depth, parent fingerprint and child number equal the BIP32 definition; deriving publicly from a neutered parent equals neutering the privately derived child, and hardened derivation from a public key is refused. Serialised extended keys are exactly 111 base58check characters or fewer as defined and parse back to the same key; corrupted strings are rejected. Malformed or out-of-range path components (empty, not decimal, above 2^32-1, or above 2^31-1 with a hardening mark) are errors, never another key. Private keys of zero or at least the group order, version bytes contradicting the key, and master keys with a parent or child number are refused.",
["inputs","histories"],"all seeds of allowed length, all indices across the hardened boundary, all depths and paths, keys with leading zero bytes, both networks",
"Four BIP32 vectors and one random key are tested; leading zeros, deep paths, index and path boundaries are not.",
["xcore/bip32/hdkey.go"],[("Derive/DeriveByPath/ToString/NewHDKeyFromString","xcore/bip32/hdkey.go")],[("chaincode/depth/childnum","extended key fields","xcore/bip32/hdkey.go")],["HDKey.Derive","HDKey.ToString"]))
L.append(P("C11","Mnemonics are lossless, checksummed and always yield the BIP39 seed",
"For every entropy of 128 to 256 bits in 32-bit steps, the mnemonic has the BIP39 words and checksum, and converting it back returns exactly that entropy; other sizes are errors. A word sequence (words separated by white space) whose length, words or checksum are wrong is rejected by every entry point that validates, and accepted ones give the PBKDF2-HMAC-SHA512 seed of mnemonic and passphrase with 2048 rounds. Fresh entropy of the requested size never repeats, also when requested concurrently.",
["inputs","schedules"],"all entropies incl. leading/trailing zero bytes, all word substitutions and lengths, any passphrase, concurrent entropy requests",
"Tests use fixed vectors and random entropies with a self-check; wrong checksums are sampled a few times and entropy uniqueness never.",
["xcore/bip39/bip39.go","xcrypto/pbkdf2/pbkdf2.go"],[("NewMnemonic/EntropyFromMnemonic/NewSeed","xcore/bip39/bip39.go"),("pbkdf2.Key","xcrypto/pbkdf2/pbkdf2.go")],None,["NewMnemonic","EntropyFromMnemonic","NewSeedWithErrorChecking","NewEntropy"]))
L.append(P("C12","ECDSA signatures are deterministic, canonical and accepted iff valid",
"For every key and non-empty message hash, signing gives the RFC6979/SHA-256 signature in strict DER with low S, equal on every call, and the matching public key verifies it. Verification accepts a signature exactly when it satisfies the ECDSA equation with r and s in range for that key and hash: any other hash, key, r or s, malformed encoding or out-of-range value is refused with an error.",
["inputs","histories"],"all private keys, all hashes (short, long, leading zeros, larger than the group order), all r,s including 0, N, N+r and high S, all DER malformations",
"RFC6979 vectors cover a handful of keys; negative verification is checked for one tampered hash.",
["xcrypto/signature_ecdsa.go","xcrypto/ecdsa/*.go"],[("ecdsa.Sign/Verify","xcrypto/ecdsa/ecdsa.go"),("NonceRFC6979","xcrypto/ecdsa/rfc6979.go"),("SignatureEcdsa.Serialize/Deserialize","xcrypto/signature_ecdsa.go")],None,["EcdsaSign","EcdsaVerify"]))
L.append(P("C13","Schnorr signatures verify exactly when valid",
"For every key and message, Schnorr signing is deterministic, gives the defined 64-byte r||s and verifies under the matching public key. Verification accepts exactly the signatures whose r is a field element, s a scalar and whose equation holds with a quadratic-residue y; other messages, keys, lengths or out-of-range values are refused without crashing.",
["inputs"],"all keys and messages, both parities of the nonce point, r and s at 0, p, n and beyond, signatures of every length",
"The test vectors have a fixed handful of keys; boundary values of r and s and wrong lengths are not covered.",
["xcrypto/schnorr/schnorr.go","xcrypto/signature_schnorr.go"],[("schnorr.Sign/Verify","xcrypto/schnorr/schnorr.go")],None,["SchnorrSign","SchnorrVerify"]))
L.append(P("C14","Two-party ECDSA and adaptor sessions end in valid signatures",
"Whenever two parties run the two-party ECDSA phases on the same non-empty hash, both obtain the same joint key and nonce point and each obtains a valid low-S ECDSA signature under the joint key, whatever their keys, and the same one. In the scriptless (adaptor) variant Bob's and Alice's phases end in a valid signature under the joint key, and the secret extracted from the two partial signatures is exactly Bob's secret (1..N-1). A message of another session, altered in transit, never leads to a signature that verifies.",
["schedules","inputs","fault_sequences"],"all orders in which the two parties run their phases, all keys, hashes and secrets, repeated and crossed sessions, altered messages",
"One fixed key pair, one hash, one order of phases is tested.",
["xcrypto/mpc_ecdsa.go","xcrypto/scriptless_ecdsa.go"],[("EcdsaParty.Phase1..5","xcrypto/mpc_ecdsa.go"),("ScriptlessPhase1..6","xcrypto/scriptless_ecdsa.go")],[("k,kinv,hash,encprv","per-session secrets","xcrypto/mpc_ecdsa.go")],["EcdsaVerify on the joint key"]))
L.append(P("C15","Multi-party Schnorr sessions end in a valid joint signature",
"Whenever parties run the Schnorr phases on the same message, all obtain the same aggregate key and nonce point, and adding up their partial signatures gives a 64-byte signature that verifies under the aggregate key, whatever the keys, the parity of the nonce points, and the order or repetition of phases. If any partial signature, key or message differs, the result does not verify.",
["schedules","inputs","fault_sequences"],"all keys and messages, all four parity combinations, any interleaving and repetition of phases, altered partial signatures",
"The test only compares the two parties' outputs with each other and never verifies the joint signature.",
["xcrypto/mpc_schnorr.go","xcrypto/schnorr/schnorr.go"],[("SchnorrParty.Phase1..5","xcrypto/mpc_schnorr.go")],[("k0, r","per-session nonce","xcrypto/mpc_schnorr.go")],["SchnorrVerify on the aggregate key"]))
L.append(P("C16","Paillier operations are exactly homomorphic and range checked",
"For every key pair and plaintexts in range, decrypting an encryption returns the plaintext, and adding, subtracting, scaling by or dividing by plaintext (and adding ciphertexts) decrypts to the same operation modulo n. Plaintexts outside 0..n-1, operands of the homomorphic operations that are not ciphertexts (missing, outside 1..n^2-1 or sharing a factor with n) and missing or non-invertible divisors are refused with an error (subtraction: no result); decryption refuses what is missing, not positive or shares a factor with n. Scalars may be any integer. Operations never modify their operands.",
["inputs","histories"],"all key sizes from small to 2048 bits, plaintexts incl. 0, 1, n-1, n and negatives, chains of operations",
"Tests use small positive numbers only.",
["xcrypto/paillier/paillier.go","xcrypto/paillier/homomorphism.go"],[("Encrypt/Decrypt","xcrypto/paillier/paillier.go"),("Add/Sub/MultPlaintext/DivPlaintext","xcrypto/paillier/homomorphism.go")],None,["Decrypt"]))
L.append(P("C17","Merkle roots and proofs accept exactly the leaves of the tree",
"For every list of leaf hashes the root is the Bitcoin merkle root (last node duplicated on odd levels); for every leaf in the list the returned proof (sibling, side and parent of each level) verifies against the root, and there is no proof for a hash that is not a leaf. Verification accepts exactly when folding the leaf with each step's sibling on its side gives that step's parent and finally the root, so a leaf, step, side or root that has been altered does not verify (hashes are 32 bytes, shorter ones are padded with zeros, longer ones are refused). Building trees, proofs or verifying never alters the caller's data.",
["inputs"],"all leaf counts incl. 0, 1 and non-powers of two, every leaf position, duplicates, every single alteration of a proof",
"One block's transaction list and one error case are tested.",
["xcrypto/merkle.go"],[("NewMerkle/Proofs/Verify","xcrypto/merkle.go")],[("tree","level-order node array","xcrypto/merkle.go")],["Root","Proofs","Verify"]))
L.append(P("C18","The P2P stream delivers every message intact, in order, without stalling",
"Messages written by any number of concurrent senders on a connection arrive at the peer whole, unaltered, each exactly once and in a per-sender order, however the bytes are fragmented, and a pending read never blocks a write. A frame with a wrong magic, wrong checksum, truncated payload or a length above 32 MiB ends the read with an error: it is never delivered as a message. After the stream fails the receive loop stops and reports the disconnect exactly once.",
["schedules","fault_sequences","inputs"],"all interleavings of senders and the reader, all fragmentations, payloads from empty to larger than the buffer, corrupted/truncated/foreign frames, close at any point",
"One connection on loopback exchanges two messages in lock step.",
["xprotocol/stream.go","xprotocol/connection.go"],[("ReadMessage/WriteMessage","xprotocol/stream.go"),("ReadLoop","xprotocol/connection.go")],[("mutex","serialises frames","xprotocol/stream.go")],["ReadMessage","WriteMessage","onReceive/onDisconnect"]))
L.append(P("C19","Every P2P message encodes to the protocol layout and decodes back unchanged",
"Each message type encodes to exactly the Bitcoin protocol layout of its fields, decoding the encoding gives back every field, the command string selects the matching type on receipt (ping and pong included) and unknown commands keep their command and payload. Truncated payloads, counts beyond the protocol limits and counts larger than the data are errors; adding beyond a message's limit is refused and leaves it unchanged. Bytes that no message encodes to (trailing data, padded varints) may be refused or accepted.",
["inputs","histories"],"all field values incl. extremes, all list lengths across the varint and protocol limits, every truncation point, reuse of a message object",
"Tests round-trip one mock instance of each message.",
["xprotocol/msg*.go","xprotocol/invvect.go","xprotocol/blockheader.go","xprotocol/message.go"],[("Encode/Decode","xprotocol/msg*.go"),("makeEmptyMessage","xprotocol/message.go")],None,["Encode","Decode","ReadMessage"]))
L.append(P("C20","Malformed external input is an error: no crash, hang or memory blow-up",
"Every decoder of external data (transactions, scripts, P2P messages and frames, addresses, keys, signatures, extended keys, mnemonics, RPC replies) given any byte string either returns a value or an error: it never panics, never loops, and allocates no more than a constant plus a small multiple of the input it was given (running a script: of up to Bitcoin's 10,000 bytes). Bytes the format excludes are errors; well-formed ones are values. An object whose decoding failed can still be used safely.",
["inputs"],"arbitrary byte strings: truncations, bit flips, huge declared counts and lengths, empty inputs",
"Tests feed well-formed data and a few short strings.",
["xcore/transaction.go","xprotocol/*.go","xbase/*.go","xvm/*.go","xcrypto/*.go","xcore/bip32","xcore/bip39"],[("Buffer bounds check","xbase/buffer.go"),("decoders","all packages")],None,["all decoders"]))
L.append(P("C21","Key encodings and curve arithmetic are the secp256k1 group",
"For every private key the public key is its multiple of the generator; compressed and uncompressed encodings decode back to the same point and only points on the curve with a valid prefix and length decode. Point addition (doubling, inverses and infinity included), scalar multiplication and key addition obey the group law for all scalars 1..N-1: (a+b)G = aG + bG and a(bG) = (ab)G, with private keys always encoded as 32 bytes.",
["inputs"],"all scalars incl. 0, 1, n-1, n, short and long encodings; all pairs of points incl. equal, opposite and infinity; all encodings with any prefix",
"Tests check a few multiples and one addition.",
["xcrypto/secp256k1/*.go","xcrypto/pubkey.go","xcrypto/prvkey.go"],[("Add/Double/ScalarMult","xcrypto/secp256k1/secp256k1.go"),("PubKeyFromBytes/Serialize*","xcrypto/pubkey.go"),("SecMarshal/SecUnmarshal","xcrypto/secp256k1/sec.go")],None,["PubKey.Serialize*","PubKey.Add","PrvKey.Add"]))
L.append(P("C22","Operations never modify the caller's data or what they returned earlier",
"Signing, verifying, hashing, encoding, building and protocol calls leave every byte slice, key, number and transaction passed to them unchanged (apart from the object whose documented purpose is to change), even when a slice has spare capacity. What a call returned does not change when the caller later reuses the same object, and what decoding, hashing (Merkle trees included), signing, key operations and serialising return (and the keys they make) shares no memory with the bytes they were given or with each other, so the caller may overwrite either; repeating a call with the same arguments gives the same result. (Fields that callers hand over to be stored, such as a new input's hash, and the display-only TxIn.SignatureHash are not covered.)",
["histories","inputs"],"all sequences of calls on shared buffers, keys, engines, builders and parties; slices with spare capacity; repeated calls",
"Tests use fresh values for every call.",
["xvm/scriptbuilder.go","xbase/bech32.go","xcore/transaction.go","xcrypto/schnorr/schnorr.go","xcrypto/mpc_schnorr.go"],[("append on caller slices, shared big.Int receivers","xvm, xbase, xcore, xcrypto")],None,["arguments before and after each call"]))
L.append(P("C23","The RPC client returns what the server sent or an error",
"For every reply the client returns exactly the values in the result (numbers, hashes, blocks with every field) or an error; a server-side error, HTTP failure, mismatched, null or malformed result is always surfaced as an error and never as a zero value or a crash (fields the server leaves out read as zero; a reply without an id may be accepted). Every request carries the method, positional parameters and basic-auth credentials given.",
["inputs","fault_sequences"],"all methods, all field values, HTTP statuses, error objects, truncated and malformed bodies, repeated and concurrent calls",
"A mock server returns one canned reply per method.",
["xrpc/client.go","xrpc/method.go","xrpc/models.go"],[("Client.call","xrpc/client.go"),("methods","xrpc/method.go")],None,["Client methods","requests seen by a server"]))
L.append(P("C24","Binary and text codecs are exact inverses and detect corruption",
"Fixed-width integers, variable-length integers, byte strings and text written to a buffer are laid out little endian in minimal varint form and read back equal, in any sequence, and a read past the end is an error that consumes nothing. Base58 and base58check, bech32 and segwit programs decode what they encode, preserve leading zeros and case rules, and reject invalid characters, lengths, padding and any corrupted checksum. Hash ids reverse to and from text, and the SHA-256, RIPEMD-160, HMAC-SHA512 and PBKDF2 helpers give the standard digests.",
["inputs","histories"],"all sequences of reads and writes, all integers, all byte strings, all strings over and outside the alphabets, every single-character corruption",
"Tests contain a few vectors per codec.",
["xbase/*.go","xcrypto/hash.go","xcrypto/ripemd160/*.go","xcrypto/pbkdf2/pbkdf2.go"],[("Buffer","xbase/buffer.go"),("Base58*","xbase/base58.go"),("Bech32*/Witness*","xbase/bech32.go, xbase/witness.go")],[("seek/length/data","buffer cursor","xbase/buffer.go")],["Buffer reads","encoders and decoders"]))
L.append(P("C25","Concurrent use of independent objects gives the sequential results",
"Signing, verifying, deriving, encoding, script execution and message handling from many goroutines at once, each on its own objects but sharing keys, networks, word lists and error tables that nobody changes meanwhile, give exactly the results the same calls give one after another; no call observes another's state.",
["schedules"],"all interleavings of calls from many goroutines over shared read-only keys and package-level tables",
"Tests run sequentially apart from t.Parallel on unrelated cases.",
["xcore","xcrypto","xvm","xprotocol","xbase"],[("absence of mutable package state","package-level variables in xvm/opcode.go, xcore/bip39, xcrypto/secp256k1")],None,["results per goroutine"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in L))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in L: jsonschema.validate(d,s)
print(len(L))
