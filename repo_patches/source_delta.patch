From 9c5ebe264dad91685101e42e2e4ef92f123ed26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 01/69] fix: scripts must close their own conditionals, engine
 runs start from a clean state

---
 xvm/engine.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..c710427 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -82,12 +82,14 @@ func (vm *Engine) Step() (bool, error) {
 
 // Execute -- execute the scripts.
 func (vm *Engine) Execute(program []byte) error {
+	vm.reset()
 	return vm.execute(program, true)
 }
 
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	// Unlocking.
+	vm.reset()
 	if err := vm.execute(unlocking, false); err != nil {
 		return err
 	}
@@ -95,7 +97,9 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 
 	// Reset.
 	vm.reset()
-	script := append(unlocking, locking...)
+	script := make([]byte, 0, len(unlocking)+len(locking))
+	script = append(script, unlocking...)
+	script = append(script, locking...)
 	if err := vm.execute(script, true); err != nil {
 		return err
 	}
@@ -156,6 +160,11 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		vm.lastOp = vm.instruction.op.name
 	}
 
+	// Conditionals must be closed in the script which opened them.
+	if len(vm.cstack) != 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "unbalanced.conditional.at.end.of.script.execution")
+	}
+
 	if final {
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
@@ -184,5 +193,6 @@ func (vm *Engine) branchShouldSkip() bool {
 
 func (vm *Engine) reset() {
 	vm.pc = 0
-	vm.dstack.Clean()
+	vm.cstack = nil
+	vm.dstack = NewStack()
 }
-- 
2.43.0


From b0faa688d29f403030de8cdd4064862d9fff4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 02/69] fix: only a pay-to-script-hash locking script runs the
 last unlocking item as a script

---
 xvm/engine.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index c710427..f6444be 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -105,7 +105,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	}
 
 	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	if isPayToScriptHash(locking) {
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -135,6 +135,14 @@ func (vm *Engine) PrintTrace() {
 	w.Flush()
 }
 
+// isPayToScriptHash -- returns whether the locking script is OP_HASH160 <20 bytes> OP_EQUAL.
+func isPayToScriptHash(locking []byte) bool {
+	return len(locking) == 23 &&
+		locking[0] == OP_HASH160 &&
+		locking[1] == OP_DATA_20 &&
+		locking[22] == OP_EQUAL
+}
+
 func (vm *Engine) execute(program []byte, final bool) error {
 	vm.reader = NewScriptReader(program)
 	for {
-- 
2.43.0


From 5b6e91c634b289c9d0a0fad12e197ac7e2638dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 03/69] fix: CHECKMULTISIG reports bad counts and missing
 callbacks, and empty signatures match no key

---
 xvm/instruction_crypto.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..422aa6c 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -74,12 +74,22 @@ func opCheckSigVerify(vm *Engine) error {
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > vm.dstack.Depth() {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:number.of.pubkeys[%v].invalid", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +105,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 || m > vm.dstack.Depth() {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:number.of.signatures[%v].invalid", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
@@ -121,17 +134,19 @@ func opCheckMultiSig(vm *Engine) error {
 	// Signature verify.
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
-		sig := signatures[sigIdx]
-		hashType := sig[len(sig)-1]
-		sigDER := sig[:len(sig)-1]
-
-		hash, err := vm.sigHasher(hashType)
-		if err != nil {
-			return err
-		}
-
-		if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
-			sigIdx++
+		// The empty signature matches no key.
+		if sig := signatures[sigIdx]; len(sig) > 0 {
+			hashType := sig[len(sig)-1]
+			sigDER := sig[:len(sig)-1]
+
+			hash, err := vm.sigHasher(hashType)
+			if err != nil {
+				return err
+			}
+
+			if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
+				sigIdx++
+			}
 		}
 		pubKeyIdx++
 		if (n - pubKeyIdx) < (m - sigIdx) {
-- 
2.43.0


From 350ea8f32087847a1ee6ba6192ea0209ffd14604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 04/69] fix: OP_1NEGATE, which the script builder emits, can be
 parsed and executed

---
 xvm/instruction.go          | 1 +
 xvm/instruction_pushdata.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..d63076e 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -14,6 +14,11 @@ func opPushData(vm *Engine) error {
 // opN --
 // a common handler for the small integer data push opcodes.
 // It pushes the numeric value the opcode represents (which will be from 1 to 16) onto the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(ScriptNum(-1))
+	return nil
+}
+
 func opN(vm *Engine) error {
 	vm.dstack.PushInt(ScriptNum((vm.instruction.op.value - (OP_1 - 1))))
 	return nil
-- 
2.43.0


From 73b74e405db55f5c317e5ef54979e623e9e64ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 05/69] fix: a script handed out by ScriptBuilder no longer
 changes when the builder is reused

---
 xvm/scriptbuilder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xvm/scriptbuilder.go b/xvm/scriptbuilder.go
index 5eb3531..c5ab440 100644
--- a/xvm/scriptbuilder.go
+++ b/xvm/scriptbuilder.go
@@ -120,7 +120,10 @@ func (b *ScriptBuilder) Reset() *ScriptBuilder {
 // When any errors occurred while building the script,
 // the script will be returned up the point of the first error along with the error.
 func (b *ScriptBuilder) Script() ([]byte, error) {
-	return b.buffer.Bytes(), b.err
+	buf := b.buffer.Bytes()
+	script := make([]byte, len(buf))
+	copy(script, buf)
+	return script, b.err
 }
 
 // Hash160 -- returns the hash160 of the script bytes.
-- 
2.43.0


From 10ff45ce8a1e21d28ae3c210744c7a32d56a74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 06/69] fix: encoding the smallest 64-bit script number does
 not panic

---
 xvm/scriptnum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xvm/scriptnum.go b/xvm/scriptnum.go
index 3ee6217..a292c7d 100644
--- a/xvm/scriptnum.go
+++ b/xvm/scriptnum.go
@@ -38,9 +38,9 @@ func (n ScriptNum) Bytes() []byte {
 		return nil
 	}
 	neg := n < 0
-	absvalue := n
+	absvalue := uint64(n)
 	if neg {
-		absvalue = -n
+		absvalue = -absvalue
 	}
 
 	// Encode to little endian.
-- 
2.43.0


From c49138673bc8ce619bbebd3ecc22c7c469afd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 07/69] fix: buffer reads with a negative or overflowing length
 are errors that consume nothing

---
 xbase/buffer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..ec533dc 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > (b.length-b.seek) {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
@@ -145,6 +145,7 @@ func (b *Buffer) WriteVarInt(v uint64) {
 // ReadVarInt -- read variable int from the buffer.
 func (b *Buffer) ReadVarInt() (uint64, error) {
 	var v uint64
+	seek := b.seek
 	first, err := b.ReadU8()
 	if err != nil {
 		return 0, err
@@ -154,18 +155,21 @@ func (b *Buffer) ReadVarInt() (uint64, error) {
 	case 0xfd:
 		v1, err := b.ReadU16()
 		if err != nil {
+			b.seek = seek
 			return 0, err
 		}
 		v = uint64(v1)
 	case 0xfe:
 		v1, err := b.ReadU32()
 		if err != nil {
+			b.seek = seek
 			return 0, err
 		}
 		v = uint64(v1)
 	case 0xff:
 		v1, err := b.ReadU64()
 		if err != nil {
+			b.seek = seek
 			return 0, err
 		}
 		v = v1
@@ -228,10 +232,16 @@ func (b *Buffer) WriteVarBytes(v []byte) {
 
 // ReadVarBytes -- read variable length bytes from the buffer.
 func (b *Buffer) ReadVarBytes() ([]byte, error) {
+	seek := b.seek
 	len, err := b.ReadVarInt()
 	if err != nil {
 		return nil, err
 	}
+	if len > uint64(b.length-b.seek) {
+		err = fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, len, b.length)
+		b.seek = seek
+		return nil, err
+	}
 	return b.ReadBytes(int(len))
 }
 
-- 
2.43.0


From 8cfbf246673acb2de5b0aec9db854804134465d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 08/69] fix: writing to a buffer never overwrites the data it
 was created from or has handed out

---
 xbase/buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index ec533dc..6379b2a 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -24,7 +24,7 @@ func NewBuffer() *Buffer {
 // NewBufferReader -- creates a new buffer with data initialize.
 func NewBufferReader(data []byte) *Buffer {
 	return &Buffer{
-		data:   data,
+		data:   data[:len(data):len(data)],
 		length: len(data),
 	}
 }
@@ -291,5 +291,5 @@ func (b *Buffer) End() bool {
 func (b *Buffer) Reset() {
 	b.seek = 0
 	b.length = 0
-	b.data = b.data[0:0]
+	b.data = nil
 }
-- 
2.43.0


From fb31880c72cbd8510ac66ab186c978e3cdd468e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 09/69] fix: Bech32Encode does not write the checksum into the
 caller's data

---
 xbase/bech32.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..757d4f0 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,9 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := make([]byte, 0, len(data)+len(checksum))
+	combined = append(combined, data...)
+	combined = append(combined, checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From 0c53c5055c3b7c53e98100eea93aa1230c4d4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 10/69] fix: segwit programs with an invalid version or length
 (or no version) are refused

---
 xbase/witness.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..b729677 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -9,21 +9,44 @@ import (
 	"fmt"
 )
 
+// checkWitnessProgram -- checks the version and the program length against BIP173.
+func checkWitnessProgram(version byte, program []byte) error {
+	if version > 16 {
+		return fmt.Errorf("invalid witness version %d", version)
+	}
+	if len(program) < 2 || len(program) > 40 {
+		return fmt.Errorf("invalid witness program length %d", len(program))
+	}
+	if version == 0 && len(program) != 20 && len(program) != 32 {
+		return fmt.Errorf("invalid witness v0 program length %d", len(program))
+	}
+	return nil
+}
+
 // WitnessDecode -- decodes the segwit address to hrp, version and pubkeyscript.
 func WitnessDecode(addr string) (string, byte, []byte, error) {
 	hrp, data, err := Bech32Decode(addr)
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(data) < 1 {
+		return "", 0, nil, fmt.Errorf("missing witness version")
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if err := checkWitnessProgram(data[0], res); err != nil {
+		return "", 0, nil, err
+	}
 	return hrp, data[0], res, nil
 }
 
 // WitnessEncode -- encodes to segwit address.
 func WitnessEncode(hrp string, version byte, program []byte) (string, error) {
+	if err := checkWitnessProgram(version, program); err != nil {
+		return "", err
+	}
 	data, err := convertBits(program, 8, 5, true)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 0f9aa92453601f525a8bf564f6935f55212a080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 11/69] fix: Bech32Encode refuses what Bech32Decode would not
 take back

---
 xbase/bech32.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 757d4f0..114f7b1 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -77,6 +77,16 @@ func Bech32Decode(bech string) (string, []byte, error) {
 // encodes a byte slice into a bech32 string with the human-readable part hrb.
 // Note that the bytes must each encode 5 bits (base32).
 func Bech32Encode(hrp string, data []byte) (string, error) {
+	// Only strings that Bech32Decode takes back are produced.
+	if len(hrp) < 1 || len(hrp)+1+len(data)+6 > 90 {
+		return "", fmt.Errorf("invalid bech32 hrp length %d or data length %d", len(hrp), len(data))
+	}
+	for i := 0; i < len(hrp); i++ {
+		if hrp[i] < 33 || hrp[i] > 126 || (hrp[i] >= 'A' && hrp[i] <= 'Z') {
+			return "", fmt.Errorf("invalid character in hrp: '%c'", hrp[i])
+		}
+	}
+
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
 	combined := make([]byte, 0, len(data)+len(checksum))
-- 
2.43.0


From 3e0b1e3b7bcf60c531452a463b6fd0abe62f198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 12/69] fix: a segwit address decodes only with exactly the
 network's human-readable part

---
 xcore/address.go | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/xcore/address.go b/xcore/address.go
index 16cf908..3042ad7 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -31,27 +31,24 @@ type Address interface {
 
 // DecodeAddress -- decode the string address and returns the Address with a known address type.
 func DecodeAddress(addr string, net *network.Network) (Address, error) {
-	// Bech32 encoded segwit addresses start with a human-readable part (hrp) followed by '1'(bc or tb)
-	oneIndex := strings.IndexByte(addr, '1')
-	if oneIndex == 2 {
-		prefix := addr[:oneIndex]
-		if prefix == net.Bech32HRPSegwit {
-			_, version, witnessProgram, err := xbase.WitnessDecode(addr)
-			if err != nil {
-				return nil, err
-			}
-			switch version {
-			case 0x00:
-				switch len(witnessProgram) {
-				case 20:
-					return NewPayToWitnessV0PubKeyHashAddress(witnessProgram), nil
-				case 32:
-					return NewPayToWitnessV0ScriptHashAddress(witnessProgram), nil
-				}
-			default:
-				return nil, xerror.NewError(Errors, ER_ADDRESS_WITNESS_VERSION_UNSUPPORTED, version)
-			}
+	// Bech32 encoded segwit addresses start with the human-readable part (hrp)
+	// of the network; the last '1' separates it from the data.
+	sep := strings.LastIndexByte(addr, '1')
+	if sep > 0 && strings.ToLower(addr[:sep]) == net.Bech32HRPSegwit {
+		_, version, witnessProgram, err := xbase.WitnessDecode(addr)
+		if err != nil {
+			return nil, err
 		}
+		if version != 0x00 {
+			return nil, xerror.NewError(Errors, ER_ADDRESS_WITNESS_VERSION_UNSUPPORTED, version)
+		}
+		switch len(witnessProgram) {
+		case 20:
+			return NewPayToWitnessV0PubKeyHashAddress(witnessProgram), nil
+		case 32:
+			return NewPayToWitnessV0ScriptHashAddress(witnessProgram), nil
+		}
+		return nil, xerror.NewError(Errors, ER_ADDRESS_SIZE_MALFORMED, len(witnessProgram))
 	}
 
 	decoded, netID, err := xbase.Base58CheckDecode(addr)
-- 
2.43.0


From 466c64daaf3961ff733ca196007fe16c86e8e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 13/69] fix: legacy signature hashes follow NONE, SINGLE and
 ANYONECANPAY

---
 xcore/transaction.go | 60 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..e4f8dc6 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -279,29 +279,63 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
+	baseType := hashType & sigHashMask
+
+	// The signature hash of an index out of range, also of SIGHASH_SINGLE
+	// without a matching output, is the number one.
+	if idx < 0 || idx >= len(tx.inputs) || (baseType == SigHashSingle && idx >= len(tx.outputs)) {
+		hash := make([]byte, hashSize)
+		hash[0] = 0x01
+		return hash
+	}
+
 	buffer := xbase.NewBuffer()
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
+
+	// inputs
+	if (hashType & SigHashAnyOneCanPay) != 0 {
+		buffer.WriteVarInt(1)
+	} else {
 		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
-			buffer.WriteBytes(in.Hash)
-			buffer.WriteU32(in.Index)
-			if i == idx {
-				if in.RedeemScript != nil {
-					buffer.WriteVarBytes(in.RedeemScript)
-				} else {
-					script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-					buffer.WriteVarBytes(script)
-				}
+	}
+	for i, in := range tx.inputs {
+		if i != idx && (hashType&SigHashAnyOneCanPay) != 0 {
+			continue
+		}
+		buffer.WriteBytes(in.Hash)
+		buffer.WriteU32(in.Index)
+		if i == idx {
+			if in.RedeemScript != nil {
+				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
-				buffer.WriteVarBytes(nil)
+				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
+				buffer.WriteVarBytes(script)
 			}
+		} else {
+			buffer.WriteVarBytes(nil)
+		}
+		if i != idx && (baseType == SigHashNone || baseType == SigHashSingle) {
+			buffer.WriteU32(0)
+		} else {
 			buffer.WriteU32(in.Sequence)
 		}
+	}
 
+	// outputs
+	switch baseType {
+	case SigHashNone:
+		buffer.WriteVarInt(0)
+	case SigHashSingle:
+		buffer.WriteVarInt(uint64(idx + 1))
+		for i := 0; i < idx; i++ {
+			buffer.WriteU64(0xffffffffffffffff)
+			buffer.WriteVarBytes(nil)
+		}
+		buffer.WriteU64(tx.outputs[idx].Value)
+		buffer.WriteVarBytes(tx.outputs[idx].Script)
+	default:
 		buffer.WriteVarInt(uint64(len(tx.outputs)))
 		for _, out := range tx.outputs {
 			buffer.WriteU64(out.Value)
-- 
2.43.0


From a551d711c042e561955ed93dd4719e66ee194366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 14/69] fix: witness signature hashes depend on the transaction
 and the hash type only, as in BIP143

---
 xcore/transaction.go | 87 +++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 49 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index e4f8dc6..459980a 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -111,13 +111,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -351,67 +348,59 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 
 // WitnessV0SignatureHash -- returns transaction witness V0 signature hash.
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
-	var zeroHash [32]byte
 	txIn := tx.inputs[idx]
+	baseType := hashType & sigHashMask
+	hashPrevouts := make([]byte, hashSize)
+	hashSequence := make([]byte, hashSize)
+	hashOutputs := make([]byte, hashSize)
 
 	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
+	// If anyone can pay is active, we write zeroes for the prev outs.
 	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash[:])
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
+	// If the sighash is anyone can pay, single, or none, write all zeroes for the
 	// hashSequence.
-	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	if (hashType&SigHashAnyOneCanPay) == 0 && baseType != SigHashSingle && baseType != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
 		}
-	} else {
-		tx.hashSequence = zeroHash[:]
-	}
-
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	}
+
+	// All the outputs, only the one with the index of the input for single(if
+	// there is one), or zeroes for none.
+	if baseType != SigHashSingle && baseType != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range tx.outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	} else if baseType == SigHashSingle && idx < len(tx.outputs) {
+		hashBuffer := xbase.NewBuffer()
+		hashBuffer.WriteU64(tx.outputs[idx].Value)
+		hashBuffer.WriteVarBytes(tx.outputs[idx].Script)
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From 219111fe85f95051c1afcf346c76a8f225d34eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 15/69] fix: signing or attaching to a missing input, without
 signatures or with a redeem script that does not match is an error that
 changes nothing

---
 xcore/script_p2pkh.go     |  5 +++++
 xcore/script_p2wpkh_v0.go |  8 ++++++++
 xcore/transaction.go      | 33 +++++++++++++++++++++++++++------
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..52b6cd3 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +58,9 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToPubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..386ff25 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -50,12 +52,18 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetWitnessUnlockingScriptBytes.error:signs.empty")
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 459980a..4b74d34 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -137,6 +137,12 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	// Sanity Check
+	inputs := len(tx.inputs)
+	if idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -204,6 +210,12 @@ func (tx *Transaction) WitnessID() string {
 
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	// Sanity Check
+	inputs := len(tx.inputs)
+	if idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
 
@@ -243,8 +255,13 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
-	txIn := tx.inputs[idx]
+	// Sanity Check
+	inputs := len(tx.inputs)
+	if idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
 
+	txIn := tx.inputs[idx]
 	// Sanity check.
 	if len(signs) > 1 && txIn.RedeemScript == nil {
 		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_REDEEM_EMPTY, idx, len(signs))
@@ -255,13 +272,17 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 		return err
 	}
 	// Raw unlocking.
-	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+	rawUnlocking, err := scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript)
+	if err != nil {
+		return err
 	}
 	// Witness unlocking.
-	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
+	witness, err := scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript)
+	if err != nil {
 		return err
 	}
+	txIn.RawUnlockingScript = rawUnlocking
+	txIn.Witness = witness
 	return nil
 }
 
@@ -410,7 +431,7 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
@@ -430,7 +451,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
-- 
2.43.0


From d0885599dbe67da2713e17ee0680c3debedd0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 16/69] fix: EmbedIdxEcdsaSignature does not write behind the
 caller's signature

---
 xcore/transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 4b74d34..e47c6fb 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -290,7 +290,9 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := make([]byte, 0, len(ecdsaSig)+1)
+	finalsig = append(finalsig, ecdsaSig...)
+	finalsig = append(finalsig, byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
-- 
2.43.0


From 1e7a70a7084fc90481cde7619ab927995bbdf817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 17/69] fix: a pay-to-witness-script-hash output is only
 spendable with the redeem script it commits to

---
 xcore/script_p2wsh_v0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..e4d58db 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -47,6 +47,11 @@ func (s *PayToWitnessV0ScriptHashScript) GetRawLockingScriptBytes() ([]byte, err
 
 // GetFinalLockingScriptBytes -- used to get the re-written locking for witness.
 func (s *PayToWitnessV0ScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byte, error) {
+	// Check sha256(redeem) == s.Hash
+	if !bytes.Equal(xcrypto.Sha256(redeem), s.hash) {
+		return nil, fmt.Errorf("PayToWitnessV0ScriptHashScript.GetFinalLockingScriptBytes.error:sha256(redeem)!=s.hash")
+	}
+
 	scriptInstance := NewPayToScriptHashScript(xcrypto.Hash160(redeem))
 	return scriptInstance.GetFinalLockingScriptBytes(redeem)
 }
-- 
2.43.0


From 25d66a28756a25ddd357a9acebe7d5000c3288c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 18/69] fix: the witness of an input, whatever its redeem
 script, is what unlocks it after deserializing

---
 xcore/script_p2wpkh_v0.go |  9 ++++++++-
 xcore/script_p2wsh_v0.go  | 16 ++++------------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 386ff25..b9da26e 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -88,8 +88,15 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	// No witness: not signed yet.
+	if len(witness) != 0 && len(witness) != 2 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.WitnessToUnlockingScriptBytes.error:witness.items[%v]", len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
-	return builder.AddData(witness[0]).AddData(witness[1]).Script()
+	for _, item := range witness {
+		builder.AddData(item)
+	}
+	return builder.Script()
 }
 
 // isWitnessV0PubKeyHash --
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index e4d58db..056cf95 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -104,19 +104,11 @@ func (s *PayToWitnessV0ScriptHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
-	l := len(witness)
-	if l > 1 {
-		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
-		if isMultiSig(instrs) {
-			builder := xvm.NewScriptBuilder()
-			for i := 0; i < l-1; i++ {
-				builder.AddData(witness[i])
-			}
-			return builder.AddData(redeem).Script()
-		}
+	builder := xvm.NewScriptBuilder()
+	for _, item := range witness {
+		builder.AddData(item)
 	}
-	return nil, nil
+	return builder.Script()
 }
 
 // isWitnessV0ScriptHash --
-- 
2.43.0


From bfd162256ba7f8411b8c247d679dc5fc6e39b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 19/69] fix: a deserialized transaction keeps its witness data
 when serialized again

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index e47c6fb..69da50d 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -480,7 +480,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if len(in.Witness) > 0 {
 			return true
 		}
 	}
-- 
2.43.0


From fbbcb3018bd7d75a37baeb04f3a4707281cd9c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 20/69] fix: Deserialize reads what Serialize writes for
 transactions without witness data

---
 xcore/transaction.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 69da50d..52d011a 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -552,7 +552,8 @@ func (tx *Transaction) Deserialize(data []byte) error {
 		return err
 	}
 	if marker != witnessMarker {
-		return fmt.Errorf("witness.marker.error.want:%x.got:%x", witnessMarker, marker)
+		// Serialize writes no marker when there is no witness data.
+		return tx.DeserializeNoWitness(data)
 	}
 
 	var flag byte
-- 
2.43.0


From 2b986fbc25bfa425039db78f04a3514789d829e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 21/69] fix: transactions whose counts exceed the data are
 refused, and deserializing replaces all inputs and outputs

---
 xcore/transaction.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 52d011a..5b766be 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -21,6 +21,9 @@ const (
 	witnessFlag     = byte(0x01) // Witness Flag field, 0x01.
 	defaultSequence = 0xffffffff // Default sequence.
 
+	minTxInSize  = hashSize + 4 + 1 + 4 // Smallest serialized input.
+	minTxOutSize = 8 + 1                // Smallest serialized output.
+
 	// witnessScaleFactor determines the level of "discount" witness data
 	// receives compared to "base" data. A scale factor of 4, denotes that
 	// witness data is 1/4 as cheap as regular non-witness data.
@@ -569,6 +572,10 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if ins > uint64(buffer.Len()-buffer.Seek())/minTxInSize {
+		return fmt.Errorf("inputs.count.error:%v", ins)
+	}
+	tx.inputs = nil
 	if ins > 0 {
 		tx.inputs = make([]*TxIn, ins)
 		for i := 0; i < int(ins); i++ {
@@ -594,6 +601,10 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if outs > uint64(buffer.Len()-buffer.Seek())/minTxOutSize {
+		return fmt.Errorf("outputs.count.error:%v", outs)
+	}
+	tx.outputs = nil
 	if outs > 0 {
 		tx.outputs = make([]*TxOut, outs)
 		for i := 0; i < int(outs); i++ {
@@ -617,6 +628,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				return err
 			}
 
+			if witCount > uint64(buffer.Len()-buffer.Seek()) {
+				return fmt.Errorf("witness.count.error:%v", witCount)
+			}
 			in.Witness = make([][]byte, witCount)
 			for j := uint64(0); j < witCount; j++ {
 				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
@@ -681,6 +695,10 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if ins > uint64(buffer.Len()-buffer.Seek())/minTxInSize {
+		return fmt.Errorf("inputs.count.error:%v", ins)
+	}
+	tx.inputs = nil
 	if ins > 0 {
 		tx.inputs = make([]*TxIn, ins)
 		for i := 0; i < int(ins); i++ {
@@ -706,6 +724,10 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	if outs > uint64(buffer.Len()-buffer.Seek())/minTxOutSize {
+		return fmt.Errorf("outputs.count.error:%v", outs)
+	}
+	tx.outputs = nil
 	if outs > 0 {
 		tx.outputs = make([]*TxOut, outs)
 		for i := 0; i < int(outs); i++ {
-- 
2.43.0


From 1dc3c9830593f985b9ab7180d01f38ef85763ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 22/69] fix: transaction sizes are those of the serialized
 bytes, virtual size rounded up

---
 xcore/transaction.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 5b766be..bc52ac0 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -815,8 +815,12 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		if in.HasWitness() {
+			size += xbase.VarIntSerializeSize(0)
+		} else {
+			size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
+			size += len(in.RawUnlockingScript)
+		}
 		size += 4
 	}
 
@@ -838,6 +842,8 @@ func (tx *Transaction) WitnessSize() int {
 	size := 0
 
 	if tx.HasWitness() {
+		// Marker and flag.
+		size += 2
 		for _, in := range tx.inputs {
 			wits := in.Witness
 			size += xbase.VarIntSerializeSize(uint64(len(wits)))
@@ -859,7 +865,7 @@ func (tx *Transaction) Weight() int {
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
-- 
2.43.0


From e4476a229e092df4ae06bec779045d4b4c3ace7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 23/69] fix: printing a transaction whose segwit input is not
 signed yet does not panic

---
 xcore/transaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index bc52ac0..c0006cd 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -909,7 +909,9 @@ func (tx *Transaction) ToString() string {
 		lines = append(lines, fmt.Sprintf("      \"script\":\t\"%s\",", xvm.DisasmString(in.RawUnlockingScript)))
 		lines = append(lines, fmt.Sprintf("      \"sighash\":\t\"%x\",", in.SignatureHash))
 		if in.HasWitness() {
-			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			if len(in.Witness) > 0 {
+				lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			}
 			lines = append(lines, fmt.Sprintf("      \"scriptcode\":\t\"%x\"", in.WitnessScriptCode))
 		}
 		if i == (len(tx.inputs) - 1) {
-- 
2.43.0


From 1a3636fba9f37bcc63f30a1ff010e3376430f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 24/69] fix: only a pay-to-script-hash input signs its redeem
 script, any other signs its locking script

---
 xcore/script_p2sh.go | 7 +++++++
 xcore/transaction.go | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcore/script_p2sh.go b/xcore/script_p2sh.go
index 3a39214..497ef23 100644
--- a/xcore/script_p2sh.go
+++ b/xcore/script_p2sh.go
@@ -92,3 +92,10 @@ func isScriptHash(instrs []xvm.Instruction) bool {
 		instrs[1].OpCode() == xvm.OP_DATA_20 &&
 		instrs[2].OpCode() == xvm.OP_EQUAL
 }
+
+// paysToScriptHash --
+// returns true if the locking script is a pay-to-script-hash, and false otherwise.
+func paysToScriptHash(locking []byte) bool {
+	instrs, err := xvm.NewScriptReader(locking).AllInstructions()
+	return err == nil && isScriptHash(instrs)
+}
diff --git a/xcore/transaction.go b/xcore/transaction.go
index c0006cd..4375146 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -330,7 +330,7 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 		buffer.WriteBytes(in.Hash)
 		buffer.WriteU32(in.Index)
 		if i == idx {
-			if in.RedeemScript != nil {
+			if in.RedeemScript != nil && paysToScriptHash(in.FinalLockingScript) {
 				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
 				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-- 
2.43.0


From 159415923b00f0264ce49cee7e7ba003ae5817ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 25/69] fix: the estimated fee is computed exactly

---
 xcore/estimate.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xcore/estimate.go b/xcore/estimate.go
index bc27edf..b65f371 100644
--- a/xcore/estimate.go
+++ b/xcore/estimate.go
@@ -6,6 +6,9 @@
 package xcore
 
 import (
+	"math"
+	"math/bits"
+
 	"github.com/keyfuse/tokucore/xbase"
 )
 
@@ -127,9 +130,16 @@ func EstimateNormalSize(ins int, outs int) int64 {
 
 // EstimateFees -- estimate the fee.
 func EstimateFees(estimateSize int64, relayFeePerKb int64) int64 {
-	fees := 0.0
-	if relayFeePerKb > 0 {
-		fees = (float64(relayFeePerKb) / float64(1000)) * float64(estimateSize)
+	if relayFeePerKb <= 0 || estimateSize <= 0 {
+		return 0
+	}
+	hi, lo := bits.Mul64(uint64(relayFeePerKb), uint64(estimateSize))
+	if hi >= 1000 {
+		return math.MaxInt64
+	}
+	fees, _ := bits.Div64(hi, lo, 1000)
+	if fees > math.MaxInt64 {
+		return math.MaxInt64
 	}
 	return int64(fees)
 }
-- 
2.43.0


From e8019fb90a28fd531a1e857aee28d4ef5e519eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 26/69] fix: the transaction builder adds up amounts and fees
 without overflow

---
 xcore/transactionbuilder.go | 38 ++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..ba731f7 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -7,6 +7,8 @@ package xcore
 
 import (
 	"encoding/hex"
+	"fmt"
+	"math/big"
 
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
@@ -50,7 +52,7 @@ type TransactionBuilder struct {
 	idx           int
 	sign          bool
 	maxFees       int64
-	sendFees      int64
+	sendFees      uint64
 	relayFeePerKb int64
 	lockTime      uint32
 	change        *change
@@ -118,7 +120,7 @@ func (b *TransactionBuilder) SetChange(addr Address) *TransactionBuilder {
 
 // SendFees -- set the amount fee of this send.
 func (b *TransactionBuilder) SendFees(fees uint64) *TransactionBuilder {
-	b.sendFees = int64(fees)
+	b.sendFees = fees
 	return b
 }
 
@@ -163,8 +165,6 @@ func (b *TransactionBuilder) Then() *TransactionBuilder {
 
 // BuildTransaction -- build the transaction.
 func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
-	var totalIn int64
-	var totalOut int64
 	var estimateSize int64
 	var estimateFees int64
 
@@ -173,6 +173,10 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	var txouts []*TxOut
 	var changeTxOut *TxOut
 
+	// Sums of 64-bit amounts.
+	totalIn := new(big.Int)
+	totalOut := new(big.Int)
+
 	for _, group := range b.groups {
 		grpinput := group.coin
 		grpoutput := group.output
@@ -195,7 +199,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					return nil, err
 				}
 				txins = append(txins, txin)
-				totalIn += int64(grpinput.value)
+				totalIn.Add(totalIn, new(big.Int).SetUint64(grpinput.value))
 
 				// inputs.
 				input := &input{
@@ -228,7 +232,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
-				totalOut += int64(grpoutput.value)
+				totalOut.Add(totalOut, new(big.Int).SetUint64(grpoutput.value))
 			}
 		}
 	}
@@ -255,32 +259,36 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 
 		estimateSize = EstimateSize(txins, txouts) + int64(pushDataSize)
 		estimateFees = EstimateFees(estimateSize, b.relayFeePerKb)
-		fees = estimateFees
+		fees = uint64(estimateFees)
 	}
-	if fees > b.maxFees {
+	if b.maxFees < 0 || fees > uint64(b.maxFees) {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, fees, b.maxFees)
 	}
 
 	// Check amount.
-	if totalOut > totalIn {
+	if totalOut.Cmp(totalIn) > 0 {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR, totalOut, totalIn)
 	}
-	changeAmount := totalIn - totalOut - fees
-	if changeAmount < 0 {
-		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, fees, (totalIn - totalOut))
+	remainder := new(big.Int).Sub(totalIn, totalOut)
+	changeAmount := new(big.Int).Sub(remainder, new(big.Int).SetUint64(fees))
+	if changeAmount.Sign() < 0 {
+		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, fees, remainder)
 	}
 
 	// Change.
 	{
-		if changeAmount > 0 {
-			if b.change == nil {
+		if changeAmount.Sign() > 0 {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
+			if !changeAmount.IsUint64() {
+				return nil, fmt.Errorf("transaction.builder.change[%v].too.big", changeAmount)
+			}
 			script, err := b.change.addr.LockingScript()
 			if err != nil {
 				return nil, err
 			}
-			changeTxOut = NewTxOut(uint64(changeAmount), script)
+			changeTxOut = NewTxOut(changeAmount.Uint64(), script)
 		}
 	}
 
-- 
2.43.0


From 86bf13e82b9f63fe4f49e2db4985c31fc2aec264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 27/69] fix: only points of the curve with a valid prefix and
 length decode

---
 xcrypto/pubkey.go        |  4 ++--
 xcrypto/secp256k1/sec.go | 13 ++++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/xcrypto/pubkey.go b/xcrypto/pubkey.go
index 622da2a..9b55593 100644
--- a/xcrypto/pubkey.go
+++ b/xcrypto/pubkey.go
@@ -49,8 +49,8 @@ func PubKeyFromBytes(key []byte) (*PubKey, error) {
 	switch pkLen {
 	case pubKeyBytesLenUncompressed:
 		// Format invalid.
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
-			return nil, fmt.Errorf("pubkey.format.invalid:%v", format)
+		if format != pubkeyHybrid && key[0] != pubkeyUncompressed {
+			return nil, fmt.Errorf("pubkey.format.invalid:%v", key[0])
 		}
 
 		pubkey.X = new(big.Int).SetBytes(key[1:33])
diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 77ee42f..dc607ad 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -36,17 +36,24 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 	X := big.NewInt(0)
 	curveParams := curve.Params()
 
-	// Check format.
-	if (data[0] &^ 1) != 2 {
+	// Check length and format.
+	byteLen := (curveParams.BitSize + 7) >> 3
+	if len(data) != 1+byteLen || (data[0]&^1) != 2 {
 		return nil, nil
 	}
 
 	// y^2 = x^3 + b
 	X.SetBytes(data[1:])
+	if X.Cmp(curveParams.P) >= 0 {
+		return nil, nil
+	}
 	ySquared := big.NewInt(0)
 	ySquared.Exp(X, three, nil)
 	ySquared.Add(ySquared, curveParams.B)
-	Y.ModSqrt(ySquared, curveParams.P)
+	if Y.ModSqrt(ySquared, curveParams.P) == nil {
+		// No point has this x.
+		return nil, nil
+	}
 
 	// Y is odd or even.
 	if Y.Bit(0) != uint(data[0]&1) {
-- 
2.43.0


From 0aac37dcd0c84c0b3e5abd594c2bf578e431c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 28/69] fix: multiples of the point at infinity are the point
 at infinity

---
 xcrypto/secp256k1/secp256k1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/secp256k1/secp256k1.go b/xcrypto/secp256k1/secp256k1.go
index 3dc49ed..696537b 100644
--- a/xcrypto/secp256k1/secp256k1.go
+++ b/xcrypto/secp256k1/secp256k1.go
@@ -241,7 +241,7 @@ func (curve *secp256k1Curve) doubleJacobian(x, y, z *big.Int) (*big.Int, *big.In
 
 // ScalarMult -- returns k*(Bx,By) where k is a number in big-endian form.
 func (curve *secp256k1Curve) ScalarMult(Bx, By *big.Int, k []byte) (*big.Int, *big.Int) {
-	Bz := new(big.Int).SetInt64(1)
+	Bz := zForAffine(Bx, By)
 	x, y, z := new(big.Int), new(big.Int), new(big.Int)
 
 	for _, byte := range k {
-- 
2.43.0


From 6ea2ae2c8009964798e549f681ca2cb91513f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 29/69] fix: ECDSA signatures with trailing data are refused

---
 xcrypto/signature_ecdsa.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..4a3b90f 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"bytes"
 	"crypto/ecdsa"
 	"encoding/asn1"
 	"fmt"
@@ -36,8 +37,20 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	var parsed SignatureEcdsa
+	if _, err := asn1.Unmarshal(sign, &parsed); err != nil {
+		return err
+	}
+	// Strict DER: nothing may follow the two integers or the sequence.
+	der, err := parsed.Serialize()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, sign) {
+		return fmt.Errorf("ecdsa.signature.malformed")
+	}
+	*sig = parsed
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From 34971fb56d619e72d6c4b95a8a8d67b7e708bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 30/69] fix: Schnorr signatures of the wrong length or out of
 range are refused

---
 xcrypto/schnorr/schnorr.go   | 4 ++--
 xcrypto/signature_schnorr.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..5334ef3 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -89,7 +89,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	P := curve.Params().P
 	N := curve.Params().N
 
-	if r.Cmp(P) > 0 || s.Cmp(N) > 0 {
+	if r.Sign() < 0 || s.Sign() < 0 || r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
 
@@ -98,7 +98,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	ePx, ePy := curve.ScalarMult(pub.X, pub.Y, IntToByte(e))
 
 	// eP Inverse.
-	ePy.Sub(P, ePy)
+	ePy.Sub(P, ePy).Mod(ePy, P)
 
 	// R=sG-eP=sG+(eP inverse)
 	Rx, Ry := curve.Add(sGx, sGy, ePx, ePy)
diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..6de1dc4 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -34,6 +34,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != 64 {
+		return fmt.Errorf("schnorr.signature.size[%v].invalid", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From b5e1d6eb5a2ea2cb70b9bef3b24d1aa205b4e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 31/69] fix: the Schnorr helpers do not change the numbers and
 slices passed to them

---
 xcrypto/schnorr/schnorr.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index 5334ef3..bc7d6a4 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -65,6 +65,7 @@ func Sign(prv *ecdsa.PrivateKey, m []byte) (*big.Int, *big.Int, error) {
 	// Clean.
 	zeroSlice(d)
 	k.SetInt64(0)
+	k0.SetInt64(0)
 
 	return Rx, s, nil
 }
@@ -110,7 +111,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 
 // GetK0 -- used get k0 under schnorr BIP.
 func GetK0(m []byte, d []byte, N *big.Int) (*big.Int, error) {
-	hash := sha256.Sum256(append(d, m[:]...))
+	hash := sha256.Sum256(append(append([]byte{}, d...), m...))
 	i := new(big.Int).SetBytes(hash[:])
 	k0 := i.Mod(i, N)
 	if k0.Sign() == 0 {
@@ -125,15 +126,16 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	N := curve.Params().N
 
 	if big.Jacobi(Ry, P) == 1 {
-		return k0
+		return new(big.Int).Set(k0)
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
 func GetE(curve elliptic.Curve, m []byte, Px, Py *big.Int, rX []byte) *big.Int {
 	N := curve.Params().N
-	r := append(rX, secp256k1.SecMarshal(curve, Px, Py)...)
+	r := append([]byte{}, rX...)
+	r = append(r, secp256k1.SecMarshal(curve, Px, Py)...)
 	r = append(r, m[:]...)
 	h := sha256.Sum256(r)
 	i := new(big.Int).SetBytes(h[:])
-- 
2.43.0


From efb12e23e3c45955ac845eda871406f8e52940b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 32/69] fix: multi-party Schnorr signatures commit to the
 shared nonce point, so that they verify

---
 xcrypto/mpc_schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..b8f40eb 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,10 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
-- 
2.43.0


From fec3c6f818f05b7cad4d12ef75bf10da1bb4516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 33/69] fix: multi-party sessions keep their own copy of the
 hash to sign

---
 xcrypto/mpc_ecdsa.go   | 2 +-
 xcrypto/mpc_schnorr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 8f6cecc..2e1a140 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -65,7 +65,7 @@ func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp2
 	prv := party.prv
 	pub := prv.PubKey()
 	curve := pub.Curve
-	party.hash = hash
+	party.hash = append([]byte{}, hash...)
 
 	// Paillier key pair.
 	encpub, encprv, err := paillier.GenerateKeyPair(bitlen)
diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index b8f40eb..046d659 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -54,7 +54,7 @@ func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 	curve := pub.Curve
 	d := schnorr.IntToByte(prv.D)
 
-	party.hash = hash
+	party.hash = append([]byte{}, hash...)
 	// Scalar R.
 	// k' = int(hash(bytes(d) || m)) mod n
 	k0, err := schnorr.GetK0(hash, d, N)
-- 
2.43.0


From 77bed9fea29aaafe5112a4f7c70f099f2a3b112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 34/69] fix: merkle roots of lists with padding pairs and of
 the empty list

---
 xcrypto/merkle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..7fd074d 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -41,6 +41,9 @@ type Merkle struct {
 // If the right is nil(the size is not power of 2), hashed with itself.
 func NewMerkle(hashs [][]byte) *Merkle {
 	n := len(hashs)
+	if n == 0 {
+		return &Merkle{levels: [][][]byte{{nil}}}
+	}
 	depth := int(math.Ceil(math.Log2(float64(n))))
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
@@ -55,7 +58,9 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
-			if right == nil {
+			if left == nil {
+				break
+			} else if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
 			} else {
-- 
2.43.0


From ec73d655b472eb8b9c327e698589fb28bd72ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 35/69] fix: merkle proofs are neither made for the padding nor
 accepted for overlong hashes

---
 xcrypto/merkle.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 7fd074d..e2dbf47 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -92,7 +92,7 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 	index := -1
 	depth := len(m.levels) - 1
 	for i, le := range m.levels[depth] {
-		if bytes.Equal(leaf, le) {
+		if le != nil && bytes.Equal(leaf, le) {
 			index = i
 			break
 		}
@@ -128,6 +128,10 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 func (m *Merkle) Verify(leaf []byte, root []byte, path []Node) bool {
 	hash := leaf
 	for _, node := range path {
+		// Only hashes are hashed, nothing longer.
+		if len(hash) > merkleHashSize || len(node.Hash) > merkleHashSize {
+			return false
+		}
 		switch node.Position {
 		case positionLeft:
 			hash = merkleNode(node.Hash, hash)
-- 
2.43.0


From 3a1f3ab6c7bed75bc4b7b00067d23f8749a287f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 36/69] fix: Paillier keys are made of two different primes

---
 xcrypto/paillier/paillier.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 07f964c..b6957bc 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -34,6 +34,10 @@ type PrvKey struct {
 
 // GenerateKeyPair -- returns a Paillier key pair.
 func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
+	// With fewer bits there are no two different primes to choose.
+	if bitlen < 10 {
+		return nil, nil, fmt.Errorf("bitlen[%v].invalid", bitlen)
+	}
 	p, err := getPrimer(bitlen / 2)
 	if err != nil {
 		return nil, nil, err
@@ -42,6 +46,11 @@ func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	for p.Cmp(q) == 0 {
+		if q, err = getPrimer(bitlen / 2); err != nil {
+			return nil, nil, err
+		}
+	}
 
 	n := new(big.Int).Mul(p, q)
 	nn := new(big.Int).Mul(n, n)
-- 
2.43.0


From 258884ddc7161b93b91b68e0c7840e9c76b19998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 37/69] fix: Paillier encryption uses a random number that is
 coprime to n

---
 xcrypto/paillier/paillier.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index b6957bc..bb91fca 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -127,8 +127,21 @@ func getPrimer(bits int) (*big.Int, error) {
 	return rand.Prime(rand.Reader, bits)
 }
 
-// TODO(BohuTANG): ensure {gcd(r,n)=1}
+// getRandom -- returns a random r in (0,n) with gcd(r,n)=1.
 // https://en.wikipedia.org/wiki/Paillier_cryptosystem#Encryption
 func getRandom(n *big.Int) (*big.Int, error) {
-	return rand.Int(rand.Reader, n)
+	for {
+		r, err := rand.Int(rand.Reader, n)
+		if err != nil {
+			return nil, err
+		}
+		if coprime(r, n) {
+			return r, nil
+		}
+	}
+}
+
+// coprime -- returns whether gcd(x,n)=1.
+func coprime(x, n *big.Int) bool {
+	return new(big.Int).GCD(nil, nil, x, n).Cmp(one) == 0
 }
-- 
2.43.0


From e0cec40c5171e7a6c37ae8f16aaa43f4c55b0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 38/69] fix: Paillier operations refuse what is not a
 ciphertext or cannot be divided by

---
 xcrypto/paillier/homomorphism.go | 19 +++++++++++++------
 xcrypto/paillier/paillier.go     | 11 ++++++++---
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/xcrypto/paillier/homomorphism.go b/xcrypto/paillier/homomorphism.go
index f0cc373..aa42055 100644
--- a/xcrypto/paillier/homomorphism.go
+++ b/xcrypto/paillier/homomorphism.go
@@ -14,7 +14,7 @@ import (
 // MultPlaintext -- returns the ciphertext the will decipher to multiplication
 // of the plaintexts (i.e. if ct = Enc(m1), then Dec(MultPlaintext(ct, m2)) = m1 * m2 mod N).
 func (pk *PubKey) MultPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct) || msg == nil {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -24,7 +24,7 @@ func (pk *PubKey) MultPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // AddPlaintext -- returns the ciphertext the will decipher to addition
 // of the plaintexts (i.e if ct = Enc(m1), then Dec(AddPlaintext(ct, m2)) = m1 + m2 mod N)
 func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct) || msg == nil {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -36,18 +36,21 @@ func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // DivPlaintext -- returns the ciphertext the will decipher to division of the plaintexts
 // (i.e if ct = Enc(m1), then Dec(DivPlaintext(ct, m2)) = m1 / m2 mod N)
 func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct) || msg == nil {
 		return nil, fmt.Errorf("input.invalid")
 	}
-	m := new(big.Int).Set(msg)
-	return new(big.Int).Exp(ct, m.ModInverse(m, pk.NN), pk.NN), nil
+	m := new(big.Int).ModInverse(msg, pk.NN)
+	if m == nil {
+		return nil, fmt.Errorf("input.invalid")
+	}
+	return new(big.Int).Exp(ct, m, pk.NN), nil
 }
 
 // Add -- returns a ciphertext `ct3` that will decipher to the sum of
 // the corresponding plaintext messages (`m1`, `m2`) ciphered to (`ct1`, `ct2`)
 // (i.e if ct1 = Enc(m1) and ct2 = Enc(m2), then Dec(Add(ct1, ct2)) = m1 + m2 mod N)
 func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
-	if ct1 == nil || ct2 == nil || ct1.Cmp(zero) != 1 || ct2.Cmp(zero) != 1 {
+	if !pk.isCiphertext(ct1) || !pk.isCiphertext(ct2) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	z := new(big.Int).Mul(ct1, ct2)
@@ -59,7 +62,11 @@ func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
 // decipher to the subtration of the corresponding plaintexts. So, if ct1 = Enc(m1)
 // and ct2 = Enc(m2), and m1 > m2, then Dec(Sub(ct1, ct2)) = ct1 - ct2 mod N.
 // Note that the ciphertext produced by this operation will only make sense if m1>m2.
+// It returns nil if an input is not a ciphertext.
 func (pk *PubKey) Sub(ct1, ct2 *big.Int) *big.Int {
+	if !pk.isCiphertext(ct1) || !pk.isCiphertext(ct2) {
+		return nil
+	}
 	neg := new(big.Int).ModInverse(ct2, pk.NN)
 	neg.Mul(ct1, neg)
 	return neg.Mod(neg, pk.NN)
diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index bb91fca..e743e25 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -75,10 +75,10 @@ func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
 
 // Encrypt -- returns a IND-CPA secure ciphertext for the message `msg`.
 func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
-	m := new(big.Int).Set(msg)
-	if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {
+	if msg == nil || msg.Cmp(zero) == -1 || msg.Cmp(pk.N) != -1 {
 		return nil, fmt.Errorf("plaintext.invalid")
 	}
+	m := new(big.Int).Set(msg)
 
 	r, err := getRandom(pk.N)
 	if err != nil {
@@ -94,7 +94,7 @@ func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
 
 // Decrypt -- returns the plaintext corresponding to the ciphertext (ct).
 func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !sk.pk.isCiphertext(ct) {
 		return nil, fmt.Errorf("ciphertext.invalid")
 	}
 
@@ -106,6 +106,11 @@ func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
 	return m, nil
 }
 
+// isCiphertext -- returns whether ct is in (0,n^2) and coprime to n, as every ciphertext is.
+func (pk *PubKey) isCiphertext(ct *big.Int) bool {
+	return ct != nil && ct.Cmp(zero) == 1 && ct.Cmp(pk.NN) == -1 && coprime(ct, pk.N)
+}
+
 // phi -- computes Euler's totient function `φ(p,q) = (p-1)*(q-1)`.
 func phi(x, y *big.Int) *big.Int {
 	p1 := new(big.Int).Sub(x, one)
-- 
2.43.0


From 19fcb233cb87c0558b1ddc1800f65ee89b1bdfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 39/69] fix: extracting the secret from a zero signature does
 not panic

---
 xcrypto/scriptless_ecdsa.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 3e3866a..d79a5b3 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -59,10 +59,14 @@ func (alice *EcdsaAlice) ScriptlessPhase5(shareR *secp256k1.Scalar, sign2 *big.I
 }
 
 // ScriptlessPhase6 -- get the secret T.
+// Returns nil if bobsig is not invertible and so no signature.
 func (alice *EcdsaAlice) ScriptlessPhase6(alicesig *big.Int, bobsig *big.Int) *big.Int {
 	N := alice.N
 	t := new(big.Int).Set(alicesig)
 	bobsiginv := new(big.Int).ModInverse(bobsig, N)
+	if bobsiginv == nil {
+		return nil
+	}
 	t = t.Mul(t, bobsiginv).Mod(t, N)
 	return t
 }
-- 
2.43.0


From fe07d094b764d85c57b9d79a447d80c63779e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 40/69] fix: empty and out-of-range HD path components are
 errors

---
 xcore/bip32/hdkey.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..d48ca40 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -178,6 +178,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
+		if step == "" {
+			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+		}
 		if step[len(step)-1] == '\'' {
 			isHardened = true
 			step = step[:len(step)-1]
@@ -188,6 +191,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
-- 
2.43.0


From 7adb2dc9a43f2d6c51845b1cc20d5eb2bc4b3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 41/69] fix: deriving below depth 255 is an error, the depth no
 longer wraps around

---
 xcore/bip32/hdkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index d48ca40..fb84c33 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -125,6 +125,11 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.derive.a.hardened.key.from.public.key.erro")
 	}
 
+	// The depth is a single byte.
+	if k.depth == 0xff {
+		return nil, fmt.Errorf("hdkey.derive.depth.too.deep")
+	}
+
 	// Split "I" into two 32-byte sequences Il and Ir where:
 	//   Il = intermediate key used to derive the child
 	//   Ir = child chain code
-- 
2.43.0


From 450bb1d180d0a665289acf3eeafce7bfff35c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 42/69] fix: extended keys that BIP32 calls invalid are refused

---
 xcore/bip32/hdkey.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index fb84c33..a342dc7 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -309,9 +309,25 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	k.childNum = data[9:13]
 	k.chainCode = data[13:45]
 
+	// A master key has no parent.
+	if k.depth == 0 && !bytes.Equal(data[5:13], make([]byte, 8)) {
+		return nil, fmt.Errorf("hdkey.serialized.master.key.with.parent")
+	}
+
+	// The version must not say private for a public key nor the other way round.
+	version := data[0:4]
+	for _, net := range []*network.Network{network.MainNet, network.TestNet} {
+		if (data[45] == 0 && bytes.Equal(version, net.HDPublicKeyID)) || (data[45] != 0 && bytes.Equal(version, net.HDPrivateKeyID)) {
+			return nil, fmt.Errorf("hdkey.serialized.key.version.mismatch")
+		}
+	}
+
 	if data[45] == byte(0) {
 		k.isPrivate = true
 		k.prvkey = xcrypto.PrvKeyFromBytes(data[46:78])
+		if k.prvkey.D.Sign() == 0 || k.prvkey.D.Cmp(k.prvkey.Curve.Params().N) >= 0 {
+			return nil, fmt.Errorf("hdkey.serialized.private.key.invalid")
+		}
 	} else {
 		k.isPrivate = false
 		pubkey, err := xcrypto.PubKeyFromBytes(data[45:78])
-- 
2.43.0


From 7d69c59a6f9fd3341453de3ed56608b786257b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 43/69] fix: mnemonic entropy comes from the system's secure
 random source

---
 xcore/bip39/bip39.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..0c79260 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,14 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,9 +105,10 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
-	return entropy, err
+	if _, err := rand.Read(entropy); err != nil {
+		return nil, err
+	}
+	return entropy, nil
 }
 
 // EntropyFromMnemonic takes a mnemonic generated by this library,
-- 
2.43.0


From f53f2dd4b0e252e6a5fe94189f13c2a3986e3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 44/69] fix: surplus white space in a mnemonic no longer counts
 as words

---
 xcore/bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 0c79260..3a31f65 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -211,7 +211,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice    = strings.Split(mnemonic, " ")
+		mnemonicSlice    = strings.Fields(mnemonic)
 		entropyBitSize   = len(mnemonicSlice) * 11
 		checksumBitSize  = entropyBitSize % 32
 		fullByteSize     = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 838a785e93542c53c617599e9244075172424ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 45/69] fix: the mnemonic word list can be switched and used
 concurrently

---
 xcore/bip39/bip39.go | 46 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 3a31f65..5fd2652 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"math/big"
 	"strings"
+	"sync"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -50,6 +51,9 @@ var (
 
 	// wordMap is a reverse lookup map for wordList
 	wordMap map[string]int
+
+	// wordMu guards wordList and wordMap; what they refer to never changes.
+	wordMu sync.RWMutex
 )
 
 var (
@@ -76,20 +80,31 @@ func init() {
 // SetWordList sets the list of words to use for mnemonics. Currently the list
 // that is set is used package-wide.
 func SetWordList(list []string) {
-	wordList = list
-	wordMap = map[string]int{}
-	for i, v := range wordList {
-		wordMap[v] = i
+	m := map[string]int{}
+	for i, v := range list {
+		m[v] = i
 	}
+	wordMu.Lock()
+	defer wordMu.Unlock()
+	wordList, wordMap = list, m
+}
+
+// currentWords returns the list in use and its reverse lookup map.
+func currentWords() ([]string, map[string]int) {
+	wordMu.RLock()
+	defer wordMu.RUnlock()
+	return wordList, wordMap
 }
 
 // GetWordList gets the list of words to use for mnemonics.
 func GetWordList() []string {
-	return wordList
+	list, _ := currentWords()
+	return list
 }
 
 // GetWordIndex gets word index in wordMap.
 func GetWordIndex(word string) (int, bool) {
+	_, wordMap := currentWords()
 	idx, ok := wordMap[word]
 	return idx, ok
 }
@@ -120,6 +135,8 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 		return nil, ErrInvalidMnemonic
 	}
 
+	_, wordMap := currentWords()
+
 	// Decode the words into a big.Int.
 	b := big.NewInt(0)
 	for _, v := range mnemonicSlice {
@@ -164,6 +181,11 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 // the given entropy.
 // If the provide entropy is invalid, an error will be returned.
 func NewMnemonic(entropy []byte) (string, error) {
+	list, _ := currentWords()
+	return newMnemonic(entropy, list)
+}
+
+func newMnemonic(entropy []byte, wordList []string) (string, error) {
 	// Compute some lengths for convenience.
 	entropyBitLength := len(entropy) * 8
 	checksumBitLength := entropyBitLength / 32
@@ -224,6 +246,8 @@ func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 		return nil, ErrInvalidMnemonic
 	}
 
+	_, wordMap := currentWords()
+
 	// Convert word indices to a big.Int representing the entropy.
 	checksummedEntropy := big.NewInt(0)
 	modulo := big.NewInt(2048)
@@ -285,6 +309,8 @@ func IsMnemonicValid(mnemonic string) bool {
 		return false
 	}
 
+	_, wordMap := currentWords()
+
 	// Check if all words belong in the wordlist
 	for _, word := range words {
 		if _, ok := wordMap[word]; !ok {
@@ -399,19 +425,19 @@ func NewBIP39(list Wordlists) (*BIP39, error) {
 	var err error
 	bip39 := &BIP39{}
 
+	wordList := words.English
 	switch list {
 	case CHINESE:
-		SetWordList(words.Chinese)
+		wordList = words.Chinese
 	case JAPANESE:
-		SetWordList(words.Japanese)
-	default:
-		SetWordList(words.English)
+		wordList = words.Japanese
 	}
+	SetWordList(wordList)
 
 	if bip39.entropy, err = NewEntropy(128); err != nil {
 		return nil, err
 	}
-	if bip39.mnemonic, err = NewMnemonic(bip39.entropy); err != nil {
+	if bip39.mnemonic, err = newMnemonic(bip39.entropy, wordList); err != nil {
 		return nil, err
 	}
 	return bip39, nil
-- 
2.43.0


From 14623fe21a3f0e890576acbfc480cdb1d9b14a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 46/69] fix: Decrypt takes numbers above n^2 again (they stand
 for their residues)

---
 xcrypto/paillier/paillier.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index e743e25..973b18b 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -94,7 +94,8 @@ func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
 
 // Decrypt -- returns the plaintext corresponding to the ciphertext (ct).
 func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
-	if !sk.pk.isCiphertext(ct) {
+	// A number above n^2 stands for its residue.
+	if ct == nil || ct.Cmp(zero) != 1 || !coprime(ct, sk.pk.N) {
 		return nil, fmt.Errorf("ciphertext.invalid")
 	}
 
-- 
2.43.0


From 36f5aadec661a1f76c885a46cbb05de9348084ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 47/69] fix: an ID is 32 bytes, text of another length is
 refused

---
 xbase/hash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xbase/hash.go b/xbase/hash.go
index c978dc7..eacb101 100644
--- a/xbase/hash.go
+++ b/xbase/hash.go
@@ -7,8 +7,12 @@ package xbase
 
 import (
 	"encoding/hex"
+	"fmt"
 )
 
+// idSize -- the size of an ID(a double-sha256 hash).
+const idSize = 32
+
 // NewIDFromString -- returns byte-reverse hash bytes.
 func NewIDFromString(hashStr string) ([]byte, error) {
 	hash, err := hex.DecodeString(hashStr)
@@ -17,6 +21,9 @@ func NewIDFromString(hashStr string) ([]byte, error) {
 	}
 
 	size := len(hash)
+	if size != idSize {
+		return nil, fmt.Errorf("id.size.must.be.%v.got.%v", idSize, size)
+	}
 	for i := 0; i < size/2; i++ {
 		hash[i], hash[size-1-i] = hash[size-1-i], hash[i]
 	}
-- 
2.43.0


From 02e3ebc79ae83ec1dcf2cfde1397f8f233375a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 48/69] fix: received ping and pong messages are no longer
 dropped as unhandled

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..a651853 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -25,6 +25,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgGetData{}
 	case CommandGetHeaders:
 		return &MsgGetHeaders{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	case CommandTx:
 		return &MsgTx{}
 	case CommandHeaders:
-- 
2.43.0


From 387afe74ea165261baada636af689759dc3264b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 49/69] fix: messages with an unknown command keep their
 payload

---
 xprotocol/msgunhandle.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgunhandle.go b/xprotocol/msgunhandle.go
index d8c31b1..e22c4fa 100644
--- a/xprotocol/msgunhandle.go
+++ b/xprotocol/msgunhandle.go
@@ -8,6 +8,7 @@ package xprotocol
 // MsgUnhandle --
 type MsgUnhandle struct {
 	command string
+	Data    []byte
 }
 
 // NewMsgUnhandle -- creates new MsgUnhandle.
@@ -19,17 +20,18 @@ func NewMsgUnhandle(command string) *MsgUnhandle {
 
 // Encode -- encoding the message to bitcoin protocol format.
 func (m *MsgUnhandle) Encode() []byte {
-	return nil
+	return m.Data
 }
 
 // Decode -- decoding bytes to the message.
 func (m *MsgUnhandle) Decode(data []byte) error {
+	m.Data = data
 	return nil
 }
 
 // Size -- the size of the message.
 func (m *MsgUnhandle) Size() int {
-	return len(m.command)
+	return len(m.Data)
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From ac0860e64e41cdacc7aba503de15c41dc58b4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 50/69] fix: adding several inventory vectors or headers at
 once respects the limit of the message

---
 xprotocol/msgheaders.go | 2 +-
 xprotocol/msginv.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..3e709bb 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..6ba6787 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
-- 
2.43.0


From e24b3599978986fc35c6de2376e43132e0f2fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 51/69] fix: headers and getheaders messages whose count
 exceeds the protocol's limit are refused

---
 xprotocol/msggetheaders.go | 12 ++++++++++++
 xprotocol/msgheaders.go    |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..27fc45e 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -6,10 +6,16 @@
 package xprotocol
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 )
 
+// MaxBlockLocatorsPerMsg -- the maximum number of block locator hashes that can be in
+// a single bitcoin getheaders message.
+const MaxBlockLocatorsPerMsg = 500
+
 // MsgGetHeaders --
 type MsgGetHeaders struct {
 	protocolVersion    uint32
@@ -26,6 +32,9 @@ func NewMsgGetHeaders(net *network.Network) *MsgGetHeaders {
 
 // AddBlockLocatorHash -- adds the block locator hash to message.
 func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
+	if len(m.blockLocatorHashes)+1 > MaxBlockLocatorsPerMsg {
+		return fmt.Errorf("too.many.block.locators.in.message[max:%v]", MaxBlockLocatorsPerMsg)
+	}
 	m.blockLocatorHashes = append(m.blockLocatorHashes, hash)
 	return nil
 }
@@ -61,6 +70,9 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > MaxBlockLocatorsPerMsg {
+		return fmt.Errorf("too.many.block.locators.in.message[max:%v]", MaxBlockLocatorsPerMsg)
+	}
 	for i := 0; i < int(count); i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3e709bb..3031754 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -60,6 +60,9 @@ func (m *MsgHeaders) Decode(data []byte) error {
 		return err
 	}
 
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
-- 
2.43.0


From 8119c1fbc39dd227ffa488571c621cc450119441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 52/69] fix: getheaders messages keep the stop hash they are
 decoded from, encoding does not change them

---
 xprotocol/msggetheaders.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 27fc45e..242fcdd 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -39,19 +39,21 @@ func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
 	return nil
 }
 
-// Encode -- encoding MsgGetHeaders.
-func (m *MsgGetHeaders) Encode() []byte {
+// locators -- the locator hashes on the wire, a zero hash if there is none.
+func (m *MsgGetHeaders) locators() [][]byte {
 	if len(m.blockLocatorHashes) == 0 {
-		var zero [32]byte
-		if err := m.AddBlockLocatorHash(zero[:]); err != nil {
-			return nil
-		}
+		return [][]byte{make([]byte, 32)}
 	}
+	return m.blockLocatorHashes
+}
 
+// Encode -- encoding MsgGetHeaders.
+func (m *MsgGetHeaders) Encode() []byte {
+	locators := m.locators()
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(m.protocolVersion)
-	buffer.WriteVarInt(uint64(len(m.blockLocatorHashes)))
-	for _, locator := range m.blockLocatorHashes {
+	buffer.WriteVarInt(uint64(len(locators)))
+	for _, locator := range locators {
 		buffer.WriteBytes(locator[:])
 	}
 	buffer.WriteBytes(m.blockStopHash[:])
@@ -82,14 +84,20 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(32)
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
 // Size -- the size of the message.
 func (m *MsgGetHeaders) Size() int {
 	size := 4
-	size += xbase.VarIntSerializeSize(uint64(len(m.blockLocatorHashes)))
-	for _, hdr := range m.blockLocatorHashes {
+	locators := m.locators()
+	size += xbase.VarIntSerializeSize(uint64(len(locators)))
+	for _, hdr := range locators {
 		size += len(hdr)
 	}
 	size += len(m.blockStopHash)
-- 
2.43.0


From 669b921a4e108e679cd511d2ea27677fd9367ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 53/69] fix: decoding into a used message replaces its contents

---
 xprotocol/msggetdata.go    | 1 +
 xprotocol/msggetheaders.go | 1 +
 xprotocol/msgheaders.go    | 1 +
 xprotocol/msginv.go        | 1 +
 xprotocol/msgreject.go     | 1 +
 5 files changed, 5 insertions(+)

diff --git a/xprotocol/msggetdata.go b/xprotocol/msggetdata.go
index 4253f16..796ea88 100644
--- a/xprotocol/msggetdata.go
+++ b/xprotocol/msggetdata.go
@@ -51,6 +51,7 @@ func (m *MsgGetData) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.InvList = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 242fcdd..94825f8 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -75,6 +75,7 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if count > MaxBlockLocatorsPerMsg {
 		return fmt.Errorf("too.many.block.locators.in.message[max:%v]", MaxBlockLocatorsPerMsg)
 	}
+	m.blockLocatorHashes = nil
 	for i := 0; i < int(count); i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3031754..b5a1058 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -63,6 +63,7 @@ func (m *MsgHeaders) Decode(data []byte) error {
 	if count > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
+	m.Headers = nil
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index 6ba6787..bb56404 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -51,6 +51,7 @@ func (m *MsgInv) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.Invs = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 9a50602..8e6c880 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -67,6 +67,7 @@ func (m *MsgReject) Decode(data []byte) error {
 	if m.Reason, err = buffer.ReadVarString(); err != nil {
 		return err
 	}
+	m.Hash = nil
 	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
 		if m.Hash, err = buffer.ReadBytes(32); err != nil {
 			return err
-- 
2.43.0


From a9cda4f7ea7f829a4736797d8c84d8974d435696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 54/69] fix: the size of reject and verack messages is that of
 their payload

---
 xprotocol/msgreject.go | 7 ++++++-
 xprotocol/msgverack.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 8e6c880..752c0ed 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -78,7 +78,12 @@ func (m *MsgReject) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgReject) Size() int {
-	return len(m.Cmd) + 1 + len(m.Reason) + len(m.Hash)
+	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1 +
+		xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
+	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
+		size += len(m.Hash)
+	}
+	return size
 }
 
 // Command -- returns the protocal command string of this message.
diff --git a/xprotocol/msgverack.go b/xprotocol/msgverack.go
index ceddcf9..d9fb118 100644
--- a/xprotocol/msgverack.go
+++ b/xprotocol/msgverack.go
@@ -25,7 +25,7 @@ func (m *MsgVerAck) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgVerAck) Size() int {
-	return len(CommandVersionAck)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From de552dfdbad3f2297f70c422b40e9c3bc0f9dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 55/69] fix: the ports of a version message are in network byte
 order

---
 xprotocol/msgversion.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7dc8c0e..391ab98 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -85,10 +85,10 @@ func (m *MsgVersion) Encode() []byte {
 	buffer.WriteU64(m.Timestamp)
 	buffer.WriteU64(m.ServicesYou)
 	buffer.WriteBytes(m.AddressYou)
-	buffer.WriteU16(m.PortYou)
+	writePort(buffer, m.PortYou)
 	buffer.WriteU64(m.ServicesMe)
 	buffer.WriteBytes(m.AddressMe)
-	buffer.WriteU16(m.PortMe)
+	writePort(buffer, m.PortMe)
 	buffer.WriteU64(m.Nonce)
 	buffer.WriteVarString(m.UserAgent)
 	buffer.WriteU32((m.LastBlock))
@@ -116,7 +116,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressYou, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortYou, err = buffer.ReadU16(); err != nil {
+	if m.PortYou, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.ServicesMe, err = buffer.ReadU64(); err != nil {
@@ -125,7 +125,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressMe, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortMe, err = buffer.ReadU16(); err != nil {
+	if m.PortMe, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.Nonce, err = buffer.ReadU64(); err != nil {
@@ -143,6 +143,21 @@ func (m *MsgVersion) Decode(data []byte) error {
 	return nil
 }
 
+// writePort -- write the port, the only field in network(big-endian) byte order.
+func writePort(buffer *xbase.Buffer, port uint32) {
+	buffer.WriteU8(uint8(port >> 8))
+	buffer.WriteU8(uint8(port))
+}
+
+// readPort -- read the port.
+func readPort(buffer *xbase.Buffer) (uint32, error) {
+	b, err := buffer.ReadBytes(2)
+	if err != nil {
+		return 0, err
+	}
+	return uint32(b[0])<<8 | uint32(b[1]), nil
+}
+
 // Size -- the size of the message.
 func (m *MsgVersion) Size() int {
 	return 4 + 8 + 8 + 8 +
-- 
2.43.0


From 66223915b79de22f81797f1a818622e6398076e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 56/69] fix: a version message carries the addresses, not their
 text

---
 xprotocol/msgversion.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 391ab98..d505340 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -6,6 +6,7 @@
 package xprotocol
 
 import (
+	"net"
 	"time"
 
 	"github.com/keyfuse/tokucore/network"
@@ -13,7 +14,7 @@ import (
 )
 
 const (
-	ip = "::ffff:127.0.0.1" // always return loopback.
+	ip = "127.0.0.1" // always return loopback.
 )
 
 // MsgVersion --
@@ -68,9 +69,9 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 	return &MsgVersion{
 		Version:    network.ProtocolVersion,
 		Timestamp:  uint64(time.Now().Unix()),
-		AddressYou: []byte(ip),
+		AddressYou: net.ParseIP(ip).To16(),
 		PortYou:    network.Port,
-		AddressMe:  []byte(ip),
+		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
 		LastBlock:  1,
-- 
2.43.0


From b8632ab364779dd50ed82d31b8df27683a0feb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 57/69] fix: frames of another network are refused

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..22125de 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -71,6 +71,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic[%x].mismatch[want:%x]", magic, s.magic)
+	}
 	command := make([]byte, 12)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
-- 
2.43.0


From 30fa4e45b82266ed827ee1dc432b7bf53bf03e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 58/69] fix: the payload of a message is limited, and not
 allocated before it arrives

---
 xprotocol/stream.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 22125de..55fc95e 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -34,6 +34,9 @@ import (
 //        -----------------------------------------------
 //
 
+// MaxPayloadSize -- the maximum size of the payload of a message.
+const MaxPayloadSize = 32 * 1024 * 1024
+
 const (
 	bufferSize   = 32 * 1024
 	readTimeout  = 30 * time.Second
@@ -86,10 +89,15 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
 	}
-	data := make([]byte, size)
-	if _, err := io.ReadFull(s.reader, data); err != nil {
+	if size > MaxPayloadSize {
+		return nil, fmt.Errorf("stream.read.payload.too.large[%v].max[%v]", size, MaxPayloadSize)
+	}
+	// Grows with what arrives, not with what is announced.
+	var payload bytes.Buffer
+	if _, err := io.CopyN(&payload, s.reader, int64(size)); err != nil {
 		return nil, err
 	}
+	data := payload.Bytes()
 	if !bytes.Equal(check, checksum(data)) {
 		return nil, fmt.Errorf("stream.read.payload.checksum.mismatch")
 	}
@@ -117,6 +125,9 @@ func (s *Stream) WriteMessage(msg Message) error {
 	b.Write(command)
 
 	datas := msg.Encode()
+	if len(datas) > MaxPayloadSize {
+		return fmt.Errorf("stream.write.payload.too.large[%v].max[%v]", len(datas), MaxPayloadSize)
+	}
 	if err := binary.Write(&b, binary.LittleEndian, uint32(len(datas))); err != nil {
 		return err
 	}
-- 
2.43.0


From d93b9909ef315af007130826b69f46968f6120c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 59/69] fix: a pending read does not block writes

---
 xprotocol/stream.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 55fc95e..54f6fb8 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -45,11 +45,12 @@ const (
 
 // Stream --
 type Stream struct {
-	magic  []byte
-	conn   net.Conn
-	mutex  sync.Mutex
-	reader *bufio.Reader
-	writer *bufio.Writer
+	magic      []byte
+	conn       net.Conn
+	readMutex  sync.Mutex
+	writeMutex sync.Mutex
+	reader     *bufio.Reader
+	writer     *bufio.Writer
 }
 
 // NewStream -- creates a new stream.
@@ -64,8 +65,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.readMutex.Lock()
+	defer s.readMutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -112,8 +113,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.writeMutex.Lock()
+	defer s.writeMutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From 658d8b971ae18e3f2d4664ab891631a838de7194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 60/69] fix: a command that does not fit into a frame is
 refused, not cut off

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 54f6fb8..be7c8fa 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -122,6 +122,9 @@ func (s *Stream) WriteMessage(msg Message) error {
 	var b bytes.Buffer
 	b.Write(s.magic)
 	command := make([]byte, 12)
+	if len(msg.Command()) > len(command) {
+		return fmt.Errorf("stream.write.command[%v].too.long", msg.Command())
+	}
 	copy(command, []byte(msg.Command()))
 	b.Write(command)
 
-- 
2.43.0


From fbae68d46e66780a2d721098af0c4d81c6ff13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 61/69] fix: a version message carries the network's last block

---
 xprotocol/msgversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index d505340..7ee4fbc 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -74,7 +74,7 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
-		LastBlock:  1,
+		LastBlock:  network.LastBlock,
 	}
 }
 
-- 
2.43.0


From 0b8d2bc527a87caee788816e840939ae263c3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 62/69] fix: a null RPC result is an error, not a crash

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..067ae6a 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("rpc.client.%v.result.null", method)
+	}
 	return resp, nil
 }
-- 
2.43.0


From 0576898a7b1f2a9552fb47acb6e4c58dd2a59c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 63/69] fix: the neighbours' hashes of a block header are text,
 not base64

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From 292bdf788c9b8c87848a99bc5de429c18fdefcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 64/69] fix: the whole RPC reply is read, and it is one JSON
 value

---
 xrpc/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xrpc/client.go b/xrpc/client.go
index 067ae6a..cbe0198 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"net/http"
 	"time"
 )
@@ -79,8 +80,12 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	}
 	defer rawResp.Body.Close()
 
+	body, err := ioutil.ReadAll(rawResp.Body)
+	if err != nil {
+		return nil, err
+	}
 	resp := &Response{}
-	if err := json.NewDecoder(rawResp.Body).Decode(resp); err != nil {
+	if err := json.Unmarshal(body, resp); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 0b741aaf4db7f9e15bef5023f38d0c3b64df3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 65/69] fix: an RPC reply with an HTTP error status is an error

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index cbe0198..ef74840 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -92,6 +92,9 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if rawResp.StatusCode < 200 || rawResp.StatusCode > 299 {
+		return nil, fmt.Errorf("rpc.client.%v.http.status[%v]", method, rawResp.Status)
+	}
 	if resp.Result == nil {
 		return nil, fmt.Errorf("rpc.client.%v.result.null", method)
 	}
-- 
2.43.0


From 97935f3f2b32fe180b5310c21807b78c73c0bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 66/69] fix: an RPC reply to another request is an error

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index ef74840..55fb562 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -95,6 +95,9 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if rawResp.StatusCode < 200 || rawResp.StatusCode > 299 {
 		return nil, fmt.Errorf("rpc.client.%v.http.status[%v]", method, rawResp.Status)
 	}
+	if resp.ID != param.ID {
+		return nil, fmt.Errorf("rpc.client.%v.reply.id[%v].mismatch[want:%v]", method, resp.ID, param.ID)
+	}
 	if resp.Result == nil {
 		return nil, fmt.Errorf("rpc.client.%v.result.null", method)
 	}
-- 
2.43.0


From 7bcee45c3a9990d8de96734563c9fc99a02f38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 67/69] fix: executing a script takes no more than linear time
 per step for its debugging text

---
 xvm/engine.go | 15 ++++++++++++---
 xvm/stack.go  | 11 ++++++-----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index f6444be..db06b54 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -145,6 +145,15 @@ func isPayToScriptHash(locking []byte) bool {
 
 func (vm *Engine) execute(program []byte, final bool) error {
 	vm.reader = NewScriptReader(program)
+
+	// The stack after the last step is only formatted when the script is done:
+	// formatting it at every step takes time and memory of its own square.
+	last, steps := NewStack(), 0
+	defer func() {
+		if steps > 0 {
+			vm.lastStack = last.String()
+		}
+	}()
 	for {
 		done, err := vm.Step()
 		if err != nil {
@@ -154,17 +163,17 @@ func (vm *Engine) execute(program []byte, final bool) error {
 			break
 		}
 
-		cur := vm.dstack.String()
+		steps++
+		last.stk = append(last.stk[:0], vm.dstack.stk...)
 		if vm.debug && final && vm.instruction != nil {
 			trace := Trace{
 				Step:      vm.pc,
 				Executed:  vm.instruction.op.name,
-				Stack:     cur,
+				Stack:     last.String(),
 				Remaining: vm.reader.DisasmRemaining(),
 			}
 			vm.traces = append(vm.traces, trace)
 		}
-		vm.lastStack = cur
 		vm.lastOp = vm.instruction.op.name
 	}
 
diff --git a/xvm/stack.go b/xvm/stack.go
index 238ca59..9df6a9d 100644
--- a/xvm/stack.go
+++ b/xvm/stack.go
@@ -7,6 +7,7 @@ package xvm
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/keyfuse/tokucore/xerror"
 )
@@ -188,19 +189,19 @@ func (s *Stack) SwapN(n int32) error {
 
 // String -- returns the stack in a readable format.
 func (s *Stack) String() string {
-	var result string
+	var result strings.Builder
 
 	if len(s.stk) == 0 {
-		result += " <empty> "
+		result.WriteString(" <empty> ")
 	}
 	for _, stack := range s.stk {
 		if len(stack) == 0 {
-			result += " <empty> "
+			result.WriteString(" <empty> ")
 		} else {
-			result += fmt.Sprintf(" <%x> ", stack)
+			fmt.Fprintf(&result, " <%x> ", stack)
 		}
 	}
-	return result
+	return result.String()
 }
 
 // Copy -- clone the stack to new.
-- 
2.43.0


From 80817d31bd01968797f6999cb1f9b7892de20c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 68/69] fix: a transaction whose decoding failed holds no
 missing inputs or outputs

---
 xcore/transaction.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 4375146..33ba011 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -577,7 +577,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	}
 	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
+		tx.inputs = make([]*TxIn, 0, ins)
 		for i := 0; i < int(ins); i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
@@ -592,7 +592,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -606,7 +606,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	}
 	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
+		tx.outputs = make([]*TxOut, 0, outs)
 		for i := 0; i < int(outs); i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
@@ -615,7 +615,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
@@ -700,7 +700,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	}
 	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
+		tx.inputs = make([]*TxIn, 0, ins)
 		for i := 0; i < int(ins); i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
@@ -715,7 +715,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -729,7 +729,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	}
 	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
+		tx.outputs = make([]*TxOut, 0, outs)
 		for i := 0; i < int(outs); i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
@@ -738,7 +738,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
-- 
2.43.0


From 8341e5ac337e1dbedaf92097bc026dcd44088d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 69/69] fix: merkle trees share no memory with the leaves they
 are made of or the hashes they return

---
 xcrypto/merkle.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index e2dbf47..89b1fbe 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -48,7 +48,9 @@ func NewMerkle(hashs [][]byte) *Merkle {
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
 	levels[depth] = make([][]byte, pow2)
-	copy(levels[depth], hashs)
+	for i, hash := range hashs {
+		levels[depth][i] = cloneHash(hash)
+	}
 
 	// Build the merkle tree with levels.
 	for i := depth; i > 0; i-- {
@@ -73,6 +75,14 @@ func NewMerkle(hashs [][]byte) *Merkle {
 	return &Merkle{levels: levels}
 }
 
+// cloneHash -- copies the hash, the nil hash is nil.
+func cloneHash(hash []byte) []byte {
+	if hash == nil {
+		return nil
+	}
+	return append([]byte{}, hash...)
+}
+
 func merkleNode(left []byte, right []byte) []byte {
 	var hash [merkleHashSize * 2]byte
 	copy(hash[:merkleHashSize], left[:])
@@ -82,7 +92,7 @@ func merkleNode(left []byte, right []byte) []byte {
 
 // Root -- returns the merkle root.
 func (m *Merkle) Root() []byte {
-	return m.levels[0][0]
+	return cloneHash(m.levels[0][0])
 }
 
 // Proofs -- gets the proof path for this leaf.
@@ -118,7 +128,7 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 				parent = merkleNode(level[index], siblingHash)
 			}
 			index = index / 2
-			path = append(path, Node{Hash: siblingHash, Parent: parent, Position: siblingPostion})
+			path = append(path, Node{Hash: cloneHash(siblingHash), Parent: parent, Position: siblingPostion})
 		}
 	}
 	return path
-- 
2.43.0

