From 22d28a625aba4303b013ee48e6c8321b0cb365de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 1/8] fix: Reduce message hash modulo order in Ecdsa sign, so
 that the sum with r*privateKey is always fully reduced

---
 cpp/Ecdsa.cpp                            | 3 ++-
 java/io/nayuki/bitcoin/crypto/Ecdsa.java | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/Ecdsa.cpp b/cpp/Ecdsa.cpp
index 46f8c4a..4a3f934 100644
--- a/cpp/Ecdsa.cpp
+++ b/cpp/Ecdsa.cpp
@@ -48,7 +48,8 @@ bool Ecdsa::sign(const Uint256 &privateKey, const Sha256Hash &msgHash, const Uin
 	countOps(1 * curvepointCopyOps);
 	
 	Uint256 s = r;
-	const Uint256 z(msgHash.value);
+	Uint256 z(msgHash.value);
+	z.subtract(order, static_cast<uint32_t>(z >= order));  // So that s + z is less than 2 * order
 	multiplyModOrder(s, privateKey);
 	uint32_t carry = s.add(z);
 	s.subtract(order, carry | static_cast<uint32_t>(s >= order));
diff --git a/java/io/nayuki/bitcoin/crypto/Ecdsa.java b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
index 692e67a..cccd685 100644
--- a/java/io/nayuki/bitcoin/crypto/Ecdsa.java
+++ b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
@@ -72,6 +72,7 @@ public final class Ecdsa {
 		Int256Math.copy(val, rOff, val, sOff);
 		Arrays.fill(val, zOff, zOff + NUM_WORDS, 0);
 		Int256Math.bytesToUint(msgHash.toBytes(), val, zOff);
+		Int256Math.uintSubtract(val, zOff, orderOff, Int256Math.lessThan(val, zOff, orderOff) ^ 1, zOff);  // So that s + z is less than 2 * order
 		multiplyModOrder(val, sOff, privateKey, 0, tempOff);
 		int carry = Int256Math.uintAdd(val, sOff, zOff, 1, sOff);
 		Int256Math.uintSubtract(val, sOff, orderOff, carry | (Int256Math.lessThan(val, sOff, orderOff) ^ 1), sOff);
-- 
2.43.0


From 3b541cdbe8618c33eda6b880cc6977424cf962f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 2/8] fix: Zero-extend 32-bit enable argument in x86-64
 asm_Uint256_add and asm_Uint256_subtract

---
 cpp/AsmX8664.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 34a1509..d330d05 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -10,6 +10,7 @@
 /* uint32_t asm_Uint256_add(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_add
 asm_Uint256_add:
+	movl    %edx, %edx  /* Upper half of register is undefined for a uint32_t argument */
 	negq    %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
@@ -31,6 +32,7 @@ asm_Uint256_add:
 /* uint32_t asm_Uint256_subtract(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_subtract
 asm_Uint256_subtract:
+	movl    %edx, %edx  /* Upper half of register is undefined for a uint32_t argument */
 	negq    %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
-- 
2.43.0


From a1b8fcd387797acf15a046c4a11b0860a9e4a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 3/8] fix: Do not require 16-byte alignment in x86-64
 asm_Uint256_replace and asm_Uint256_equalTo

---
 cpp/AsmX8664.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index d330d05..2c8316d 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -98,8 +98,10 @@ asm_Uint256_replace:
 	pshufd    $0, %xmm0, %xmm0
 	movdqu     0(%rdi), %xmm1
 	movdqu    16(%rdi), %xmm2
-	pblendvb   0(%rsi), %xmm1
-	pblendvb  16(%rsi), %xmm2
+	movdqu     0(%rsi), %xmm3
+	movdqu    16(%rsi), %xmm4
+	pblendvb  %xmm3, %xmm1
+	pblendvb  %xmm4, %xmm2
 	movdqu    %xmm1,  0(%rdi)
 	movdqu    %xmm2, 16(%rdi)
 	retq
@@ -133,8 +135,10 @@ asm_Uint256_swap:
 asm_Uint256_equalTo:
 	movdqu     0(%rdi), %xmm0
 	movdqu    16(%rdi), %xmm1
-	pcmpeqb    0(%rsi), %xmm0
-	pcmpeqb   16(%rsi), %xmm1
+	movdqu     0(%rsi), %xmm2
+	movdqu    16(%rsi), %xmm3
+	pcmpeqb   %xmm2, %xmm0
+	pcmpeqb   %xmm3, %xmm1
 	pand      %xmm1, %xmm0
 	pmovmskb  %xmm0, %eax
 	cmpl      $0xFFFF, %eax
-- 
2.43.0


From 47216981058432630db836f6da3e968a4eb63e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 4/8] fix: Reject mixed-case Bech32 strings where uppercase
 precedes lowercase

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 7cd285a..74911ec 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -216,16 +216,18 @@ public final class Bech32 {
 		
 		{  // Normalize to lowercase, rejecting mixed case
 			boolean hasLower = false;
+			boolean hasUpper = false;
 			char[] temp = s.toCharArray();
 			for (int i = 0; i < temp.length; i++) {
 				char c = temp[i];
 				hasLower |= 'a' <= c && c <= 'z';
 				if ('A' <= c && c <= 'Z') {
-					if (hasLower)
-						throw new IllegalArgumentException("String has mixed case");
+					hasUpper = true;
 					temp[i] += 'a' - 'A';
 				}
 			}
+			if (hasLower && hasUpper)
+				throw new IllegalArgumentException("String has mixed case");
 			s = new String(temp);
 		}
 		
-- 
2.43.0


From fad6ee31916c9670062fe9fd60ac892e685c0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 5/8] fix: Reject segwit Bech32 strings with a whole extra
 group of padding

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 74911ec..c591238 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -138,6 +138,8 @@ public final class Bech32 {
 		
 		// Final checks and return
 		assert outputIndex == witProg.length;
+		if (bitBufferLen >= IN_BITS)
+			throw new IllegalArgumentException("Excess padding");
 		if (bitBuffer != 0)
 			throw new IllegalArgumentException("Non-zero padding");
 		return new Object[]{decoded[0], witVer, witProg};
-- 
2.43.0


From cab70cf18a5fa5b01ef1db6b456735fe8972dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 6/8] fix: Throw IllegalArgumentException for Base58Check
 strings too short for a checksum

---
 java/io/nayuki/bitcoin/crypto/Base58Check.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Base58Check.java b/java/io/nayuki/bitcoin/crypto/Base58Check.java
index 6f3acc8..7ef580f 100644
--- a/java/io/nayuki/bitcoin/crypto/Base58Check.java
+++ b/java/io/nayuki/bitcoin/crypto/Base58Check.java
@@ -63,6 +63,8 @@ public final class Base58Check {
 	// The caller is responsible for handling the version byte(s).
 	public static byte[] base58ToBytes(String s) {
 		byte[] concat = base58ToRawBytes(s);
+		if (concat.length < 4)
+			throw new IllegalArgumentException("Data too short");
 		byte[] data = Arrays.copyOf(concat, concat.length - 4);
 		byte[] hash = Arrays.copyOfRange(concat, concat.length - 4, concat.length);
 		byte[] rehash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);
-- 
2.43.0


From 797baf70b841c63e630d6d8fa20bb3c3bd4f1e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 7/8] fix: initialize the selected point in
 CurvePointMath.multiply, so that the checks on it do not depend on old
 contents of the temporary space

---
 java/io/nayuki/bitcoin/crypto/CurvePointMath.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/io/nayuki/bitcoin/crypto/CurvePointMath.java b/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
index 791834c..3df2853 100644
--- a/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
+++ b/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
@@ -214,6 +214,7 @@ public final class CurvePointMath {
 		int qOff = tempOff + tableLen * POINT_WORDS;
 		for (int i = Int256Math.NUM_WORDS * 32 - tableBits; i >= 0; i -= tableBits) {
 			int inc = (val[nOff + (i >>> 5)] >>> (i & 31)) & (tableLen - 1);
+			copy(ZERO_POINT, 0, val, qOff);  // Dummy initial value
 			for (int j = 0; j < tableLen; j++)
 				CurvePointMath.replace(val, qOff, tableOff + j * POINT_WORDS, Int256Math.equalTo(j, inc));
 			CurvePointMath.add(val, pOff, qOff, newTempOff);
-- 
2.43.0


From a90b9a6fe39517da391452a2230c999e22398e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 8/8] fix: compute half the modulus without overflow in
 reciprocal, so that the modulus 2^256-1 works too

---
 cpp/Uint256.cpp                               | 2 +-
 java/io/nayuki/bitcoin/crypto/Int256Math.java | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/Uint256.cpp b/cpp/Uint256.cpp
index 224b6c2..260450e 100644
--- a/cpp/Uint256.cpp
+++ b/cpp/Uint256.cpp
@@ -147,8 +147,8 @@ void Uint256::reciprocal(const Uint256 &modulus) {
 	Uint256 b = ONE;
 	Uint256 halfModulus = modulus;
 	countOps(5 * uint256CopyOps);
+	halfModulus.shiftRight1();  // Must shift before adding to avoid overflow
 	halfModulus.add(ONE);
-	halfModulus.shiftRight1();
 	
 	// Loop invariant: x = a*this mod modulus, and y = b*this mod modulus
 	for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
diff --git a/java/io/nayuki/bitcoin/crypto/Int256Math.java b/java/io/nayuki/bitcoin/crypto/Int256Math.java
index 702dd31..e3433df 100644
--- a/java/io/nayuki/bitcoin/crypto/Int256Math.java
+++ b/java/io/nayuki/bitcoin/crypto/Int256Math.java
@@ -177,8 +177,8 @@ public final class Int256Math {
 		copy(ZERO, 0,   val, cOff);
 		copy(ONE , 0,   val, dOff);
 		copy(ONE, 0, val, oneOff);
-		uintAdd(val, yOff, oneOff, 1, halfModOff);
-		uintShiftRight1(val, halfModOff, 1, halfModOff);
+		uintShiftRight1(val, yOff, 1, halfModOff);  // Must shift before adding to avoid overflow
+		uintAdd(val, halfModOff, oneOff, 1, halfModOff);
 		
 		// Loop invariant: a = c*x mod y, and b = d*x mod y
 		for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
-- 
2.43.0

