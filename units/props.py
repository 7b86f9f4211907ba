"""Which units decide which property."""
COMMON_TRUST = [
    "the encoders: LLVM IR of clang 18 (-O0 + mem2reg), JVM class files of javac 17, x86-64 instructions of the assembled object; each encoding is compared on concrete inputs with the real code before its verdict is used",
    "the SMT solver (z3 5.3) and the term normaliser in sv/term.py",
    "64-bit little-endian target, NDEBUG not defined, Java assertions enabled",
]


def unsafe(v):
    """the real code crashed, tripped a sanitizer or an assertion, or threw something undocumented"""
    g = v["got"]
    return g.startswith("!crash") or g.startswith("!") and g not in (
        v["expected"], "!java.lang.IllegalArgumentException", "!java.lang.NullPointerException")


PROPS = {
    "U01": dict(units=["u.add/*", "u.sub/*", "u.shl1/*", "u.shr1/*", "u.replace/*", "u.swap/*", "u.replaceself/*", "u.swapself/*",
                       "j.uintAdd*", "j.uintSubtract*", "j.uintShift*", "j.replace*", "j.swap*"],
                explanation="Every operation is executed symbolically for all operands at once (256-bit unknowns, enable 0/1) in C++ (portable and assembly-backed) and Java, "
                            "and its result, carry and every stored word are compared with the mathematical definition by the solver."),
    "U02": dict(units=["u.cmp/*", "u.cmpself/*", "f.cmp/*", "j.equalTo*", "j.lessThan*", "j.isZero"],
                explanation="All comparison operators on two unknown 256-bit values (and on one value compared with itself) against integer comparison."),
    "U03": dict(units=["u.hex/*", "u.bytes/*", "u.tobytes/*", "f.hex/*", "f.tobytes/*", "u.fromfield/*", "j.hexToUint*", "j.uintToHex", "j.uintToBytes", "j.bytesToUint"],
                explanation="Text and byte conversions executed on 64 unknown digits or 32 unknown bytes and compared with the number they denote."),
    "H07": dict(units=["h.str/*", "h.bytes/*", "h.cmp/*", "j.h.*"],
                explanation="Hash values from unknown bytes or unknown hexadecimal characters; Java: later changes of the arrays by unknown values, all pairs of values for equality, order and hash code, texts of "
                            "wrong length or with a foreign character rejected."),
    "K01": dict(units=["k.const/*"],
                explanation="Static initialisation encoded in every order of the initialised files (C++) or with every class first (Java); constants compared with the standard values and the whole global memory compared between orders. "
                            "Every other unit also carries the obligation that no call changes a constant."),
    "F01": dict(units=["f.add/*", "f.sub/*", "f.dbl/*", "f.new/*", "f.replace/*", "f.mul/*", "f.mulself/*", "f.sqr/*", "u.fromfield/*", "j.field*",
                       "u.add/*", "u.sub/*", "u.cmp/*", "u.replace/*", "j.uintAdd*", "j.uintSubtract*", "j.lessThan*", "j.replace*"],
                explanation="Every field operation is executed symbolically for all pairs of reduced operands (and with operand and result sharing storage), in C++ on the portable and "
                            "on the assembly back end and in Java. Multiplication and squaring are decided by tracing every stored word as an exact integer linear form over the word products "
                            "(carries as bounded unknowns, each range proved), then proving result = product - k*p and result < p."),
    "A01": dict(units=["asm.*"] + [u + "/asm" for u in ("u.add", "u.sub", "u.shl1", "u.shr1", "u.replace", "u.swap", "u.cmp", "u.replaceself", "u.swapself", "f.mul", "f.mulself", "f.sqr", "f.add", "f.sub", "f.dbl")],
                explanation="The assembled object code is decoded and executed symbolically from every register state the ABI allows (upper halves of 32-bit arguments, direction of memory and "
                            "alignment all unknown); result words, carry, callee-saved registers, stack pointer and the set of touched memory are compared with the contract."),
    "U04": dict(units=["u.recip/*", "f.recip/*", "j.reciprocal*", "u.add/*", "u.sub/*", "u.shr1/*", "u.swap/*", "u.replace/*", "u.cmp/*", "j.uintAdd*", "j.uintSubtract*", "j.uintShiftRight*", "j.swap*", "j.replace*", "j.lessThan*", "j.equalTo*", "j.isZero"],
                explanation="The whole loop is executed for an unknown value and an unknown odd modulus; at every visit of its header the four working values become unknowns constrained by the invariant only (their roles are found by "
                            "watching a concrete execution). In every case of an iteration the solver proves that the old pair (x, y) is a nonnegative combination of the new one, with the same combination of the coefficients modulo "
                            "the modulus, and that the product x*y halves; 512 visits then leave y = 0 and x the greatest common divisor, and the result is the coefficient belonging to it."),
    "H01": dict(units=["h.block/sha256/*", "h.msg/sha256/*", "h.msg/sha256d/*", "h.long/sha256/*", "h.inc/sha256"],
                explanation="The block function is executed symbolically from any state on any block (0..2 blocks per call) and its circuit proved equal to FIPS 180-4 by SMT sweeping; whole messages of every "
                            "length up to three blocks with unknown content, and messages of any length with the whole-block prefix opaque (C++: by induction over the incremental object, any byte count below 2^61), are compared with the definition."),
    "H02": dict(units=["h.block/sha512/*", "h.msg/sha512/*", "h.long/sha512/*", "h.inc/sha512"],
                explanation="As H01, for SHA-512: block function from any state on any block, every message length up to three blocks with unknown content, and any length with an opaque prefix."),
    "H03": dict(units=["h.block/rmd160/*", "h.msg/rmd160/*", "h.long/rmd160/*"],
                explanation="As H01, for RIPEMD-160: block function from any state on any block, every message length up to three blocks with unknown content, and any length with an opaque prefix."),
    "H04": dict(units=["h.block/keccak/*", "h.msg/keccak/*"],
                explanation="The 24-round permutation from any state and the sponge with unknown message bytes at every length up to three rate blocks, against the Keccak definition (original padding)."),
    "H05": dict(units=["h.inc/*", "h.block/sha256/cpp", "h.block/sha512/cpp"],
                explanation="Induction over the incremental object: a new object represents the empty message; from every represented state (any block state, any byte count, any pending bytes) an append yields the "
                            "representation of the longer message; finishing a represented state yields the padded digest. Representation found by probing, not by field names."),
    "H06": dict(units=["h.hmac/*", "h.block/sha256/*", "h.block/sha512/*"],
                explanation="HMAC with unknown key and message bytes over a grid of key and message lengths covering every key length to two blocks, with the block function opaque and decided separately."),
    "C01": dict(units=["c.enc/*", "c.segenc/*", "c.rt.*"],
                explanation="The encoders on unknown human-readable characters (16 bits each), unknown 5-bit groups or unknown version and program bytes, over a grid of lengths including every limit; the decoders on the "
                            "texts the encoder writes. Checksums are compared as linear forms over GF(2) that the solver then uses as atoms."),
    "C02": dict(units=["c.dec/*", "c.segdec/*"],
                explanation="The decoders on strings of unknown 16-bit characters with the last separator at each listed place: accepted exactly when BIP 173 allows, with the parts compared, and every refusal an "
                            "IllegalArgumentException."),
    "P01": dict(units=["p.add/*", "p.addself/*", "p.twice/*", "p.replace/*", "p.iszero/*", "j.p.replace*", "j.p.isZero"],
                explanation="add and twice executed symbolically with the field operations as uninterpreted ring operations; every combination of operands (identity, equal, opposite, different points, any z) is a case in "
                            "which each comparison inside the code is settled as a polynomial fact, and the resulting coordinates are compared with the affine group law as polynomial identities given to the solver."),
    "P02": dict(units=["p.mul/*", "p.pub/*", "p.add/*", "p.addself/*", "p.twice/*", "p.replace/*", "j.p.replace*", "k.const/*"],
                explanation="multiply executed for an unknown 256-bit n with the group operations opaque: the multiple of the operand that every table entry and accumulator stands for is an integer term in n, and the solver "
                            "proves that the result's multiple is n. The public-key function is n times the standard generator, normalized."),
    "P03": dict(units=["p.norm/*", "p.isoncurve/*", "p.iszero/*", "p.cmp/*", "p.compress/*", "j.p.isZero"],
                explanation="normalize and isOnCurve executed with uninterpreted field operations and decided case by case (z zero or not, on or off the curve); zero test, equality and compressed encoding on unknown coordinates."),
    "E01": dict(units=["e.sign/*", "u.add/*", "u.sub/*", "u.shl1/*", "u.cmp/*", "u.replace/*", "j.uintAdd*", "j.uintSubtract*", "j.uintShiftLeft*", "j.lessThan*", "j.equalTo*", "j.isZero", "j.replace*", "k.const/*"],
                explanation="sign executed for unknown key, hash and nonce with the curve operations opaque. Every conditional subtraction of the order is recognised by a solver query as a reduction, so that each value gets a "
                            "polynomial modulo the order in key, hash, 1/nonce and the x coordinate (the modular product loop included); success, r and s of every path are then compared with the standard by the solver."),
    "E02": dict(units=["e.verify/*", "u.add/*", "u.sub/*", "u.shl1/*", "u.cmp/*", "u.replace/*", "j.uintAdd*", "j.uintSubtract*", "j.uintShiftLeft*", "j.lessThan*", "j.equalTo*", "j.isZero", "j.replace*", "p.iszero/*", "j.p.isZero"],
                explanation="verify executed for any public triple, hash, r and s with the curve operations opaque: the two scalars are polynomials modulo the order, and each path's answer is compared with the definition by the solver."),
    "E03": dict(units=["e.signh/*", "e.rt", "e.sign/*", "e.verify/*"],
                explanation="signWithHmacNonce executed with HMAC-SHA-256 opaque: the result must be that of sign with the HMAC of the 32 key bytes and the 32 hash bytes as nonce. That verify accepts what sign outputs follows from E01, E02 and "
                            "an identity modulo the order given to the solver."),
    "B01": dict(units=["b.enc/*/cpp*", "b.dec/*/cpp*"],
                explanation="The encoders and decoders are executed case by case (number of leading zero bytes or ones, length of the text, bytes of the number) with every byte or digit unknown; in a case all branches are settled, and the chains of "
                            "long division and multiplication are eliminated into exact integer identities between the digits and the number, decided with the solver's integer arithmetic. Encoders: checksum bytes arbitrary, hashed data compared. "
                            "Decoders: returned value, version, flag and key fields compared with the bytes of the number."),
    "B02": dict(units=["b.dec/*/cpp*"],
                explanation="Every case of the decoders' texts (length, leading ones, range of the number; the first foreign character at every place; every shorter and longer text): accepted exactly when the leading ones match, the checksum bytes equal "
                            "the hash of the other bytes and the format's fixed bytes are right; outputs untouched otherwise; every access within its buffer."),
    "B03": dict(units=["b.enc/java/*", "b.dec/java/*"],
                explanation="The bytecode is executed with BigInteger operations as exact wide integers, payload bytes or digits unknown, for every payload and text length of the bound: text equal to the number in base 58 with a leading 1 per leading zero byte; "
                            "decoded array equal to the bytes of the number, IllegalArgumentException exactly when a character is foreign, bytes are missing or the checksum differs."),
    "X01": dict(units=["x.child/*", "x.new/*", "p.compress/*", "u.add/*", "u.sub/*", "u.cmp/*", "h.hmac/sha512/cpp/*"],
                explanation="getChildKey executed for every parent state and index with the hash functions and curve operations opaque; the data given to HMAC-SHA-512 and every field of the result are compared with BIP 32 by the solver. "
                            "Replays of cases no feasible input reaches choose the HMAC value at link time."),
    "S02": dict(units=["*"], not_quick=["c.rt.*", "c.*/over", "c.dec/long*", "c.enc/max83", "b.dec/wif/cpp/[123]", "b.dec/java/[123]", "b.enc/wifc/*", "b.enc/java/[13]", "ct.*"], only=unsafe,
                explanation="Every symbolic execution of every public operation collects the conditions under which an instruction would be undefined (memory access outside its object or to a constant, shift amount, signed overflow, "
                            "division, uninitialised value, alignment), an assertion would fail or (Java) an undocumented exception would leave the call; the solver decides each for all inputs the preconditions permit. "
                            "A violation is reported when the real code, built with the address and undefined-behaviour sanitizers and assertions, fails on the input found."),
    "S01": dict(units=["ct.*"],
                explanation="Each operation documented as constant-time is executed with every operand unknown (compiled with NDEBUG; larger operations use arbitrary results for the smaller ones, which have units of their own); "
                            "for each branch condition and each address met that is not a constant the solver is asked for two executions that part there (for signing: two successful ones). "
                            "The two inputs are run on the compiled library under an instruction tracer (valgrind lackey) or, for Java, on instrumented bytecode; a violation is two traces that differ. "
                            "Outside: variable-latency instructions, caches, what a JIT compiler makes of the bytecode, compilers and options other than g++ -O1 as in the Makefile."),
}
