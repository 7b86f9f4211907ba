// Runs one constant-time operation between two marks, all its operands at fixed addresses.
// Input: one line "op operands..." like the other driver; the result is not printed.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "FieldInt.hpp"
#include "Sha256Hash.hpp"
#include "Uint256.hpp"

volatile std::uint32_t ct_mark;
static __attribute__((noinline)) void ct_begin() { __asm__ volatile("" ::: "memory"); ct_mark = 1; __asm__ volatile("" ::: "memory"); }
static __attribute__((noinline)) void ct_end() { __asm__ volatile("" ::: "memory"); ct_mark = 2; __asm__ volatile("" ::: "memory"); }

static char line[65536];
static char *word[64];
static int words;
alignas(64) static unsigned char store[16][256];
alignas(64) static std::uint8_t raw[64], raw2[64];
static volatile std::uint32_t sink;

static unsigned nib(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void bytes(int w, std::uint8_t *out, int n) { for (int i = 0; i < n; i++) out[i] = (std::uint8_t)(nib(word[w][2 * i]) << 4 | nib(word[w][2 * i + 1])); }
static Uint256 &U(int w, int slot) { std::uint8_t b[32]; bytes(w, b, 32); return *new (store[slot]) Uint256(b); }
static FieldInt &F(int w, int slot) { std::uint8_t b[32]; bytes(w, b, 32); return *new (store[slot]) FieldInt(Uint256(b)); }
static CurvePoint &P(int w, int slot) {
	FieldInt x = F(w, 12), y = F(w + 1, 13), z = F(w + 2, 14);
	CurvePoint &p = *new (store[slot]) CurvePoint(x, y);
	p.z = z;
	return p;
}
static std::uint32_t en(int w) { return (std::uint32_t)std::strtoul(word[w], nullptr, 16); }

int main() {
	std::size_t len = std::fread(line, 1, sizeof(line) - 1, stdin);
	line[len] = 0;
	for (char *p = std::strtok(line, " \n"); p && words < 64; p = std::strtok(nullptr, " \n")) word[words++] = p;
	const char *op = words ? word[0] : "";
	if (!std::strcmp(op, "u.add")) { Uint256 &x = U(1, 0), &y = U(2, 1); std::uint32_t e = en(3); ct_begin(); sink = x.add(y, e); ct_end(); return 0; }
	if (!std::strcmp(op, "u.sub")) { Uint256 &x = U(1, 0), &y = U(2, 1); std::uint32_t e = en(3); ct_begin(); sink = x.subtract(y, e); ct_end(); return 0; }
	if (!std::strcmp(op, "u.shl1")) { Uint256 &x = U(1, 0); ct_begin(); sink = x.shiftLeft1(); ct_end(); return 0; }
	if (!std::strcmp(op, "u.shr1")) { Uint256 &x = U(1, 0); std::uint32_t e = en(2); ct_begin(); x.shiftRight1(e); ct_end(); return 0; }
	if (!std::strcmp(op, "u.replace")) { Uint256 &x = U(1, 0), &y = U(2, 1); std::uint32_t e = en(3); ct_begin(); x.replace(y, e); ct_end(); return 0; }
	if (!std::strcmp(op, "u.swap")) { Uint256 &x = U(1, 0), &y = U(2, 1); std::uint32_t e = en(3); ct_begin(); x.swap(y, e); ct_end(); return 0; }
	if (!std::strcmp(op, "u.eq")) { Uint256 &x = U(1, 0), &y = U(2, 1); ct_begin(); sink = x == y; ct_end(); return 0; }
	if (!std::strcmp(op, "u.ne")) { Uint256 &x = U(1, 0), &y = U(2, 1); ct_begin(); sink = x != y; ct_end(); return 0; }
	if (!std::strcmp(op, "u.lt")) { Uint256 &x = U(1, 0), &y = U(2, 1); ct_begin(); sink = x < y; ct_end(); return 0; }
	if (!std::strcmp(op, "u.le")) { Uint256 &x = U(1, 0), &y = U(2, 1); ct_begin(); sink = x <= y; ct_end(); return 0; }
	if (!std::strcmp(op, "u.gt")) { Uint256 &x = U(1, 0), &y = U(2, 1); ct_begin(); sink = x > y; ct_end(); return 0; }
	if (!std::strcmp(op, "u.ge")) { Uint256 &x = U(1, 0), &y = U(2, 1); ct_begin(); sink = x >= y; ct_end(); return 0; }
	if (!std::strcmp(op, "u.recip")) { Uint256 &x = U(1, 0), &y = U(2, 1); ct_begin(); x.reciprocal(y); ct_end(); return 0; }
	if (!std::strcmp(op, "u.bytes")) { bytes(1, raw, 32); ct_begin(); new (store[0]) Uint256(raw); ct_end(); return 0; }
	if (!std::strcmp(op, "u.tobytes")) { Uint256 &x = U(1, 0); ct_begin(); x.getBigEndianBytes(raw); ct_end(); return 0; }
	if (!std::strcmp(op, "u.fromfield")) { FieldInt &x = F(1, 0); ct_begin(); new (store[2]) Uint256(x); ct_end(); return 0; }
	if (!std::strcmp(op, "f.new")) { Uint256 &x = U(1, 0); ct_begin(); new (store[2]) FieldInt(x); ct_end(); return 0; }
	if (!std::strcmp(op, "f.add")) { FieldInt &x = F(1, 0), &y = F(2, 1); ct_begin(); x.add(y); ct_end(); return 0; }
	if (!std::strcmp(op, "f.sub")) { FieldInt &x = F(1, 0), &y = F(2, 1); ct_begin(); x.subtract(y); ct_end(); return 0; }
	if (!std::strcmp(op, "f.mul")) { FieldInt &x = F(1, 0), &y = F(2, 1); ct_begin(); x.multiply(y); ct_end(); return 0; }
	if (!std::strcmp(op, "f.eq")) { FieldInt &x = F(1, 0), &y = F(2, 1); ct_begin(); sink = x == y; ct_end(); return 0; }
	if (!std::strcmp(op, "f.ne")) { FieldInt &x = F(1, 0), &y = F(2, 1); ct_begin(); sink = x != y; ct_end(); return 0; }
	if (!std::strcmp(op, "f.replace")) { FieldInt &x = F(1, 0), &y = F(2, 1); std::uint32_t e = en(3); ct_begin(); x.replace(y, e); ct_end(); return 0; }
	if (!std::strcmp(op, "f.dbl")) { FieldInt &x = F(1, 0); ct_begin(); x.multiply2(); ct_end(); return 0; }
	if (!std::strcmp(op, "f.sqr")) { FieldInt &x = F(1, 0); ct_begin(); x.square(); ct_end(); return 0; }
	if (!std::strcmp(op, "f.recip")) { FieldInt &x = F(1, 0); ct_begin(); x.reciprocal(); ct_end(); return 0; }
	if (!std::strcmp(op, "f.tobytes")) { FieldInt &x = F(1, 0); ct_begin(); x.getBigEndianBytes(raw); ct_end(); return 0; }
	if (!std::strcmp(op, "p.add")) { CurvePoint &p = P(1, 0), &q = P(4, 1); ct_begin(); p.add(q); ct_end(); return 0; }
	if (!std::strcmp(op, "p.twice")) { CurvePoint &p = P(1, 0); ct_begin(); p.twice(); ct_end(); return 0; }
	if (!std::strcmp(op, "p.norm")) { CurvePoint &p = P(1, 0); ct_begin(); p.normalize(); ct_end(); return 0; }
	if (!std::strcmp(op, "p.mul")) { CurvePoint &p = P(1, 0); Uint256 &n = U(4, 1); ct_begin(); p.multiply(n); ct_end(); return 0; }
	if (!std::strcmp(op, "p.replace")) { CurvePoint &p = P(1, 0), &q = P(4, 1); std::uint32_t e = en(7); ct_begin(); p.replace(q, e); ct_end(); return 0; }
	if (!std::strcmp(op, "p.iszero")) { CurvePoint &p = P(1, 0); ct_begin(); sink = p.isZero(); ct_end(); return 0; }
	if (!std::strcmp(op, "p.isoncurve")) { CurvePoint &p = P(1, 0); ct_begin(); sink = p.isOnCurve(); ct_end(); return 0; }
	if (!std::strcmp(op, "p.eq")) { CurvePoint &p = P(1, 0), &q = P(4, 1); ct_begin(); sink = p == q; ct_end(); return 0; }
	if (!std::strcmp(op, "p.ne")) { CurvePoint &p = P(1, 0), &q = P(4, 1); ct_begin(); sink = p != q; ct_end(); return 0; }
	if (!std::strcmp(op, "p.compress")) { CurvePoint &p = P(1, 0); ct_begin(); p.toCompressedPoint(raw); ct_end(); return 0; }
	if (!std::strcmp(op, "p.pub")) { Uint256 &n = U(1, 1); ct_begin(); CurvePoint &p = *new (store[0]) CurvePoint(CurvePoint::privateExponentToPublicPoint(n)); (void)p; ct_end(); return 0; }
	if (!std::strcmp(op, "e.sign")) { Uint256 &k = U(1, 0), &n = U(3, 1), &r = *new (store[3]) Uint256, &s = *new (store[4]) Uint256; bytes(2, raw, 32); Sha256Hash &h = *new (store[2]) Sha256Hash(raw, 32); ct_begin(); sink = Ecdsa::sign(k, h, n, r, s); ct_end(); return 0; }
	if (!std::strcmp(op, "e.signh")) { Uint256 &k = U(1, 0), &r = *new (store[3]) Uint256, &s = *new (store[4]) Uint256; bytes(2, raw, 32); Sha256Hash &h = *new (store[2]) Sha256Hash(raw, 32); ct_begin(); sink = Ecdsa::signWithHmacNonce(k, h, r, s); ct_end(); return 0; }
	if (!std::strcmp(op, "h.bytes")) { bytes(1, raw, 32); ct_begin(); new (store[2]) Sha256Hash(raw, 32); ct_end(); return 0; }
	if (!std::strcmp(op, "h.eq")) { bytes(1, raw, 32); bytes(2, raw2, 32); Sha256Hash &x = *new (store[2]) Sha256Hash(raw, 32), &y = *new (store[3]) Sha256Hash(raw2, 32); ct_begin(); sink = x == y; ct_end(); return 0; }
	if (!std::strcmp(op, "h.ne")) { bytes(1, raw, 32); bytes(2, raw2, 32); Sha256Hash &x = *new (store[2]) Sha256Hash(raw, 32), &y = *new (store[3]) Sha256Hash(raw2, 32); ct_begin(); sink = x != y; ct_end(); return 0; }
	return 3;  // unknown operation
}
