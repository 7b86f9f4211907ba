// Replay driver: runs the real C++ library on concrete inputs.
// Protocol: one command per line ("op arg arg ..."), one result line per command.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"
#include "Uint256.hpp"

using std::string;
using std::vector;
typedef std::vector<uint8_t> Bytes;
typedef std::vector<string> Args;

static int hexd(char c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	std::abort();
}

static Bytes bytes(const string &s) {  // "-" is the empty string
	Bytes r;
	if (s == "-") return r;
	for (size_t i = 0; i + 1 < s.size(); i += 2)
		r.push_back(static_cast<uint8_t>(hexd(s[i]) * 16 + hexd(s[i + 1])));
	return r;
}

static string hex(const uint8_t *p, size_t n) {
	static const char *D = "0123456789abcdef";
	string r;
	for (size_t i = 0; i < n; i++) { r += D[p[i] >> 4]; r += D[p[i] & 15]; }
	return r.empty() ? string("-") : r;
}

static string num(uint64_t x) { char b[32]; std::sprintf(b, "%llx", (unsigned long long)x); return b; }
static uint64_t unum(const string &s) { return std::strtoull(s.c_str(), nullptr, 16); }

static void setwords(uint32_t v[8], const string &s) {  // 64 hex digits, most significant first
	for (int i = 0; i < 8; i++)
		v[i] = static_cast<uint32_t>(std::strtoul(s.substr((7 - i) * 8, 8).c_str(), nullptr, 16));
}

static string getwords(const uint32_t v[8]) {
	string r;
	char b[16];
	for (int i = 7; i >= 0; i--) { std::sprintf(b, "%08x", v[i]); r += b; }
	return r;
}

static Uint256 U(const string &s) { Uint256 r; setwords(r.value, s); return r; }
static FieldInt F(const string &s) { Uint256 z; FieldInt r(z); setwords(r.value, s); return r; }
static string S(const Uint256 &u) { return getwords(u.value); }
static string S(const FieldInt &u) { return getwords(u.value); }
static CurvePoint P(const Args &a, size_t i) {
	CurvePoint r(F(a[i]), F(a[i + 1]));
	r.z = F(a[i + 2]);
	return r;
}
static string S(const CurvePoint &p) { return S(p.x) + " " + S(p.y) + " " + S(p.z); }
static string zstr(const string &s) { Bytes b = bytes(s); return string(b.begin(), b.end()); }
static string tohex(const string &s) { return hex(reinterpret_cast<const uint8_t *>(s.data()), s.size()); }
static Sha256Hash H(const string &s) { Bytes b = bytes(s); return Sha256Hash(b.data(), 32); }

// exact-size heap copies, so that the address sanitizer sees overruns
struct Buf {
	uint8_t *p; size_t n;
	explicit Buf(const Bytes &b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) std::memcpy(p, b.data(), n); }
	~Buf() { delete[] p; }
};
struct CStr {
	char *p;
	explicit CStr(const string &s) : p(new char[s.size() + 1]) { std::memcpy(p, s.c_str(), s.size() + 1); }
	~CStr() { delete[] p; }
};

const unsigned char *verif_hmac512 = nullptr;  // see hmacwrap.cpp
int verif_hmac512_hits = 0;

static string xkey(const ExtendedPrivateKey &k) {
	return S(k.privateKey) + " " + S(k.publicKey) + " " + hex(k.chainCode, 32) + " " + num(k.depth) + " " + num(k.index) + " " + hex(k.parentPubkeyHash, 4);
}

static string run(const string &op, const Args &a) {
	if (op == "u.add" || op == "u.sub") {
		Uint256 x = U(a[0]), y = U(a[1]);
		uint32_t c = op == "u.add" ? x.add(y, unum(a[2])) : x.subtract(y, unum(a[2]));
		return S(x) + " " + num(c) + " " + S(y);
	}
	if (op == "u.shl1") { Uint256 x = U(a[0]); uint32_t c = x.shiftLeft1(); return S(x) + " " + num(c); }
	if (op == "u.shr1") { Uint256 x = U(a[0]); x.shiftRight1(unum(a[1])); return S(x); }
	if (op == "u.replace") { Uint256 x = U(a[0]), y = U(a[1]); x.replace(y, unum(a[2])); return S(x) + " " + S(y); }
	if (op == "u.swap") { Uint256 x = U(a[0]), y = U(a[1]); x.swap(y, unum(a[2])); return S(x) + " " + S(y); }
	if (op == "u.replaceself") { Uint256 x = U(a[0]); x.replace(x, unum(a[1])); return S(x); }
	if (op == "u.swapself") { Uint256 x = U(a[0]); x.swap(x, unum(a[1])); return S(x); }
	if (op == "u.cmp") {
		Uint256 x = U(a[0]), y = U(a[1]);
		string r = num(x == y) + " " + num(x != y) + " " + num(x < y) + " " + num(x <= y) + " " + num(x > y) + " " + num(x >= y);
		return r + " " + S(x) + " " + S(y);
	}
	if (op == "u.cmpself") {
		Uint256 x = U(a[0]); const Uint256 &y = x;
		return num(x == y) + " " + num(x != y) + " " + num(x < y) + " " + num(x <= y) + " " + num(x > y) + " " + num(x >= y);
	}
	if (op == "f.cmp") {
		FieldInt x = F(a[0]), y = F(a[1]);
		return num(x == y) + " " + num(x != y) + " " + num(x < y) + " " + num(x <= y) + " " + num(x > y) + " " + num(x >= y);
	}
	if (op == "u.recip") { Uint256 x = U(a[0]), m = U(a[1]); x.reciprocal(m); return S(x) + " " + S(m); }
	if (op == "u.hex") { CStr s(zstr(a[0])); return S(Uint256(s.p)); }
	if (op == "u.bytes") { Buf b(bytes(a[0])); return S(Uint256(b.p)); }
	if (op == "u.tobytes") { uint8_t *b = new uint8_t[32]; U(a[0]).getBigEndianBytes(b); string r = hex(b, 32); delete[] b; return r; }
	if (op == "u.fromfield") { FieldInt f = F(a[0]); return S(Uint256(f)); }
	if (op == "f.hex") { CStr s(zstr(a[0])); return S(FieldInt(s.p)); }
	if (op == "f.tobytes") { uint8_t b[32]; F(a[0]).getBigEndianBytes(b); return hex(b, 32); }
	if (op == "f.new") { Uint256 x = U(a[0]); return S(FieldInt(x)); }
	if (op == "f.add") { FieldInt x = F(a[0]), y = F(a[1]); x.add(y); return S(x) + " " + S(y); }
	if (op == "f.sub") { FieldInt x = F(a[0]), y = F(a[1]); x.subtract(y); return S(x) + " " + S(y); }
	if (op == "f.mul") { FieldInt x = F(a[0]), y = F(a[1]); x.multiply(y); return S(x) + " " + S(y); }
	if (op == "f.mulself") { FieldInt x = F(a[0]); x.multiply(x); return S(x); }
	if (op == "f.dbl") { FieldInt x = F(a[0]); x.multiply2(); return S(x); }
	if (op == "f.sqr") { FieldInt x = F(a[0]); x.square(); return S(x); }
	if (op == "f.recip") { FieldInt x = F(a[0]); x.reciprocal(); return S(x); }
	if (op == "f.replace") { FieldInt x = F(a[0]), y = F(a[1]); x.replace(y, unum(a[2])); return S(x) + " " + S(y); }
	if (op == "p.add") { CurvePoint p = P(a, 0), q = P(a, 3); p.add(q); return S(p) + " " + S(q); }
	if (op == "p.addself") { CurvePoint p = P(a, 0); p.add(p); return S(p); }
	if (op == "p.twice") { CurvePoint p = P(a, 0); p.twice(); return S(p); }
	if (op == "p.mul") { CurvePoint p = P(a, 0); Uint256 n = U(a[3]); p.multiply(n); return S(p) + " " + S(n); }
	if (op == "p.norm") { CurvePoint p = P(a, 0); p.normalize(); return S(p); }
	if (op == "p.replace") { CurvePoint p = P(a, 0), q = P(a, 3); p.replace(q, unum(a[6])); return S(p) + " " + S(q); }
	if (op == "p.iszero") return num(P(a, 0).isZero());
	if (op == "p.isoncurve") return num(P(a, 0).isOnCurve());
	if (op == "p.cmp") { CurvePoint p = P(a, 0), q = P(a, 3); return num(p == q) + " " + num(p != q); }
	if (op == "p.compress") { uint8_t *b = new uint8_t[33]; P(a, 0).toCompressedPoint(b); string r = hex(b, 33); delete[] b; return r; }
	if (op == "p.pub") return S(CurvePoint::privateExponentToPublicPoint(U(a[0])));
	if (op == "e.sign") {
		Uint256 r = U(string(64, 'a')), s = U(string(64, '5'));
		bool ok = Ecdsa::sign(U(a[0]), H(a[1]), U(a[2]), r, s);
		return num(ok) + " " + S(r) + " " + S(s);
	}
	if (op == "e.signh") {
		Uint256 r = U(string(64, 'a')), s = U(string(64, '5'));
		bool ok = Ecdsa::signWithHmacNonce(U(a[0]), H(a[1]), r, s);
		return num(ok) + " " + S(r) + " " + S(s);
	}
	if (op == "e.verify") return num(Ecdsa::verify(P(a, 0), H(a[3]), U(a[4]), U(a[5])));
	if (op == "sha256") { Buf b(bytes(a[0])); return hex(Sha256::getHash(b.p, b.n).value, 32); }
	if (op == "sha256d") { Buf b(bytes(a[0])); return hex(Sha256::getDoubleHash(b.p, b.n).value, 32); }
	if (op == "sha256.inc") { Sha256 h; for (const string &s : a) { Buf b(bytes(s)); h.append(b.p, b.n); } return hex(h.getHash().value, 32); }
	if (op == "sha256.rep") {  // total length, byte, chunk length: long messages
		uint64_t n = unum(a[0]); size_t c = unum(a[2]);
		Bytes b(c, static_cast<uint8_t>(unum(a[1])));
		Sha256 h;
		while (n > 0) { size_t k = n < c ? n : c; h.append(b.data(), k); n -= k; }
		return hex(h.getHash().value, 32);
	}
	if (op == "rep") {  // algorithm, total length (zero bytes): very long messages in one call
		size_t n = unum(a[1]);
		void *m = mmap(nullptr, n + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m == MAP_FAILED) return "?";
		const uint8_t *p = static_cast<const uint8_t *>(m);
		uint8_t r[64];
		string res = "?";
		if (a[0] == "sha256") res = hex(Sha256::getHash(p, n).value, 32);
		else if (a[0] == "sha512") { Sha512::getHash(p, n, r); res = hex(r, 64); }
		else if (a[0] == "rmd160") { Ripemd160::getHash(p, n, r); res = hex(r, 20); }
		else if (a[0] == "keccak") { Keccak256::getHash(p, n, r); res = hex(r, 32); }
		munmap(m, n + 4096);
		return res;
	}
	if (op == "sha256.poke" || op == "sha512.poke") {  // offset of the length counter, its value, message: the state after that many bytes ending in this message
		Bytes b = bytes(a[2]);
		uint64_t v = unum(a[1]);
		if (op == "sha256.poke") {
			Sha256 h; h.append(b.data(), b.size());
			std::memcpy(reinterpret_cast<char *>(&h) + unum(a[0]), &v, 8);
			return hex(h.getHash().value, 32);
		}
		Sha512 h; h.append(b.data(), b.size());
		std::memcpy(reinterpret_cast<char *>(&h) + unum(a[0]), &v, 8);
		uint8_t r[64]; h.getHash(r); return hex(r, 64);
	}
	if (op == "sha256.cont") {  // chunks, each followed by a digest of a copy
		Sha256 h; string r;
		for (const string &s : a) { Buf b(bytes(s)); h.append(b.p, b.n); Sha256 c(h); r += hex(c.getHash().value, 32); }
		return r.empty() ? "-" : r;
	}
	if (op == "sha512") { Buf b(bytes(a[0])); uint8_t r[64]; Sha512::getHash(b.p, b.n, r); return hex(r, 64); }
	if (op == "sha512.inc") { Sha512 h; for (const string &s : a) { Buf b(bytes(s)); h.append(b.p, b.n); } uint8_t r[64]; h.getHash(r); return hex(r, 64); }
	if (op == "rmd160") { Buf b(bytes(a[0])); uint8_t r[20]; Ripemd160::getHash(b.p, b.n, r); return hex(r, 20); }
	if (op == "keccak") { Buf b(bytes(a[0])); uint8_t r[32]; Keccak256::getHash(b.p, b.n, r); return hex(r, 32); }
	if (op == "hmac256") { Buf k(bytes(a[0])), m(bytes(a[1])); return hex(Sha256::getHmac(k.p, k.n, m.p, m.n).value, 32); }
	if (op == "hmac512") { Buf k(bytes(a[0])), m(bytes(a[1])); uint8_t r[64]; Sha512::getHmac(k.p, k.n, m.p, m.n, r); return hex(r, 64); }
	if (op == "h.bytes") { Buf b(bytes(a[0])); return hex(Sha256Hash(b.p, 32).value, 32); }
	if (op == "h.str") { CStr s(zstr(a[0])); return hex(Sha256Hash(s.p).value, 32); }
	if (op == "h.cmp") { Sha256Hash x = H(a[0]), y = H(a[1]); return num(x == y) + " " + num(x != y); }
	if (op == "b.pkh") { Buf b(bytes(a[0])); char *o = new char[36]; Base58Check::pubkeyHashToBase58Check(b.p, unum(a[1]), o); string r = tohex(o); delete[] o; return r; }
	if (op == "b.priv") { char *o = new char[53]; Base58Check::privateKeyToBase58Check(U(a[0]), unum(a[1]), unum(a[2]) != 0, o); string r = tohex(o); delete[] o; return r; }
	if (op == "b.xprv") {
		Buf cc(bytes(a[1])), pp(bytes(a[4]));
		ExtendedPrivateKey k(U(a[0]), cc.p, unum(a[2]), unum(a[3]), pp.p);
		char *o = new char[112]; Base58Check::extendedPrivateKeyToBase58Check(k, o); string r = tohex(o); delete[] o; return r;
	}
	if (op == "b.dpkh") {
		CStr s(zstr(a[0])); uint8_t *o = new uint8_t[20]; std::memset(o, 0xA5, 20); uint8_t v = 0x5A;
		bool ok = Base58Check::pubkeyHashFromBase58Check(s.p, o, &v);
		string r = num(ok) + " " + hex(o, 20) + " " + num(v);
		uint8_t o2[20]; std::memset(o2, 0xA5, 20);
		bool ok2 = Base58Check::pubkeyHashFromBase58Check(s.p, o2, nullptr);
		if (ok2 != ok || std::memcmp(o, o2, 20) != 0) r += " nullversion-differs";
		delete[] o;
		return r;
	}
	if (op == "b.dpriv") {
		CStr s(zstr(a[0])); Uint256 k = U(string(64, 'a')); uint8_t v = 0x5A; unsigned char cb = unum(a[1]) & 1; bool c = cb != 0;
		bool ok = Base58Check::privateKeyFromBase58Check(s.p, k, &v, &c);
		string r = num(ok) + " " + S(k) + " " + num(v) + " " + num(c);
		Uint256 k2 = U(string(64, 'a'));
		bool ok2 = Base58Check::privateKeyFromBase58Check(s.p, k2, nullptr, nullptr);
		if (ok2 != ok || k2 != k) r += " null-differs";
		return r;
	}
	if (op == "b.dxprv") {
		CStr s(zstr(a[0])); ExtendedPrivateKey k; std::memset(k.privateKey.value, 0xA5, 32); std::memset(k.chainCode, 0x5A, 32); k.depth = 0x77; k.index = 0x12345678; std::memset(k.parentPubkeyHash, 0x33, 4);
		bool ok = Base58Check::extendedPrivateKeyFromBase58Check(s.p, k);
		return num(ok) + " " + xkey(k);
	}
	if (op == "x.new") { Buf cc(bytes(a[1])), pp(bytes(a[4])); return xkey(ExtendedPrivateKey(U(a[0]), cc.p, unum(a[2]), unum(a[3]), pp.p)); }
	if (op == "x.empty") return xkey(ExtendedPrivateKey());
	if (op == "x.childh") {  // HMAC value, then as x.child
		Bytes v = bytes(a[0]);
		verif_hmac512 = v.data(); verif_hmac512_hits = 0;
		string r = run("x.child", Args(a.begin() + 1, a.end()));
		verif_hmac512 = nullptr;
		return verif_hmac512_hits == 0 ? "?" : r;
	}
	if (op == "x.child") {  // privateKey pubx puby pubz chainCode depth index ppkh childIndex: state set field by field
		ExtendedPrivateKey k;
		k.privateKey = U(a[0]); k.publicKey = P(a, 1);
		Bytes cc = bytes(a[4]); std::memcpy(k.chainCode, cc.data(), 32);
		k.depth = unum(a[5]); k.index = unum(a[6]);
		Bytes pp = bytes(a[7]); std::memcpy(k.parentPubkeyHash, pp.data(), 4);
		return xkey(k.getChildKey(unum(a[8])));
	}
	if (op == "k.const") return S(Uint256::ZERO) + " " + S(Uint256::ONE) + " " + S(CurvePoint::ORDER) + " " + S(CurvePoint::FI_ZERO) + " " + S(CurvePoint::FI_ONE)
		+ " " + S(CurvePoint::A) + " " + S(CurvePoint::B) + " " + S(CurvePoint::G) + " " + S(CurvePoint::ZERO) + " " + tohex(Base58Check::ALPHABET);
	return "?";
}

int main() {
	string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line);
		string op, x;
		is >> op;
		Args a;
		while (is >> x) a.push_back(x);
		std::cout << run(op, a) << std::endl;
	}
	return 0;
}
