// Entry points for the symbolic executor: each calls the public API on operands in memory.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include "Base58Check.hpp"
#include "CurvePoint.hpp"
#include "Ecdsa.hpp"
#include "ExtendedPrivateKey.hpp"
#include "FieldInt.hpp"
#include "Keccak256.hpp"
#include "Ripemd160.hpp"
#include "Sha256.hpp"
#include "Sha256Hash.hpp"
#include "Sha512.hpp"
#include "Uint256.hpp"

typedef std::uint32_t u32;
typedef std::uint8_t u8;
typedef std::size_t sz;

extern "C" {

u32 h_u_add(Uint256 *x, const Uint256 *y, u32 en) { return x->add(*y, en); }
u32 h_u_add1(Uint256 *x, const Uint256 *y) { return x->add(*y); }
u32 h_u_sub(Uint256 *x, const Uint256 *y, u32 en) { return x->subtract(*y, en); }
u32 h_u_sub1(Uint256 *x, const Uint256 *y) { return x->subtract(*y); }
u32 h_u_shl1(Uint256 *x) { return x->shiftLeft1(); }
void h_u_shr1(Uint256 *x, u32 en) { x->shiftRight1(en); }
void h_u_shr1d(Uint256 *x) { x->shiftRight1(); }
void h_u_replace(Uint256 *x, const Uint256 *y, u32 en) { x->replace(*y, en); }
void h_u_swap(Uint256 *x, Uint256 *y, u32 en) { x->swap(*y, en); }
void h_u_recip(Uint256 *x, const Uint256 *m) { x->reciprocal(*m); }
u32 h_u_eq(const Uint256 *x, const Uint256 *y) { return *x == *y ? 1 : 0; }
u32 h_u_ne(const Uint256 *x, const Uint256 *y) { return *x != *y ? 1 : 0; }
u32 h_u_lt(const Uint256 *x, const Uint256 *y) { return *x < *y ? 1 : 0; }
u32 h_u_le(const Uint256 *x, const Uint256 *y) { return *x <= *y ? 1 : 0; }
u32 h_u_gt(const Uint256 *x, const Uint256 *y) { return *x > *y ? 1 : 0; }
u32 h_u_ge(const Uint256 *x, const Uint256 *y) { return *x >= *y ? 1 : 0; }
void h_u_hex(Uint256 *out, const char *s) { Uint256 r(s); *out = r; }
void h_u_bytes(Uint256 *out, const u8 *b) { Uint256 r(b); *out = r; }
void h_u_tobytes(const Uint256 *x, u8 *b) { x->getBigEndianBytes(b); }
void h_u_default(Uint256 *out) { Uint256 r; *out = r; }

void h_f_new(FieldInt *out, const Uint256 *x) { FieldInt r(*x); *out = r; }
void h_f_hex(FieldInt *out, const char *s) { FieldInt r(s); *out = r; }
void h_u_fromfield(Uint256 *out, const FieldInt *x) { Uint256 r(*x); *out = r; }
void h_f_add(FieldInt *x, const FieldInt *y) { x->add(*y); }
void h_f_sub(FieldInt *x, const FieldInt *y) { x->subtract(*y); }
void h_f_dbl(FieldInt *x) { x->multiply2(); }
void h_f_sqr(FieldInt *x) { x->square(); }
void h_f_mul(FieldInt *x, const FieldInt *y) { x->multiply(*y); }
void h_f_recip(FieldInt *x) { x->reciprocal(); }
void h_f_replace(FieldInt *x, const FieldInt *y, u32 en) { x->replace(*y, en); }
void h_f_tobytes(const FieldInt *x, u8 *b) { x->getBigEndianBytes(b); }
u32 h_f_eq(const FieldInt *x, const FieldInt *y) { return *x == *y ? 1 : 0; }
u32 h_f_ne(const FieldInt *x, const FieldInt *y) { return *x != *y ? 1 : 0; }
u32 h_f_lt(const FieldInt *x, const FieldInt *y) { return *x < *y ? 1 : 0; }
u32 h_f_le(const FieldInt *x, const FieldInt *y) { return *x <= *y ? 1 : 0; }
u32 h_f_gt(const FieldInt *x, const FieldInt *y) { return *x > *y ? 1 : 0; }
u32 h_f_ge(const FieldInt *x, const FieldInt *y) { return *x >= *y ? 1 : 0; }

void h_p_new(CurvePoint *out, const FieldInt *x, const FieldInt *y) { CurvePoint r(*x, *y); *out = r; }
void h_p_add(CurvePoint *p, const CurvePoint *q) { p->add(*q); }
void h_p_twice(CurvePoint *p) { p->twice(); }
void h_p_mul(CurvePoint *p, const Uint256 *n) { p->multiply(*n); }
void h_p_norm(CurvePoint *p) { p->normalize(); }
void h_p_replace(CurvePoint *p, const CurvePoint *q, u32 en) { p->replace(*q, en); }
u32 h_p_iszero(const CurvePoint *p) { return p->isZero() ? 1 : 0; }
u32 h_p_isoncurve(const CurvePoint *p) { return p->isOnCurve() ? 1 : 0; }
u32 h_p_eq(const CurvePoint *p, const CurvePoint *q) { return *p == *q ? 1 : 0; }
u32 h_p_ne(const CurvePoint *p, const CurvePoint *q) { return *p != *q ? 1 : 0; }
void h_p_compress(const CurvePoint *p, u8 *out) { p->toCompressedPoint(out); }
void h_p_pub(CurvePoint *out, const Uint256 *k) { *out = CurvePoint::privateExponentToPublicPoint(*k); }

u32 h_e_sign(const Uint256 *d, const Sha256Hash *h, const Uint256 *k, Uint256 *r, Uint256 *s) { return Ecdsa::sign(*d, *h, *k, *r, *s) ? 1 : 0; }
u32 h_e_signh(const Uint256 *d, const Sha256Hash *h, Uint256 *r, Uint256 *s) { return Ecdsa::signWithHmacNonce(*d, *h, *r, *s) ? 1 : 0; }
u32 h_e_verify(const CurvePoint *p, const Sha256Hash *h, const Uint256 *r, const Uint256 *s) { return Ecdsa::verify(*p, *h, *r, *s) ? 1 : 0; }

void h_sha256_init(Sha256 *h) { new (h) Sha256(); }
void h_sha256_append(Sha256 *h, const u8 *m, sz n) { h->append(m, n); }
void h_sha256_final(Sha256 *h, u8 *out) { Sha256Hash r = h->getHash(); std::memcpy(out, r.value, 32); }
void h_sha256(const u8 *m, sz n, u8 *out) { Sha256Hash r = Sha256::getHash(m, n); std::memcpy(out, r.value, 32); }
void h_sha256d(const u8 *m, sz n, u8 *out) { Sha256Hash r = Sha256::getDoubleHash(m, n); std::memcpy(out, r.value, 32); }
void h_hmac256(const u8 *k, sz kn, const u8 *m, sz n, u8 *out) { Sha256Hash r = Sha256::getHmac(k, kn, m, n); std::memcpy(out, r.value, 32); }
void h_sha512_init(Sha512 *h) { new (h) Sha512(); }
void h_sha512_append(Sha512 *h, const u8 *m, sz n) { h->append(m, n); }
void h_sha512_final(Sha512 *h, u8 *out) { h->getHash(out); }
void h_sha512(const u8 *m, sz n, u8 *out) { Sha512::getHash(m, n, out); }
void h_hmac512(const u8 *k, sz kn, const u8 *m, sz n, u8 *out) { Sha512::getHmac(k, kn, m, n, out); }
void h_rmd160(const u8 *m, sz n, u8 *out) { Ripemd160::getHash(m, n, out); }
void h_keccak(const u8 *m, sz n, u8 *out) { Keccak256::getHash(m, n, out); }
void h_h_bytes(const u8 *b, u8 *out) { Sha256Hash h(b, 32); std::memcpy(out, h.value, 32); }
void h_h_str(const char *s, u8 *out) { Sha256Hash h(s); std::memcpy(out, h.value, 32); }
u32 h_h_eq(const Sha256Hash *a, const Sha256Hash *b) { return *a == *b ? 1 : 0; }
u32 h_h_ne(const Sha256Hash *a, const Sha256Hash *b) { return *a != *b ? 1 : 0; }

void h_b_pkh(const u8 *h, u8 ver, char *out) { Base58Check::pubkeyHashToBase58Check(h, ver, out); }
void h_b_priv(const Uint256 *k, u8 ver, u8 comp, char *out) { Base58Check::privateKeyToBase58Check(*k, ver, comp != 0, out); }
void h_b_xprv(const ExtendedPrivateKey *k, char *out) { Base58Check::extendedPrivateKeyToBase58Check(*k, out); }
u32 h_b_dpkh(const char *s, u8 *out, u8 *ver) { return Base58Check::pubkeyHashFromBase58Check(s, out, ver) ? 1 : 0; }
u32 h_b_dpriv(const char *s, Uint256 *out, u8 *ver, u8 *comp) { return Base58Check::privateKeyFromBase58Check(s, *out, ver, reinterpret_cast<bool *>(comp)) ? 1 : 0; }
u32 h_b_dxprv(const char *s, ExtendedPrivateKey *out) { return Base58Check::extendedPrivateKeyFromBase58Check(s, *out) ? 1 : 0; }

void h_x_empty(ExtendedPrivateKey *out) { *out = ExtendedPrivateKey(); }
void h_x_new(ExtendedPrivateKey *out, const Uint256 *k, const u8 *cc, u8 dep, u32 idx, const u8 *pp) { *out = ExtendedPrivateKey(*k, cc, dep, idx, pp); }
void h_x_child(const ExtendedPrivateKey *k, u32 i, ExtendedPrivateKey *out) { *out = k->getChildKey(i); }

const Uint256 *h_k_uzero() { return &Uint256::ZERO; }
const Uint256 *h_k_uone() { return &Uint256::ONE; }
const Uint256 *h_k_order() { return &CurvePoint::ORDER; }
const FieldInt *h_k_fizero() { return &CurvePoint::FI_ZERO; }
const FieldInt *h_k_fione() { return &CurvePoint::FI_ONE; }
const FieldInt *h_k_a() { return &CurvePoint::A; }
const FieldInt *h_k_b() { return &CurvePoint::B; }
const CurvePoint *h_k_g() { return &CurvePoint::G; }
const CurvePoint *h_k_pzero() { return &CurvePoint::ZERO; }
const char *h_k_alphabet() { return Base58Check::ALPHABET; }

// object layouts
sz h_size_uint256() { return sizeof(Uint256); }
sz h_size_fieldint() { return sizeof(FieldInt); }
sz h_size_point() { return sizeof(CurvePoint); }
sz h_size_hash() { return sizeof(Sha256Hash); }
sz h_size_sha256() { return sizeof(Sha256); }
sz h_size_sha512() { return sizeof(Sha512); }
sz h_size_xkey() { return sizeof(ExtendedPrivateKey); }
sz h_off_xk_priv() { return offsetof(ExtendedPrivateKey, privateKey); }
sz h_off_xk_pub() { return offsetof(ExtendedPrivateKey, publicKey); }
sz h_off_xk_cc() { return offsetof(ExtendedPrivateKey, chainCode); }
sz h_off_xk_depth() { return offsetof(ExtendedPrivateKey, depth); }
sz h_off_xk_index() { return offsetof(ExtendedPrivateKey, index); }
sz h_off_xk_pp() { return offsetof(ExtendedPrivateKey, parentPubkeyHash); }

}
