// Replays of key derivation with a chosen HMAC-SHA-512 value (linked with --wrap): values that no feasible input produces.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include "Sha512.hpp"
extern const unsigned char *verif_hmac512;
extern int verif_hmac512_hits;
extern "C" void realHmac(const std::uint8_t *k, std::size_t kn, const std::uint8_t *m, std::size_t n, std::uint8_t *out) asm("__real__ZN6Sha5127getHmacEPKhmS1_mPh");
extern "C" void wrapHmac(const std::uint8_t *k, std::size_t kn, const std::uint8_t *m, std::size_t n, std::uint8_t *out) asm("__wrap__ZN6Sha5127getHmacEPKhmS1_mPh");
extern "C" void wrapHmac(const std::uint8_t *k, std::size_t kn, const std::uint8_t *m, std::size_t n, std::uint8_t *out) {
	realHmac(k, kn, m, n, out);
	if (verif_hmac512 != nullptr) {
		std::memcpy(out, verif_hmac512, 64);
		verif_hmac512_hits++;
	}
}
