// Independent field arithmetic for the oracles: shift-and-xor products tabulated from the polynomial alone.
#pragma once
#include "sim.hh"
namespace sim {
struct RefField {
	int m, N; unsigned poly; std::vector<uint32_t> exp, log;
	RefField(int m, unsigned poly) : m(m), N((1 << m) - 1), poly(poly), exp(2 * ((1 << m) - 1)), log(1 << m) {
		uint32_t a = 1;
		for (int i = 0; i < N; ++i) { exp[i] = exp[i + N] = a; log[a] = i; a <<= 1; if (a >> m) a ^= poly; }
		if (a != 1) harness_error("polynomial 0x%x of degree %d is not primitive", poly, m);
	}
	uint32_t mul(uint32_t a, uint32_t b) const { return a && b ? exp[log[a] + log[b]] : 0; }
	uint32_t inv(uint32_t a) const { return exp[N - log[a]]; }
	uint32_t pow(int64_t e) const { e %= N; if (e < 0) e += N; return exp[e]; }
	// value of the polynomial whose coefficients, highest first, are given
	uint32_t eval(const std::vector<uint32_t> &w, uint32_t x) const { uint32_t r = 0; for (uint32_t c : w) r = mul(r, x) ^ c; return r; }
};
}
