// What each operation of the register machine means, one lane at a time and without the library: the node every replica is compared with.
#pragma once
#include "vec_ops.hh"
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <vector>
template <class T> struct VecRef {
	static constexpr bool flt = std::is_floating_point<T>::value; static constexpr int bits = 8 * sizeof(T);
	typedef typename std::conditional<bits == 8, uint8_t, typename std::conditional<bits == 16, uint16_t, typename std::conditional<bits == 32, uint32_t, uint64_t>::type>::type>::type UT;
	typedef typename std::conditional<flt, double, __int128>::type Wide;
	static Wide small(Wide x, int q) {
		Wide lim = flt ? Wide(2048) : Wide((__int128)1 << (bits < 32 ? 20 : bits / q - 2));
		if (flt) x = Wide(double(std::trunc(double(x))));
		return x < -lim ? -lim : x > lim ? lim : x;
	}
	static T wrap(Wide x) { if (flt) return T(x); UT u = UT((unsigned __int128)(__int128)x); T t; memcpy(&t, &u, sizeof t); return t; }
	static Wide clip(Wide x) { Wide hi = Wide((unsigned __int128)1 << (bits - 1)) - 1, lo = -hi - 1; return x < lo ? lo : x > hi ? hi : x; }
	static void step(void *regs, int W, int op, int d, int a, int b, int c, int imm) {
		std::vector<T> S[4]; std::vector<UT> U[4];
		for (int i = 0; i < 4; ++i) { S[i].resize(W); U[i].resize(W); memcpy(S[i].data(), (char *)regs + sizeof(T) * W * i, sizeof(T) * W); memcpy(U[i].data(), (char *)regs + sizeof(T) * W * (4 + i), sizeof(T) * W); }
		d &= 3; const int dd = d; a &= 3; b &= 3; c &= 3; std::vector<T> s = S[d]; std::vector<UT> u = U[d];
		auto bitsof = [](T x) { UT y; memcpy(&y, &x, sizeof y); return y; };
		auto valueof = [](UT y) { T x; memcpy(&x, &y, sizeof y); return x; };
		for (int i = 0; i < W; ++i) {
			Wide x = Wide(S[a][i]), y = Wide(S[b][i]), z = Wide(S[c][i]); UT ua = U[a][i], ub = U[b][i], uc = U[c][i]; const UT yes = UT(~UT(0));
			switch (op) {
			case DUP: s[i] = T(imm); break;
			case ZERO: s[i] = 0; break;
			case MOVE: s[i] = S[a][i]; u[i] = ub; break;
			case NEG: s[i] = wrap(-small(x, 1)); break;
			case ABS: x = small(x, 1); s[i] = wrap(x < 0 ? -x : x); break;
			case QABS: if (!flt) s[i] = wrap(clip(x < 0 ? -x : x)); break;
			case SIGNUM: s[i] = x > 0 ? 1 : x < 0 ? -1 : 0; break;
			case ADD: s[i] = wrap(small(x, 1) + small(y, 1)); break;
			case SUB: s[i] = wrap(small(x, 1) - small(y, 1)); break;
			case MUL: s[i] = wrap(small(x, 2) * small(y, 2)); break;
			case QADD: if (!flt && bits < 32) s[i] = wrap(clip(x + y)); break;
			case QSUB: if (!flt && bits < 32) s[i] = wrap(clip(x - y)); break;
			case MIN: s[i] = wrap(x < y ? x : y); break;
			case MAX: s[i] = wrap(x > y ? x : y); break;
			case CLAMP: { Wide p = Wide(T(imm)), q = Wide(T((c) * 3 - 5)); if (q < p) std::swap(p, q); s[i] = wrap(x < p ? p : x > q ? q : x); break; }
			case SIGN: x = small(x, 1); s[i] = wrap(y > 0 ? x : y < 0 ? -x : Wide(0)); break;
			case CGTZ: u[i] = x > 0 ? yes : 0; break;
			case CEQZ: u[i] = x == 0 ? yes : 0; break;
			case CLTZ: u[i] = x < 0 ? yes : 0; break;
			case CLEZ: u[i] = x <= 0 ? yes : 0; break;
			case CGT: u[i] = x > y ? yes : 0; break;
			case CEQ: u[i] = x == y ? yes : 0; break;
			case SHUF: s[i] = S[a][size_t(ub % UT(W))]; break;
			case ROTL: case ROTR: { int k = imm % W; if (op == ROTR) k = -k; s[i] = S[a][size_t(((i - k) % W + W) % W)]; break; }
			case SELECT: s[i] = z > 0 ? S[a][i] : S[b][i]; break;
			case U_NOT: u[i] = UT(~ua); break;
			case U_ORR: u[i] = UT(ua | ub); break;
			case U_AND: u[i] = UT(ua & ub); break;
			case U_EOR: u[i] = UT(ua ^ ub); break;
			case U_BIC: u[i] = UT(ua & UT(~ub)); break;
			case U_BSL: u[i] = UT((ua & ub) | (UT(~ua) & uc)); break;
			case U_QSUB: if (!flt && bits < 32) u[i] = ua > ub ? UT(ua - ub) : 0; break;
			case U_CGT: if (!flt) u[i] = ua > ub ? yes : 0; break;
			case U_SHUF: u[i] = U[a][size_t(ub % UT(W))]; break;
			case MASK: u[i] = bitsof(S[a][i]); break;
			case UNMASK: if (!flt) s[i] = valueof(ua); break;
			case COPYSIGN: if (flt) { x = small(x, 1); y = small(y, 1) + Wide(0.5); x = x < 0 ? -x : x; s[i] = wrap(y < 0 ? -x : x); } break;
			}
		}
		if (op == SORT) { s = S[a]; std::stable_sort(s.begin(), s.end()); }
		if (op == ORDER) { std::vector<int> p(W); for (int i = 0; i < W; ++i) p[i] = i; std::stable_sort(p.begin(), p.end(), [&](int i, int j) { return S[a][i] < S[a][j]; }); for (int i = 0; i < W; ++i) u[i] = UT(p[i]); }
		if (flt) for (int i = 0; i < W; ++i) if (s[i] == 0) s[i] = 0;
		memcpy((char *)regs + sizeof(T) * W * dd, s.data(), sizeof(T) * W); memcpy((char *)regs + sizeof(T) * W * (4 + dd), u.data(), sizeof(T) * W);
	}
};
