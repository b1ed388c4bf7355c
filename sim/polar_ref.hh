// Textbook min-sum polar decoding in the arithmetic of the code under test, for use as an oracle.
#pragma once
#include "sim.hh"
namespace sim {
// 8-bit values saturate at +-127; floating point is used with values that make every operation exact
template <class V> struct Soft;
template <> struct Soft<int8_t> {
	typedef int T; bool lanes; mutable bool sat = false;
	explicit Soft(bool lanes) : lanes(lanes) {}
	static int sg(int v) { return (v > 0) - (v < 0); }
	int prod(int a, int b) const { return sg(a) * sg(b) * std::min(std::abs(std::max(a, -127)), std::abs(std::max(b, -127))); }
	int madd(int h, int b, int c) const { int v = h * (lanes ? std::max(b, -127) : b) + c; if (v > 127 || v < -127) sat = true; return v > 127 ? 127 : v < -127 ? -127 : v; }
};
template <> struct Soft<float> {
	typedef float T; bool lanes; bool sat = false;
	explicit Soft(bool lanes) : lanes(lanes) {}
	static int sg(float v) { return (v > 0) - (v < 0); }
	float prod(float a, float b) const { return float(sg(a) * sg(b)) * std::min(std::fabs(a), std::fabs(b)); }
	float madd(int h, float b, float c) const { return float(h) * b + c; }
};
inline bool frozen_at(const std::vector<uint32_t> &f, int i) { return (f[i / 32] >> (i % 32)) & 1; }
inline int open_bits(const std::vector<uint32_t> &f, int n) { int k = 0; for (int i = 0; i < n; ++i) k += !frozen_at(f, i); return k; }
// x_i is the product of all u_j whose index contains i
inline std::vector<int> polar_transform(std::vector<int> u) {
	int n = int(u.size()); if (n == 1) return u;
	std::vector<int> a(u.begin(), u.begin() + n / 2), b(u.begin() + n / 2, u.end());
	a = polar_transform(a); b = polar_transform(b);
	for (int i = 0; i < n / 2; ++i) u[i] = a[i] * b[i], u[i + n / 2] = b[i];
	return u;
}
template <class V> struct SC {
	typedef typename Soft<V>::T T;
	Soft<V> ar; const std::vector<uint32_t> &f; std::vector<int> msg; bool tie = false;
	explicit SC(const std::vector<uint32_t> &f) : ar(false), f(f) {}
	std::vector<int> go(const std::vector<T> &s, int lo) {
		int n = int(s.size());
		if (n == 1) {
			if (frozen_at(f, lo)) return { 1 };
			int h = Soft<V>::sg(s[0]); tie |= !h; msg.push_back(h); return { h };
		}
		std::vector<T> t(n / 2);
		for (int i = 0; i < n / 2; ++i) t[i] = ar.prod(s[i], s[i + n / 2]);
		auto a = go(t, lo);
		for (int i = 0; i < n / 2; ++i) t[i] = ar.madd(a[i], s[i], s[i + n / 2]);
		auto b = go(t, lo + n / 2);
		std::vector<int> h(n);
		for (int i = 0; i < n / 2; ++i) h[i] = a[i] * b[i], h[i + n / 2] = b[i];
		return h;
	}
};
// what sits at each position: 0 frozen, 1 message, 2 parity over the message bits since the previous parity
inline std::vector<uint8_t> polar_roles(const std::vector<uint32_t> &f, int n, bool parity, int stride, int first) {
	std::vector<uint8_t> r(n); int left = first;
	for (int i = 0; i < n; ++i) if (!frozen_at(f, i)) { if (!parity || left) { r[i] = 1; --left; } else { r[i] = 2; left = stride; } }
	return r;
}
inline std::vector<int> polar_place(const std::vector<uint8_t> &roles, const std::vector<int> &msg) {
	std::vector<int> u(roles.size(), 1); int k = 0, p = 1;
	for (size_t i = 0; i < roles.size(); ++i) if (roles[i] == 1) p *= u[i] = msg[k++]; else if (roles[i] == 2) { u[i] = p; p = 1; }
	return u;
}
// the textbook list decoder: penalties at the leaves, or at the roots of frozen subtrees of up to prune bits
template <class V> struct SCL {
	typedef typename Soft<V>::T T;
	struct Path { double metric = 0; std::vector<int8_t> msg; int parity = 1; };
	Soft<V> ar; const std::vector<uint8_t> &roles; size_t L; int prune; bool ambiguous = false, dropped_perfect = false;
	std::vector<Path> p;
	SCL(const std::vector<uint8_t> &roles, int L, int prune) : ar(true), roles(roles), L(size_t(L)), prune(prune), p(1) {}
	typedef std::vector<std::vector<T>> Softs; typedef std::vector<std::vector<int8_t>> Hards;
	// s[k] belongs to path k on entry; returns for each surviving path where it came from
	std::vector<int> go(const Softs &s, int lo, Hards &hard) {
		int n = int(s[0].size());
		bool all = n <= prune; for (int i = lo; all && i < lo + n; ++i) all = !roles[i];
		std::vector<int> map;
		if (all || (n == 1 && !roles[lo])) {
			hard.assign(p.size(), std::vector<int8_t>(n, 1));
			for (size_t k = 0; k < p.size(); ++k) { for (T v : s[k]) if (v < 0) p[k].metric -= v; map.push_back(int(k)); }
			return map;
		}
		if (n == 1) {
			struct Fork { double m; int from, bit; }; std::vector<Fork> fk;
			for (size_t k = 0; k < p.size(); ++k) for (int bit : { 1, -1 }) {
				if (roles[lo] == 2 && bit != p[k].parity) continue;
				T v = s[k][0]; fk.push_back({ p[k].metric + (v * bit < 0 ? std::fabs(double(v)) : 0), int(k), bit });
			}
			std::stable_sort(fk.begin(), fk.end(), [](const Fork &a, const Fork &b) { return a.m < b.m; });
			if (fk.size() > L) { if (fk[L - 1].m == fk[L].m) ambiguous = true; if (fk[L].m == 0) dropped_perfect = true; fk.resize(L); }
			std::vector<Path> q; hard.clear();
			for (auto &x : fk) {
				Path y = p[x.from]; y.metric = x.m;
				if (roles[lo] == 2) y.parity = 1; else { y.msg.push_back(int8_t(x.bit)); y.parity *= x.bit; }
				q.push_back(y); map.push_back(x.from); hard.push_back({ int8_t(x.bit) });
			}
			p.swap(q);
			return map;
		}
		int h = n / 2;
		Softs t(s.size(), std::vector<T>(h));
		for (size_t k = 0; k < s.size(); ++k) for (int i = 0; i < h; ++i) t[k][i] = ar.prod(s[k][i], s[k][i + h]);
		Hards a, b;
		std::vector<int> m1 = go(t, lo, a);
		t.assign(m1.size(), std::vector<T>(h));
		for (size_t k = 0; k < m1.size(); ++k) for (int i = 0; i < h; ++i) t[k][i] = ar.madd(a[k][i], s[m1[k]][i], s[m1[k]][i + h]);
		std::vector<int> m2 = go(t, lo + h, b);
		hard.assign(m2.size(), std::vector<int8_t>(n));
		for (size_t k = 0; k < m2.size(); ++k) { for (int i = 0; i < h; ++i) hard[k][i] = int8_t(a[m2[k]][i] * b[k][i]), hard[k][i + h] = b[k][i]; map.push_back(m1[m2[k]]); }
		return map;
	}
};
// the penalty a list decoder charges a given message, decisions forced
template <class V> double path_metric(const std::vector<typename Soft<V>::T> &s, const std::vector<int> &u, const std::vector<uint8_t> &roles, int prune, bool *sat) {
	typedef typename Soft<V>::T T;
	Soft<V> ar(true); double metric = 0;
	std::function<void(const std::vector<T> &, int, std::vector<int> &)> go = [&](const std::vector<T> &s, int lo, std::vector<int> &hard) {
		int n = int(s.size());
		bool all = n <= prune; for (int i = lo; all && i < lo + n; ++i) all = !roles[i];
		if (all) { hard.assign(n, 1); for (T v : s) if (v < 0) metric -= v; return; }
		if (n == 1) { hard = { u[lo] }; if (s[0] * u[lo] < 0) metric += std::fabs(double(s[0])); return; }
		std::vector<T> t(n / 2); std::vector<int> a, b;
		for (int i = 0; i < n / 2; ++i) t[i] = ar.prod(s[i], s[i + n / 2]);
		go(t, lo, a);
		for (int i = 0; i < n / 2; ++i) t[i] = ar.madd(a[i], s[i], s[i + n / 2]);
		go(t, lo + n / 2, b);
		hard.resize(n);
		for (int i = 0; i < n / 2; ++i) hard[i] = a[i] * b[i], hard[i + n / 2] = b[i];
	};
	std::vector<int> h; go(s, 0, h);
	if (sat) *sat |= ar.sat;
	return metric;
}
// frozen sets of all shapes
inline std::vector<uint32_t> make_frozen(int level, bool decreasing_only, bool last_open) {
	int n = 1 << level; std::vector<uint8_t> z(n); Rng r = rng();
	auto freeze_worst = [&](int count) {
		std::vector<double> w(level), sc(n); for (auto &x : w) x = 1 + 8 * r.unit();
		double base = 1 + r.unit(); bool beta = r.below(2); if (beta) { double v = 1; for (auto &x : w) { x = v * (1 + 1e-3 * r.unit()); v *= base; } }
		std::vector<int> o(n);
		for (int i = 0; i < n; ++i) { o[i] = i; for (int b = 0; b < level; ++b) if ((i >> b) & 1) sc[i] += w[b]; }
		std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return sc[a] < sc[b]; });
		for (int i = 0; i < count; ++i) z[o[i]] = 1;
	};
	switch (decreasing_only ? 0 : weighted({ 4, 2, 3, 2, 1 })) {
	case 0: freeze_worst(edgy(0, n - 1)); break;
	case 1: { int d = 1 + int(draw(15)); for (auto &x : z) x = int(r.below(16)) < d; break; }
	case 2: { // aligned blocks of several sizes
		for (int i = 0; i < n;) { int b = 1 << r.below(uint32_t(std::min(level, 7) + 1)); while (i % b || i + b > n) b /= 2; int kind = int(r.below(3)); for (int j = i; j < i + b; ++j) z[j] = kind == 0 ? 1 : kind == 1 ? 0 : r.below(2); i += b; } break; }
	case 3: { // reliability order with exceptions
		freeze_worst(range(0, n - 1)); for (int i : r.sample(n, range(1, std::max(1, n / 16)))) z[i] ^= 1; break; }
	default: { int k = edgy(1, std::min(n, 12)); for (auto &x : z) x = 1; for (int i : r.sample(n, k)) z[i] = 0; break; }
	}
	if (last_open) z[n - 1] = 0;
	std::vector<uint32_t> f((n + 31) / 32); for (int i = 0; i < n; ++i) f[i / 32] |= uint32_t(z[i]) << (i % 32);
	return f;
}
}
