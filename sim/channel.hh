// A radio channel: turns transmitted +-1 values into received soft values and lets the choice stream break them.
#pragma once
#include "sim.hh"
namespace sim {
struct Channel {
	Rng r; int lo, hi;            // range of the receiver's soft values
	explicit Channel(int lo = -128, int hi = 127) : r(rng()), lo(lo), hi(hi) {}
	int clip(double v) const { return v > hi ? hi : v < lo ? lo : int(std::lrint(v)); }
	// sigma < 0: chosen here
	template <class T> std::vector<T> pass(const std::vector<int> &bits, int faults = 3) {
		int n = int(bits.size()); std::vector<T> s(n);
		double amp, sigma;
		switch (weighted({ 4, 3, 2, 1, 1 })) {
		case 0: amp = 1 + draw(8); sigma = amp * (1 + draw(12)) / 10.0; break;   // coarse values: many ties
		case 1: amp = std::min(hi, 16 + int(draw(48))); sigma = amp * draw(14) / 10.0; break;
		case 2: amp = hi; sigma = 0; break;                                     // full scale
		case 3: amp = hi * 0.9; sigma = amp * 0.5; break;                       // clipping
		default: amp = 1; sigma = 0; break;
		}
		if (sigma > 0) fault("noise");
		for (int i = 0; i < n; ++i) s[i] = T(clip(amp * bits[i] + sigma * r.gauss()));
		for (int f = int(draw(uint32_t(faults + 1))); f > 0; --f) hit(s);
		return s;
	}
	template <class T> void hit(std::vector<T> &s) {
		Span sp; int n = int(s.size());
		switch (weighted({ 3, 2, 2, 2, 2, 2, 1, 1 })) {
		case 0: { int b = range(0, n - 1), l = edgy(1, n - b); for (int i = b; i < b + l; ++i) s[i] = 0; fault("erasure_burst"); break; }
		case 1: { int k = range(1, std::max(1, n / 2)); for (int i : r.sample(n, k)) s[i] = 0; fault("erasures"); break; }
		case 2: { int b = range(0, n - 1), l = edgy(1, n - b); for (int i = b; i < b + l; ++i) s[i] = T(clip(-double(s[i]))); fault("phase_slip"); break; }
		case 3: { int k = range(1, std::max(1, n / 4)); for (int i : r.sample(n, k)) s[i] = T(r.below(2) ? lo : hi); fault("impulse"); break; }
		case 4: { int k = range(1, std::max(1, n / 2)); for (int i : r.sample(n, k)) s[i] = T(clip(-double(s[i]))); fault("sign_errors"); break; }
		case 5: { int v = coin() ? lo : hi; int b = range(0, n - 1), l = edgy(1, n - b); for (int i = b; i < b + l; ++i) s[i] = T(v); fault("jamming"); break; }
		case 6: { double g = (1 + draw(20)) / 8.0; for (auto &v : s) v = T(clip(double(v) * g)); fault("gain"); break; }
		case 7: { for (auto &v : s) v = T(lo + int(r.below(uint32_t(hi - lo) + 1))); fault("pure_noise"); break; }
		}
	}
};
}
