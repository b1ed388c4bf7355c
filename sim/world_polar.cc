// A link that adapts level and frozen set from frame to frame (C09 successive cancellation, C10 list decoding).
// Real: encoders and decoders. Simulated: channel, rate adaptation, receiver power.
#include "codecs.hh"
#include "channel.hh"
#include "polar_ref.hh"
using namespace sim;

namespace {
template <class V> struct Link {
	typedef typename Soft<V>::T T;
	Channel ch; std::string nm; int frames;
	std::string what; // of the current frame
	bool clean = false, erased = false;
	Link(int frames) : frames(frames) {}
	static const bool flt = std::is_floating_point<V>::value;
	// puts the word through the weather
	std::vector<V> weather(const std::vector<int> &x, int lim) {
		int n = int(x.size()); std::vector<V> s(n); clean = erased = false;
		switch (weighted({ 2, 2, 6, 2 })) {
		case 0: { int a = edgy(1, lim); for (int i = 0; i < n; ++i) s[i] = V(x[i] * (1 + int(ch.r.below(uint32_t(a))))); if (!flt && chance(1, 4)) for (int i = 0; i < n; ++i) if (x[i] < 0 && !ch.r.below(5)) s[i] = V(-128); clean = true; log("clean signs"); break; }
		case 1: { int a = edgy(1, lim); bool vary = coin(); for (int i = 0; i < n; ++i) s[i] = V(x[i] * (vary ? 1 + int(ch.r.below(uint32_t(a))) : a));
			int k = edgy(1, n); if (coin()) { int b = range(0, n - k); for (int i = b; i < b + k; ++i) s[i] = 0; fault("erasure_burst"); } else { for (int i : ch.r.sample(n, k)) s[i] = 0; fault("erasures"); }
			erased = true; break; }
		case 2: { double amp = edgy(2, lim), sg = amp * (1 + draw(16)) / 10; for (int i = 0; i < n; ++i) s[i] = V(ch.clip(amp * x[i] + sg * ch.r.gauss())); fault("noise"); if (chance(1, 3)) ch.hit(s); break; }
		default: s = ch.pass<V>(x, 3); break;
		}
		return s;
	}
	template <class B> std::vector<int> to_int(const B *p, int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = int(p[i]); return v; }
	Mem put(const std::vector<int> &v) { Mem m = alloc(std::max<size_t>(1, v.size()) * sizeof(V), 64, sizeof(V) * draw(4), "values"); for (size_t i = 0; i < v.size(); ++i) ((V *)m.p)[i] = V(v[i]); return m; }
};

template <class V> struct ScLink : Link<V> {
	typedef Link<V> L; typedef typename L::T T; using L::nm; using L::frames; using L::ch; using L::what;
	const PolarCodec &c; Obj enc, sys, dec;
	ScLink(const PolarCodec &c, int frames, const std::string &isa) : L(frames), c(c), enc(c.enc, "encoder"), sys(c.sys, "systematic encoder"), dec(c.dec, "decoder") {
		nm = std::string(c.flt ? "float" : "int8") + " max level " + std::to_string(c.max_m) + " " + isa; log("%s", nm.c_str()); shape(digest(nm.data(), nm.size()));
		if (c.flt) { ch.lo = c.max_m > 10 ? -1000 : -4000; ch.hi = -ch.lo; }
	}
	void frame() {
		Span sp;
		int level = c.max_m > 14 ? range(15, c.max_m) : edgy(5, c.max_m), n = 1 << level;
		if (c.max_m == 14 && !chance(1, 12)) level = range(5, 11), n = 1 << level;
		bool systematic = chance(1, 3);
		auto f = make_frozen(level, systematic, false); int K = open_bits(f, n);
		what = nm + " level " + std::to_string(level) + " K=" + std::to_string(K); log("%s%s", what.c_str(), systematic ? " systematic" : ""); shape(uint64_t(level) << 32 | uint32_t(K));
		Rng r = rng(); std::vector<int> msg(K); for (auto &v : msg) v = r.next() & 1 ? -1 : 1;
		Buf<uint32_t> fr(f.size(), 64, 4 * draw(4), "frozen"); memcpy(fr.data(), f.data(), 4 * f.size());
		Mem m = L::put(msg), cw = alloc(size_t(n) * sizeof(V), 64, sizeof(V) * draw(4), "codeword");
		(systematic ? c.sysenc : c.encode)(systematic ? sys() : enc(), cw.p, m.p, fr.data(), level);
		auto x = L::to_int((V *)cw.p, n);
		release(cw); release(m);
		if (systematic) {
			auto u = polar_transform(x); int k = 0;
			for (int i = 0; i < n; ++i) {
				if (x[i] != 1 && x[i] != -1) violate("encoder", "%s: symbol %d is %d", what.c_str(), i, x[i]);
				if (frozen_at(f, i)) { if (u[i] != 1) violate("systematic", "%s: systematic word is not in the code (bit %d)", what.c_str(), i); }
				else if (x[i] != msg[k++]) violate("systematic", "%s: message bit %d is not at its position", what.c_str(), k - 1);
			}
			int j = 0; for (int i = 0; i < n; ++i) if (!frozen_at(f, i)) msg[j++] = u[i]; // what the decoder is to find
			probe("systematic_word");
		} else if (x != polar_transform(polar_place(polar_roles(f, n, false, 0, 0), msg))) violate("encoder", "%s: wrong codeword", what.c_str());
		auto s = L::weather(x, ch.hi);
		Mem in = alloc(size_t(n) * sizeof(V), 64, sizeof(V) * draw(4), "received"); memcpy(in.p, s.data(), in.n);
		Mem out = alloc(std::max<size_t>(1, size_t(K)) * sizeof(V), 64, sizeof(V) * draw(4), "message");
		c.decode(dec(), out.p, in.p, fr.data(), level);
		auto got = L::to_int((V *)out.p, K);
		release(out); release(in); release(fr.m);
		int wrong = 0, open = 0; for (int i = 0; i < K; ++i) { wrong += got[i] != msg[i]; open += !got[i]; if (got[i] < -1 || got[i] > 1) violate("value", "%s: message bit %d is %d", what.c_str(), i, got[i]); }
		log("wrong %d undecided %d", wrong, open); shape(uint64_t(wrong > 0) * 2 + (open > 0)); count("frames");
		if (L::clean && wrong) violate("clean-word", "%s: %d bits wrong although all signs were right", what.c_str(), wrong);
		if (L::erased) { for (int i = 0; i < K; ++i) if (got[i] && got[i] != msg[i]) violate("wrong-from-erasures", "%s: bit %d is wrong although the channel only erased", what.c_str(), i); if (!wrong) probe("erasures_resolved"); }
		SC<V> ref(f); std::vector<T> t(s.begin(), s.end()); ref.go(t, 0);
		if (ref.tie) probe("tie_at_zero");
		else {
			count("frames_compared");
			for (int i = 0; i < K; ++i) if (got[i] != ref.msg[i]) violate("not-textbook", "%s: message bit %d is %d, successive cancellation decides %d", what.c_str(), i, got[i], ref.msg[i]);
			if (ref.ar.sat) probe("saturated_frame_compared");
		}
		if (chance(1, 8)) { switch (draw(3)) { case 0: enc.crash(); break; case 1: sys.crash(); break; default: dec.crash(); } fault("crash"); }
		if (--frames > 0) after(1000, [this] { frame(); });
	}
};

template <class V> struct ListLink : Link<V> {
	typedef Link<V> L; typedef typename L::T T; using L::nm; using L::frames; using L::ch; using L::what;
	const ListCodec &c; Obj enc, penc, dec, pdec;
	ListLink(const ListCodec &c, int frames, const std::string &isa) : L(frames), c(c), enc(c.enc, "encoder"), penc(c.penc, "parity encoder"), dec(c.list, "list decoder"), pdec(c.pdec, "parity decoder") {
		nm = std::string(c.flt ? "float" : "int8") + " x" + std::to_string(c.lanes) + " max level " + std::to_string(c.max_m) + " " + isa; log("%s", nm.c_str()); shape(digest(nm.data(), nm.size()));
		if (c.flt) { ch.lo = -250; ch.hi = 250; }
	}
	void frame() {
		Span sp;
		int top = c.max_m; if (top > 8 && !chance(1, 8)) top = 8;
		int level = c.max_m > 13 ? range(12, c.max_m) : range(5, top), n = 1 << level, lanes = c.lanes;
		bool parity = coin();
		auto f = make_frozen(level, chance(1, 2), true); int open = open_bits(f, n);
		int stride = 0, first = 0;
		if (parity) { stride = edgy(0, std::min(open + 2, 64)); first = edgy(stride ? 0 : 1, std::min(open + 2, 80)); }
		auto roles = polar_roles(f, n, parity, stride, first);
		int K = 0; for (int x : roles) K += x == 1;
		if (!K) { parity = false; roles = polar_roles(f, n, false, 0, 0); K = open; } // nothing to send otherwise
		what = nm + " level " + std::to_string(level) + " K=" + std::to_string(K) + (parity ? " stride " + std::to_string(stride) + " first " + std::to_string(first) : ""); log("%s", what.c_str()); shape(uint64_t(level) << 32 | uint32_t(K)); shape(uint64_t(stride) << 16 | uint32_t(first));
		Rng r = rng(); std::vector<int> msg(K); for (auto &v : msg) v = r.next() & 1 ? -1 : 1;
		Buf<uint32_t> fr(f.size(), 64, 4 * draw(4), "frozen"); memcpy(fr.data(), f.data(), 4 * f.size());
		Mem m = L::put(msg), cw = alloc(size_t(n) * sizeof(V), 64, sizeof(V) * draw(4), "codeword");
		if (parity) c.par_encode(penc(), cw.p, m.p, fr.data(), level, stride, first); else c.encode(enc(), cw.p, m.p, fr.data(), level);
		auto x = L::to_int((V *)cw.p, n);
		release(cw); release(m);
		auto sent = polar_place(roles, msg);
		if (x != polar_transform(sent)) violate("encoder", "%s: wrong codeword", what.c_str());
		auto s = L::weather(x, c.flt || chance(1, 3) ? ch.hi : 12);
		if (c.flt) for (auto &v : s) if (v) v += V(int(ch.r.below(15)) - 7) / 16 * (std::fabs(v) >= 1); // fractions make ties rare and stay exact
		if (c.flt && coin()) { int e = int(pick(std::vector<int>{ 4, 8, 12, 20, 40, 80, -20 })); for (auto &v : s) v = std::ldexp(v, e); log("receiver gain 2^%d", e); shape(uint64_t(e + 100)); fault("gain_jump"); } // powers of two stay exact, too
		Mem in = alloc(size_t(n) * sizeof(V), 64, sizeof(V) * draw(4), "received"); memcpy(in.p, s.data(), in.n);
		Mem out = alloc(size_t(K) * lanes * sizeof(V), 64, 0, "messages");
		Buf<int> rank(lanes, 64, 4 * draw(3), "ranks"); bool ranks = !chance(1, 10);
		if (parity) c.par_decode(pdec(), ranks ? rank.data() : nullptr, out.p, in.p, fr.data(), level, stride, first); else c.list_decode(dec(), ranks ? rank.data() : nullptr, out.p, in.p, fr.data(), level);
		std::vector<std::vector<int>> row(lanes, std::vector<int>(K)); std::vector<int> rk(lanes);
		for (int k = 0; k < lanes; ++k) { rk[k] = ranks ? rank[k] : -1; for (int i = 0; i < K; ++i) row[k][i] = int(((V *)out.p)[size_t(i) * lanes + k]); }
		release(rank.m); release(out); release(in); release(fr.m);
		// as many candidates as there are messages, if those are fewer than lanes
		int real = K < 10 ? std::min(lanes, 1 << K) : lanes;
		for (int k = 0; k < real; ++k) for (int i = 0; i < K; ++i) if (row[k][i] != 1 && row[k][i] != -1) violate("value", "%s: bit %d of candidate %d is %d", what.c_str(), i, k, row[k][i]);
		if (ranks) for (int k = 0; k < lanes; ++k) if (rk[k] != (k ? rk[k - 1] : 0) && (!k || rk[k] != rk[k - 1] + 1)) violate("rank", "%s: rank %d of candidate %d follows %d", what.c_str(), rk[k], k, k ? rk[k - 1] : -1);
		for (int k = 0; k < real; ++k) for (int j = 0; j < k; ++j) if (row[k] == row[j]) violate("duplicate", "%s: candidates %d and %d are the same", what.c_str(), j, k);
		int found = -1; for (int k = 0; k < real && found < 0; ++k) if (row[k] == msg) found = k;
		log("sent message is candidate %d", found); shape(uint64_t(found + 2)); count("frames");
		if (L::clean && (found != 0 || (ranks && real > 1 && rk[1] == 0))) violate("clean-word", "%s: all signs were right but the sent message is candidate %d", what.c_str(), found);
		// the textbook decoder
		std::vector<T> t(s.begin(), s.end());
		SCL<V> leaf(roles, lanes, 1), node(roles, lanes, 32);
		typename SCL<V>::Hards hd; typename SCL<V>::Softs in1(1, t);
		leaf.go(in1, 0, hd); node.go(in1, 0, hd);
		bool sure = !leaf.ambiguous && !node.ambiguous && leaf.p.size() == node.p.size();
		for (size_t k = 0; sure && k < leaf.p.size(); ++k) sure = leaf.p[k].metric == node.p[k].metric && leaf.p[k].msg == node.p[k].msg;
		if (leaf.ambiguous) probe("tie_at_the_cut"); else if (!sure) probe("saturation_matters");
		if (sure) {
			count("frames_compared");
			if (int(leaf.p.size()) != real) harness_error("%s: reference keeps %zu candidates, expected %d", what.c_str(), leaf.p.size(), real);
			for (int k = 0; k < real;) { // groups of equal metric are sets
				int e = k; while (e < real && leaf.p[e].metric == leaf.p[k].metric) ++e;
				std::vector<std::vector<int>> a, b;
				for (int j = k; j < e; ++j) { a.push_back(row[j]); b.push_back(std::vector<int>(leaf.p[j].msg.begin(), leaf.p[j].msg.end())); if (ranks && j && (rk[j] == rk[j - 1]) != (j > k)) violate("rank", "%s: candidates %d and %d have ranks %d and %d but metrics %g and %g", what.c_str(), j - 1, j, rk[j - 1], rk[j], leaf.p[j - 1].metric, leaf.p[j].metric); }
				std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
				if (a != b) violate("not-textbook", "%s: candidate %d differs from the list decoder's of metric %g", what.c_str(), k, leaf.p[k].metric);
				k = e;
			}
		} else {
			// whatever survived must be in order
			double prev = -1; int known = 0;
			for (int k = 0; k < real && known == k; ++k) {
				auto u = polar_place(roles, row[k]); bool sat = false;
				double m1 = path_metric<V>(t, u, roles, 1, &sat), m2 = path_metric<V>(t, u, roles, 32, &sat);
				if (m1 != m2) break;
				if (m1 < prev) violate("order", "%s: candidate %d (metric %g) follows a less likely one (%g)", what.c_str(), k, m1, prev);
				if (ranks && k && (rk[k] == rk[k - 1]) != (m1 == prev)) violate("rank", "%s: candidates %d and %d have ranks %d and %d but metrics %g and %g", what.c_str(), k - 1, k, rk[k - 1], rk[k], prev, m1);
				prev = m1; ++known;
			}
			count("frames_order_checked");
		}
		if (L::erased && !leaf.dropped_perfect && !node.dropped_perfect) {
			probe("erasures_within_list");
			if (found < 0 || (ranks && rk[found] != 0)) violate("lost-after-erasures", "%s: the channel only erased, never more candidates than lanes were possible, but the sent message is candidate %d", what.c_str(), found);
		}
		if (chance(1, 8)) { switch (draw(4)) { case 0: enc.crash(); break; case 1: penc.crash(); break; case 2: dec.crash(); break; default: pdec.crash(); } fault("crash"); }
		if (--frames > 0) after(1000, [this] { frame(); });
	}
};
template <class X> void drive(X &x) { after(1, [&] { x.frame(); }); run_events(100000); sample("%s", x.what.c_str()); }
}
WORLD(C09) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))];
	int w = int(draw(uint32_t(b.polar.size() - 1)));
	if (chance(1, thorough() ? 150 : 400)) w = int(b.polar.size()) - 1; // a million symbols
	const PolarCodec &c = b.polar[w];
	int frames = c.max_m > 14 ? 1 : c.max_m >= 10 ? range(2, 6) : range(4, 20);
	if (c.flt) { ScLink<float> x(c, frames, b.isa); drive(x); } else { ScLink<int8_t> x(c, frames, b.isa); drive(x); }
}
WORLD(C10) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))];
	size_t w = draw(uint32_t(b.list.size() - 1)); if (chance(1, 200)) w = b.list.size() - 1; // tens of thousands of symbols
	const ListCodec &c = b.list[w];
	int frames = c.max_m > 13 ? 1 : c.lanes >= 32 ? range(1, 4) : range(2, 8);
	if (c.flt) { ListLink<float> x(c, frames, b.isa); drive(x); } else { ListLink<int8_t> x(c, frames, b.isa); drive(x); }
}
