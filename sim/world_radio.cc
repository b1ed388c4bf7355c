// A downlink with LDPC-coded frames (C08). Real: encoder and decoder. Simulated: weather (noise, fades, erasures,
// jamming), receiver power, repeat requests with combining, trial budgets.
#include "codecs.hh"
#include "channel.hh"
#include "ldpc_safe.hh"
using namespace sim;

namespace {
struct Checks { // the code's check equations, straight from the table
	const LdpcTable &t; int R; std::vector<std::vector<int>> rows;
	explicit Checks(const LdpcTable &t) : t(t), R(t.N - t.K), rows(R) {
		int q = R / t.M, base = 0; const int *p = t.POS;
		for (int g = 0; t.LEN[g]; ++g) for (int r = 0; r < t.LEN[g]; ++r, base += t.M, p += t.DEG[g])
			for (int d = 0; d < t.DEG[g]; ++d) for (int s = 0; s < t.M; ++s) rows[(p[d] + q * s) % R].push_back(base + s);
		for (int i = 0; i < R; ++i) { rows[i].push_back(t.K + i); if (i) rows[i].push_back(t.K + i - 1); }
	}
	// -1: fine, -2: an undecided bit, else the number of a violated equation
	int verify(const int8_t *v) const {
		for (int i = 0; i < t.N; ++i) if (!v[i]) return -2;
		for (int i = 0; i < R; ++i) { bool s = false; for (int x : rows[i]) s ^= v[x] < 0; if (s) return i; }
		return -1;
	}
	// iterative erasure resolution; number of sweeps needed, or -1
	int peel(const int8_t *v) const {
		std::vector<uint8_t> known(t.N); int left = 0; for (int i = 0; i < t.N; ++i) { known[i] = v[i] != 0; left += !known[i]; }
		for (int sweep = 0; left; ++sweep) {
			std::vector<int> fix;
			for (int i = 0; i < R; ++i) { int n = 0, w = -1; for (int x : rows[i]) if (!known[x]) { ++n; w = x; } if (n == 1) fix.push_back(w); }
			if (fix.empty()) return -1;
			for (int x : fix) if (!known[x]) { known[x] = 1; --left; }
			if (!left) return sweep + 1;
		}
		return 0;
	}
};
struct Downlink {
	const LdpcCodec &c; Checks ck; Obj enc, dec; Channel ch; int frames, N, K; std::string nm; std::vector<int8_t> last;
	Downlink(const LdpcCodec &c, const std::string &isa) : c(c), ck(c.t), enc(c.enc, "encoder"), dec(c.dec, "decoder"), frames(c.t.N > 10000 ? range(2, 4) : range(4, 24)), N(c.t.N), K(c.t.K) {
		nm = std::string(c.t.name) + " beta=" + std::to_string(c.beta) + " " + isa; log("%s", nm.c_str()); shape(digest(nm.data(), nm.size()));
	}
	// sure: must decode to what was sent
	void receive(const std::vector<int8_t> &soft, const std::vector<int> &sent, int trials, bool sure, bool erasures_only) {
		Buf<int8_t> m(K, 64, draw(4), "message"), p(N - K, 64, draw(4), "parity");
		memcpy(m.data(), soft.data(), K); memcpy(p.data(), soft.data() + K, N - K);
		int before = ck.verify(soft.data());
		int got = c.decode(dec(), m.data(), p.data(), trials);
		std::vector<int8_t> out(N); memcpy(out.data(), m.data(), K); memcpy(out.data() + K, p.data(), N - K);
		release(p.m); release(m.m);
		int after_ = ck.verify(out.data());
		int err = 0, und = 0; for (int i = 0; i < N; ++i) { err += out[i] * sent[i] < 0; und += !out[i]; }
		log("decoded trials=%d left=%d state=%d errors=%d undecided=%d", trials, got, after_, err, und);
		shape(uint64_t(got + 2) * 4 + (after_ == -1) + 2 * (err == 0));
		count("frames"); if (got >= 0) count("frames_decoded"); else count("frames_given_up");
		if (got >= 0 && err) probe("converged_to_another_codeword");
		if (got > trials || (got >= 0) != (after_ == -1))
			violate("untruthful", "%s: returned %d of %d trials but %s", nm.c_str(), got, trials, after_ == -1 ? "the word left behind is valid" : after_ == -2 ? "a bit is undecided" : "a check equation is violated");
		if (before == -1) {
			probe("valid_word_received");
			if (got != trials) violate("spent-trials", "%s: a valid word cost %d of %d trials", nm.c_str(), trials - got, trials);
			if (memcmp(out.data(), soft.data(), N)) violate("touched-valid", "%s: a valid word was changed", nm.c_str());
		}
		if (sure && (err || und)) violate("not-decoded", "%s: a frame from a good link was left with %d wrong and %d undecided bits after %d trials", nm.c_str(), err, und, trials);
		if (erasures_only && err) violate("wrong-from-erasures", "%s: %d bits are wrong although the channel only erased", nm.c_str(), err);
	}
	void frame() {
		Span sp;
		std::vector<int> bits(N); Rng r = rng();
		Buf<int8_t> m(K, 64, draw(4), "message"), p(N - K, 64, draw(4), "parity");
		for (int i = 0; i < K; ++i) m[i] = bits[i] = r.below(2) ? 1 : -1;
		if (r.zero) for (int i = 0; i < K; ++i) m[i] = bits[i] = 1;
		c.encode(enc(), m.data(), p.data());
		std::vector<int8_t> word(N); memcpy(word.data(), m.data(), K); memcpy(word.data() + K, p.data(), N - K);
		release(p.m); release(m.m);
		for (int i = 0; i < N; ++i) {
			if (word[i] != 1 && word[i] != -1) violate("encoder", "%s: symbol %d is %d", nm.c_str(), i, word[i]);
			if (i < K && word[i] != bits[i]) violate("encoder", "%s: the encoder changed message bit %d", nm.c_str(), i);
			bits[i] = word[i];
		}
		int v = ck.verify(word.data());
		if (v != -1) violate("encoder", "%s: check equation %d of the encoded frame is violated", nm.c_str(), v);
		std::vector<int8_t> s(N);
		double safe = safe_sigma(c.t.name) * (c.beta > 1 ? .93 : 1);
		switch (weighted({ 4, 3, 4, 2, 3 })) {
		case 0: { // clear sky
			double sg = safe * (5 + draw(16)) / 20, a = 4 / (sg * sg);
			for (int i = 0; i < N; ++i) s[i] = int8_t(ch.clip(a * (bits[i] + sg * ch.r.gauss())));
			if (coin()) for (auto &x : s) x = std::max<int8_t>(x, -127);
			fault("noise"); log("clear sky"); receive(s, bits, 25, true, false); break; }
		case 1: { // near or beyond the threshold
			double sg = safe * (10 + draw(30)) / 10, a = 4 / (sg * sg);
			for (int i = 0; i < N; ++i) s[i] = int8_t(ch.clip(a * (bits[i] + sg * ch.r.gauss())));
			fault("heavy_noise"); receive(s, bits, pick(std::vector<int>{ 0, 1, 2, 5, 25, 50 }), false, false); break; }
		case 2: { // erasures only
			int amp = edgy(1, 127); for (int i = 0; i < N; ++i) s[i] = int8_t(bits[i] * (coin_amp ? 1 + int(ch.r.below(amp)) : amp));
			int R = N - K, k = edgy(1, R / (1 + int(draw(4))));
			if (coin()) { int b = range(0, N - k); for (int i = b; i < b + k; ++i) s[i] = 0; fault("erasure_burst"); }
			else { for (int i : ch.r.sample(N, k)) s[i] = 0; fault("erasures"); }
			bool ok = false; int trials = pick(std::vector<int>{ 1, 3, 10, 25 });
			if (c.beta == 0) { int need = ck.peel(s.data()); if (need >= 0 && need <= 12) { ok = true; trials = 1 + need * 12; probe("resolvable_erasures"); } log("erasures resolvable in %d", need); }
			receive(s, bits, trials, ok, true); break; }
		case 3: { // no damage at all, any amplitudes
			int amp = edgy(1, 127); for (int i = 0; i < N; ++i) s[i] = int8_t(bits[i] * (1 + int(ch.r.below(amp)))); if (coin()) for (int i = 0; i < N; ++i) if (bits[i] < 0 && !ch.r.below(9)) s[i] = -128;
			receive(s, bits, edgy(0, 25), true, false); break; }
		default: { s = ch.pass<int8_t>(bits, 3); receive(s, bits, edgy(0, 25), false, false); break; }
		}
		if (!last.empty() && chance(1, 5)) { // the same noise again over a new frame, combined
			for (int i = 0; i < N; ++i) s[i] = int8_t(ch.clip(double(s[i]) + last[i])); fault("combining"); receive(s, bits, range(0, 10), false, false);
		}
		last = s;
		if (chance(1, 8)) { (coin() ? enc : dec).crash(); fault("crash"); last.clear(); }
		if (--frames > 0) after(1000, [this] { frame(); });
	}
	bool coin_amp = coin();
};
}
WORLD(C08) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))];
	int w = int(draw(uint32_t(b.ldpc.size())));
	if (b.ldpc[w].t.N > 10000 && !chance(1, thorough() ? 4 : 12)) { std::vector<int> small; for (int i = 0; i < int(b.ldpc.size()); ++i) if (b.ldpc[i].t.N <= 10000) small.push_back(i); w = pick(small); } // the big tables are slow to check
	Downlink x(b.ldpc[w], b.isa);
	after(1, [&] { x.frame(); }); run_events(100000);
	sample("%s", x.nm.c_str());
}
