// A beacon sending short messages over a radio channel (C06 Hadamard/simplex, C07 short BCH).
// Real: encoders and decoders. Simulated: channel, repeats and combining, power at either end.
#include "codecs.hh"
#include "channel.hh"
using namespace sim;

namespace {
bool par(unsigned x) { return __builtin_parity(x); }
// textbook definitions of the two families
int chip(const WordCodec &c, int msg, int i) {
	if (c.family[0] == 'h') return par(unsigned(msg) & unsigned(i | (1 << (c.k - 1)))) ? -1 : 1;
	return par(unsigned(msg) & unsigned(i + 1)) ? -1 : 1;
}
struct Beacon {
	const WordCodec &c; Obj enc, dec; Channel ch; int frames, kept = 0; std::vector<int8_t> last; std::vector<int> lastbits; int lastmsg = -1; std::string nm;
	Beacon(const WordCodec &c, int frames, const std::string &isa) : c(c), enc(c.enc, "encoder"), dec(c.dec, "decoder"), frames(frames) { nm = std::string(c.family) + " K=" + std::to_string(c.k) + " " + isa; log("%s", nm.c_str()); shape(digest(nm.data(), nm.size())); }
	// correlation with every message: by definition for short words, by the fast transform for long ones
	std::vector<long> correlate(const std::vector<int8_t> &s) const {
		int W = 1 << c.k; std::vector<long> v(W);
		if (c.k <= 6) { for (int m = 0; m < W; ++m) for (int i = 0; i < c.n; ++i) v[m] += chip(c, m, i) * s[i]; return v; }
		bool h = c.family[0] == 'h'; int S = h ? W / 2 : W; std::vector<long> t(S);
		for (int i = 0; i < c.n; ++i) t[h ? i : i + 1] = s[i];
		for (int b = 1; b < S; b *= 2) for (int i = 0; i < S; ++i) if (!(i & b)) { long x = t[i], y = t[i | b]; t[i] = x + y; t[i | b] = x - y; }
		for (int m = 0; m < W; ++m) v[m] = h ? (m & S ? -t[m & (S - 1)] : t[m]) : t[m];
		return v;
	}
	int judge(const std::vector<int8_t> &s, int sent) {
		Buf<int8_t> b(c.n, 64, draw(7), "code"); memcpy(b.data(), s.data(), c.n);
		int got = c.decode(dec(), b.data());
		release(b.m);
		int W = 1 << c.k; long best = 0; int who = -1; bool tie = true;
		auto all = correlate(s);
		for (int m = 0; m < W; ++m) {
			long v = all[m];
			if (v > best) { best = v; who = m; tie = false; } else if (v == best) tie = true;
		}
		int want = tie ? -1 : who;
		log("decoded %d expected %d sent %d", got, want, sent);
		shape(uint64_t(want + 1) * 3 + (want == sent));
		count("decisions"); if (want < 0) probe("declared_tie"); else if (want != sent) probe("mistaken_frame");
		if (got != want) violate("not-most-likely", "%s: decoded %d, the strictly most likely message is %d (sent %d): %s", nm.c_str(), got, want, sent, hex(s.data(), s.size()).c_str());
		return got;
	}
	void frame() {
		Span sp;
		int msg = edgy(0, (1 << c.k) - 1);
		Buf<int8_t> b(c.n, 64, draw(7), "code");
		c.encode(enc(), b.data(), msg);
		std::vector<int> bits(c.n);
		for (int i = 0; i < c.n; ++i) {
			bits[i] = b[i];
			if (b[i] != chip(c, msg, i)) violate("codeword", "%s: chip %d of message %d is %d", nm.c_str(), i, msg, b[i]);
		}
		release(b.m);
		auto s = ch.pass<int8_t>(bits);
		if (chance(1, 4)) { // exact tie: halfway between two codewords
			int other = int(draw(uint32_t(1 << c.k))); int a = 1 + int(draw(100));
			for (int i = 0; i < c.n; ++i) s[i] = int8_t(a * (bits[i] + chip(c, other, i)) / 2);
			if (coin()) { int i = int(draw(uint32_t(c.n))); s[i] = int8_t(s[i] + (coin() ? 1 : -1)); }
			fault("collision");
		}
		if (chance(1, c.k > 6 ? 5 : 14)) { // receiver in saturation
			for (int i = 0; i < c.n; ++i) s[i] = bits[i] > 0 ? 127 : -128;
			for (int k = int(draw(3)); k > 0; --k) { int i = int(draw(uint32_t(c.n))); s[i] = int8_t(s[i] > 0 ? -128 : 127); }
			fault("saturation");
		}
		if (chance(1, 12)) { for (auto &v : s) v = -128; fault("stuck_receiver"); }
		judge(s, msg);
		if (kept && chance(1, 3)) { // combine with the previous reception of the same slot
			for (int i = 0; i < c.n; ++i) s[i] = int8_t(ch.clip(double(s[i]) + last[i]));
			fault("combining"); judge(s, msg);
		}
		last = s; kept = 1;
		if (chance(1, 8)) { (coin() ? enc : dec).crash(); fault("crash"); kept = 0; }
		if (--frames > 0) after(1000, [this] { frame(); });
	}
};

struct Sbch {
	const SbchCodec &c; Obj enc, dec; Channel ch; int frames; std::string nm; int P;
	Sbch(const SbchCodec &c, int frames, const std::string &isa) : c(c), enc(c.enc, "encoder"), dec(c.dec, "decoder"), frames(frames), P(c.n - c.k) {
		nm = "BCH(" + std::to_string(c.n) + "," + std::to_string(c.k) + ") T=" + std::to_string(c.t) + " " + isa; log("%s", nm.c_str()); shape(digest(nm.data(), nm.size()));
	}
	int rem(int v) const { for (int i = c.n - 1; i >= P; --i) if ((unsigned(v) >> i) & 1) v ^= int(c.gen << (i - P)); return v; }
	bool codeword(int w) const { return w >= 0 && !(unsigned(w) >> c.n) && !rem(w); }
	// the codeword within the radius, or -1
	std::vector<int> syn; std::vector<int8_t> where; // unit syndromes and their inverse
	int nearest(int w) {
		int n = c.n, s = rem(w);
		if (!s) return w;
		if (syn.empty()) {
			where.assign(size_t(1) << P, -1);
			for (int i = 0; i < n; ++i) { syn.push_back(rem(1 << i)); where[syn[i]] = int8_t(i); }
		}
		if (where[s] >= 0) return w ^ (1 << where[s]);
		for (int a = 0; c.t >= 2 && a < n; ++a) {
			int d = where[s ^ syn[a]]; if (d >= 0) return w ^ (1 << a) ^ (1 << d);
		}
		for (int a = 0; c.t >= 3 && a < n; ++a) for (int b = 0; b < a; ++b) {
			int d = where[s ^ syn[a] ^ syn[b]]; if (d >= 0 && d != a && d != b) return w ^ (1 << a) ^ (1 << b) ^ (1 << d);
		}
		return -1;
	}
	long metric(const std::vector<int8_t> &s, int w) const { long v = 0; for (int i = 0; i < c.n; ++i) if ((w >> i) & 1) v -= s[i]; return v; }
	void hard(int w) {
		int got = c.hard(dec(), w), want = nearest(w);
		log("hard %x -> %x (%x)", w, got, want); count("hard_decisions");
		if (got != want && !(want < 0 && got == -1)) {
			if (want < 0 && codeword(got) && __builtin_popcount(unsigned(got ^ w)) <= c.t) harness_error("radius oracle");
			violate("hard-decision", "%s: word %x decoded to %x, expected %x", nm.c_str(), w, got, want);
		}
		if (want < 0) probe("beyond_radius");
	}
	void soft(const std::vector<int8_t> &s, int sent, bool clean) {
		Buf<int8_t> b(c.n, 64, draw(7), "code"); memcpy(b.data(), s.data(), c.n);
		int got = c.soft(dec(), b.data()); release(b.m);
		log("soft %s -> %x sent %x", hex(s.data(), s.size()).c_str(), got, sent); count("soft_decisions");
		shape(got == sent ? 1 : got < 0 ? 2 : 3);
		if (got != -1 && !codeword(got)) violate("not-a-codeword", "%s: %x from %s", nm.c_str(), got, hex(s.data(), s.size()).c_str());
		if (clean && got != sent) violate("clean-word", "%s: clean word of %x decoded to %x", nm.c_str(), sent, got);
		if (c.k <= 4) {
			long best = -1; int who = -1; bool tie = true;
			for (int m = 0; m < (1 << c.k); ++m) { int w = (m << P) | rem(m << P); long v = metric(s, w); if (who < 0 || v > best) { best = v; who = w; tie = false; } else if (v == best) tie = true; }
			int want = tie ? -1 : who; if (tie) probe("declared_tie");
			if (got != want) violate("not-most-likely", "%s: %s decoded to %x, most likely is %x", nm.c_str(), hex(s.data(), s.size()).c_str(), got, want);
			return;
		}
		int cw = 0; for (int i = 0; i < c.n; ++i) if (s[i] < 0) cw |= 1 << i;
		std::vector<int> ord(c.n); for (int i = 0; i < c.n; ++i) ord[i] = i;
		std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return std::abs(int(s[a])) < std::abs(int(s[b])); });
		// positions every correct choice of the T least reliable ones contains
		int sure = c.t, lim = std::abs(int(s[ord[c.t]]));
		while (sure > 0 && std::abs(int(s[ord[sure - 1]])) == lim) --sure;
		std::vector<int> cand;
		for (int j = 0; j < (1 << sure); ++j) {
			int w = cw; for (int i = 0; i < sure; ++i) if ((j >> i) & 1) w ^= 1 << ord[i];
			int d = nearest(w); if (d >= 0) cand.push_back(d);
		}
		long best = -1; for (int w : cand) best = std::max(best, metric(s, w));
		if (got >= 0) {
			for (int w : cand) if (metric(s, w) > metric(s, got)) violate("worse-than-candidate", "%s: %s decoded to %x although %x is reached by flipping the least reliable positions and is more likely", nm.c_str(), hex(s.data(), s.size()).c_str(), got, w);
			if (sure < c.t) probe("tied_reliabilities");
		} else if (sure == c.t && best >= 0) {
			int n = 0; std::sort(cand.begin(), cand.end()); cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
			for (int w : cand) n += metric(s, w) == best;
			if (n == 1) violate("gave-up", "%s: %s was given up although one examined codeword is strictly most likely", nm.c_str(), hex(s.data(), s.size()).c_str());
			probe("declared_tie");
		}
	}
	void frame() {
		Span sp;
		int msg = edgy(0, (1 << c.k) - 1);
		int cw = c.encode(enc(), msg), want = (msg << P) | rem(msg << P);
		if (cw != want) violate("codeword", "%s: message %x encoded as %x, expected %x", nm.c_str(), msg, cw, want);
		Buf<int8_t> b(c.n, 64, draw(7), "code");
		int cw2 = c.encode_soft(enc(), b.data(), msg);
		std::vector<int> bits(c.n); for (int i = 0; i < c.n; ++i) bits[i] = b[i];
		release(b.m);
		if (cw2 != want) violate("codeword", "%s: message %x encoded as %x, expected %x", nm.c_str(), msg, cw2, want);
		for (int i = 0; i < c.n; ++i) if (bits[i] != ((cw >> i) & 1 ? -1 : 1)) violate("codeword", "%s: chip %d of message %x is %d", nm.c_str(), i, msg, bits[i]);
		switch (weighted({ 3, 2, 5, 1, 2 })) {
		case 0: { int w = cw, k = range(0, c.t); for (int i : ch.r.sample(c.n, k)) w ^= 1 << i; if (k) fault("bit_errors"); hard(w); break; }
		case 1: { int w = int(ch.r.raw() & ((1ull << c.n) - 1)); fault("garbage_word"); hard(w); break; }
		case 2: { auto s = ch.pass<int8_t>(bits); soft(s, cw, false); break; }
		case 3: { std::vector<int8_t> s(c.n); int a = edgy(1, 127); for (int i = 0; i < c.n; ++i) { int v = coin() ? a : 1 + int(ch.r.below(127)); s[i] = int8_t(bits[i] * v); if (bits[i] < 0 && chance(1, 9)) s[i] = -128; } soft(s, cw, true); break; }
		case 4: { // weak errors: the unreliable positions, at chosen places, carry the wrong signs
			std::vector<int8_t> s(c.n); for (int i = 0; i < c.n; ++i) s[i] = int8_t(bits[i] * (20 + int(ch.r.below(100))));
			int k = range(1, std::min(c.n, 2 * c.t + 1)); bool edge = coin(); int base = edge ? (coin() ? 0 : c.n - k) : -1; auto at = ch.r.sample(c.n, k);
			for (int i = 0; i < k; ++i) { int p = edge ? base + i : at[i]; s[p] = int8_t(bits[p] * (chance(2, 3) ? -1 : 1) * (1 + int(draw(18)))); }
			fault("weak_bits"); soft(s, cw, false); break; }
		}
		if (c.k <= 16 && chance(1, c.k < 10 ? 8 : 60)) { (coin() ? enc : dec).crash(); fault("crash"); }
		if (--frames > 0) after(1000, [this] { frame(); });
	}
};
}
WORLD(C06) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))];
	const WordCodec *w = &pick(b.word); while (w->k > 14 && !chance(1, 20)) w = &pick(b.word);
	const WordCodec &c = *w;
	Beacon x(c, c.k > 12 ? 2 : c.k > 9 ? 5 : c.k > 6 ? 12 : 50, b.isa);
	after(1, [&] { x.frame(); }); run_events(100000);
	sample("%s", x.nm.c_str());
}
WORLD(C07) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))];
	int which = int(draw(uint32_t(b.sbch.size())));
	if (b.sbch[which].k > 16 && !chance(1, b.sbch[which].k > 24 ? 40 : 8)) which = 0; // tables of 2^k entries
	const SbchCodec &c = b.sbch[which];
	Sbch x(c, 50, b.isa);
	after(1, [&] { x.frame(); }); run_events(100000);
	sample("%s", x.nm.c_str());
}
