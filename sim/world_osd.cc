// A receiver that decodes short linear block codes by ordered statistics (C11).
// Real: generator matrices, linear encoder, both decoders. Simulated: channel, code changes, power.
#include "codecs.hh"
#include "channel.hh"
using namespace sim;

namespace {
struct Word { // up to 512 bits
	uint64_t w[8] = {};
	Word &operator^=(const Word &o) { for (int i = 0; i < 8; ++i) w[i] ^= o.w[i]; return *this; }
	friend Word operator^(Word a, const Word &b) { return a ^= b; }
	bool operator==(const Word &o) const { return !memcmp(w, o.w, sizeof w); }
	bool operator!() const { for (uint64_t x : w) if (x) return false; return true; }
	void set(int i, bool v) { w[i / 64] = (w[i / 64] & ~(1ull << i % 64)) | uint64_t(v) << i % 64; }
};
bool bit(const Word &w, int i) { return (w.w[i / 64] >> i % 64) & 1; }
struct Receiver {
	const OsdCodec &a, &b; Obj da, db; Channel ch; int frames, N, K; std::string nm; Mem gm; std::vector<Word> rows;
	Receiver(const OsdCodec &a, const OsdCodec &b, int frames, const std::string &isa) : a(a), b(b), da(a.dec, "decoder"), db(b.dec, "list decoder"), frames(frames), N(a.n), K(a.k) {
		nm = "(" + std::to_string(N) + "," + std::to_string(K) + ") order " + std::to_string(a.o) + " list " + std::to_string(b.l) + " " + isa; log("%s", nm.c_str()); shape(digest(nm.data(), nm.size()));
		new_code();
	}
	bool independent(std::vector<Word> v) {
		int r = 0;
		for (int c = 0; c < N && r < K; ++c) { int p = -1; for (int j = r; j < K; ++j) if (bit(v[j], c)) { p = j; break; } if (p < 0) continue; std::swap(v[p], v[r]); for (int j = 0; j < K; ++j) if (j != r && bit(v[j], c)) v[j] ^= v[r]; ++r; }
		return r == K;
	}
	void new_code() {
		if (gm.p) release(gm);
		gm = alloc(size_t(N) * K, 64, draw(7), "generator matrix"); int8_t *g = (int8_t *)gm.p;
		rows.assign(size_t(K), Word());
		int kind = a.genmat ? int(draw(5)) : 1 + int(draw(4));
		Rng r = rng(); auto rnd = [&](uint32_t n) { return uint32_t((r.raw() >> 32) * n >> 32); };
		if (kind == 0) { bool sys = coin(); a.genmat(g, sys); check_generator(g, sys); for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) rows[j].set(i, g[N * j + i] & 1); }
		else for (;;) {
			for (int j = 0; j < K; ++j) {
				rows[j] = Word();
				for (int i = 0; i < N; ++i) if (kind == 1 ? (i < K ? i == j : rnd(2)) : kind == 2 ? rnd(2) : rnd(4) == 0) rows[j].set(i, true);
			}
			if (kind == 4) for (int i = 0; i < N; ++i) { int src = int(rnd(uint32_t(std::min(N, K + 2)))); if (i > K && src < i) for (auto &w : rows) w.set(i, bit(w, src)); } // repeated columns: reliable positions depend on each other
			if (independent(rows)) break;
			for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) rows[j].set(N - K + i, i == j); // identity at the end
			if (independent(rows)) break;
		}
		for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) g[N * j + i] = int8_t(bit(rows[j], i));
		if (!independent(rows)) violate("generator", "%s: the generator matrix is rank deficient", nm.c_str());
		log("code of kind %d", kind); shape(uint64_t(kind));
	}
	// every row is a multiple of the generator polynomial, the product of the minimal polynomials
	void check_generator(const int8_t *g, bool sys) {
		std::vector<uint8_t> gp{ 1 };
		for (int m : a.minpolys) { std::vector<uint8_t> q(gp.size() + size_t(31 - __builtin_clz(unsigned(m)))); for (size_t i = 0; i < gp.size(); ++i) for (int b = 0; m >> b; ++b) q[i + size_t(b)] ^= gp[i] & uint8_t(m >> b & 1); gp = q; }
		int np = int(gp.size()) - 1; if (np != N - K) harness_error("minimal polynomials");
		for (int j = 0; j < K; ++j) {
			std::vector<uint8_t> r(size_t(N), 0);
			for (int i = 0; i < N; ++i) { if (g[N * j + i] & ~1) violate("generator", "%s: entry %d of row %d is %d", nm.c_str(), i, j, g[N * j + i]); r[size_t(N - 1 - i)] = uint8_t(g[N * j + i]); }
			if (sys) for (int i = 0; i < K; ++i) if (g[N * j + i] != (i == j)) violate("generator", "%s: row %d of the systematic matrix does not carry the message", nm.c_str(), j);
			for (int i = N - 1; i >= np; --i) if (r[size_t(i)]) for (int b = 0; b <= np; ++b) r[size_t(i - np + b)] ^= gp[size_t(b)];
			for (int i = 0; i < np; ++i) if (r[size_t(i)]) violate("generator", "%s: row %d of the %s matrix is not a codeword of the BCH code", nm.c_str(), j, sys ? "systematic" : "cyclic");
		}
		count("generators_checked");
	}
	static int soft(const std::vector<int8_t> &s, int i) { return std::max<int>(s[i], -127); }
	long metric(const std::vector<int8_t> &s, const Word &w) const { long v = 0; for (int i = 0; i < N; ++i) v += bit(w, i) ? -soft(s, i) : soft(s, i); return v; }
	Word get(const uint8_t *h) const { Word w; for (int i = 0; i < N; ++i) w.set(i, (h[i / 8] >> (7 - i % 8)) & 1); return w; }
	bool in_code(Word w) const { // eliminate
		std::vector<Word> v = rows; 
		for (int j = 0; j < K; ++j) { int c = 0; while (c < N && !bit(v[j], c)) ++c; for (int h = j + 1; h < K; ++h) if (bit(v[h], c)) v[h] ^= v[j]; if (bit(w, c)) w ^= v[j]; }
		return !w;
	}
	void judge(const std::vector<int8_t> &s, Word sent) {
		int nb = (N + 7) / 8, L = b.l;
		Mem in = alloc(size_t(N), 64, draw(7), "received"); memcpy(in.p, s.data(), size_t(N));
		Mem o1 = alloc(size_t(nb), 64, draw(7), "hard"), o2 = alloc(size_t(nb) * L, 64, draw(7), "list"); Buf<int> rank(L, 64, 4 * draw(3), "rank");
		bool swap = coin(), ok = false;
		for (int i = 0; i < 2; ++i) if ((i == 0) != swap) ok = a.decode(da(), o1.p, (int8_t *)in.p, (int8_t *)gm.p); else b.list_decode(db(), rank.data(), o2.p, (int8_t *)in.p, (int8_t *)gm.p);
		Word ans = get(o1.p); std::vector<Word> list; std::vector<int> rk;
		for (int j = 0; j < L; ++j) { list.push_back(get(o2.p + size_t(nb) * j)); rk.push_back(rank[j]); }
		release(rank.m); release(o2); release(o1); release(in);
		long am = metric(s, ans);
		log("answer %s sent, %s, metric %ld", ans == sent ? "is" : "is not", ok ? "success" : "tie", am); shape(uint64_t(ans == sent) * 2 + ok); count("frames");
		if (!in_code(ans)) violate("not-a-codeword", "%s: the answer is not in the code: %s", nm.c_str(), hex(s.data(), s.size()).c_str());
		for (int j = 0; j < L; ++j) {
			if (!in_code(list[j])) violate("not-a-codeword", "%s: list entry %d is not in the code: %s", nm.c_str(), j, hex(s.data(), s.size()).c_str());
			for (int i = 0; i < j; ++i) if (list[i] == list[j]) violate("duplicate", "%s: list entries %d and %d are the same", nm.c_str(), i, j);
			long m = metric(s, list[j]), p = j ? metric(s, list[j - 1]) : 0;
			if (j && m > p) violate("order", "%s: list entry %d (%ld) is more likely than the one before (%ld)", nm.c_str(), j, m, p);
			int want = j ? rk[j - 1] + (m != p) : 0;
			if (rk[j] != want) violate("rank", "%s: list entry %d has rank %d, expected %d", nm.c_str(), j, rk[j], want);
		}
		if (metric(s, list[0]) != am) violate("first-entry", "%s: the list starts with metric %ld, the single answer has %ld", nm.c_str(), metric(s, list[0]), am);
		// the most reliable independent positions, greedily; any order among equals
		std::vector<int> ord(N); for (int i = 0; i < N; ++i) ord[i] = i;
		std::stable_sort(ord.begin(), ord.end(), [&](int x, int y) { return std::abs(soft(s, x)) > std::abs(soft(s, y)); });
		std::vector<Word> v = rows; std::vector<int> base; std::vector<uint8_t> dep(N);
		// reduced so that row j has a one at base[j] only
		for (int i = 0; i < N && int(base.size()) < K; ++i) {
			int c = ord[i], r = int(base.size()), p = -1; for (int j = r; j < K; ++j) if (bit(v[j], c)) { p = j; break; }
			if (p < 0) { dep[c] = 1; continue; }
			std::swap(v[p], v[r]); for (int j = 0; j < K; ++j) if (j != r && bit(v[j], c)) v[j] ^= v[r];
			base.push_back(c);
		}
		// ambiguous if a position outside could replace an equally reliable one inside
		bool amb = false;
		for (int i = 0; i < N && !amb; ++i) { if (std::find(base.begin(), base.end(), i) != base.end()) continue; for (int j = 0; j < K; ++j) if (bit(v[j], i) && std::abs(soft(s, i)) == std::abs(soft(s, base[j]))) { amb = true; break; } }
		if (amb && a.o < K) { probe("ambiguous_reliable_set"); return; }
		for (int i = 0; i < N; ++i) if (dep[i]) { probe("dependent_reliable_positions"); break; }
		Word w0; for (int j = 0; j < K; ++j) if (soft(s, base[j]) < 0) w0 ^= v[j];
		std::vector<long> all;
		std::function<void(int, int, const Word &)> rec = [&](int from, int left, const Word &w) { all.push_back(metric(s, w)); if (left) for (int j = from; j < K; ++j) rec(j + 1, left - 1, w ^ v[j]); };
		rec(0, a.o, w0);
		std::sort(all.begin(), all.end(), std::greater<long>());
		count("frames_compared");
		if (am != all[0]) violate("not-best", "%s: the answer has metric %ld, re-encoding the most reliable positions reaches %ld: %s", nm.c_str(), am, all[0], hex(s.data(), s.size()).c_str());
		bool want = all.size() < 2 || all[0] > all[1];
		if (!want) probe("declared_tie");
		if (ok != want) violate("success-flag", "%s: reported %s but the best two metrics are %ld and %ld", nm.c_str(), ok ? "success" : "a tie", all[0], all.size() > 1 ? all[1] : 0);
		if (int(all.size()) < L) harness_error("list longer than candidates");
		for (int j = 0; j < L; ++j) if (metric(s, list[j]) != all[j]) violate("list", "%s: list entry %d has metric %ld, the candidate in that place has %ld", nm.c_str(), j, metric(s, list[j]), all[j]);
		if (all[0] < 0) probe("negative_best_metric");
	}
	void frame() {
		Span sp;
		Mem m = alloc(size_t(K + 7) / 8, 64, draw(7), "message"), c = alloc(size_t(N + 7) / 8, 64, draw(7), "codeword");
		Rng r = rng(); r.fill(m.p, m.n);
		Word w; for (int j = 0; j < K; ++j) if ((m.p[j / 8] >> (7 - j % 8)) & 1) w ^= rows[j];
		a.encode(c.p, m.p, (int8_t *)gm.p);
		if (!(get(c.p) == w)) violate("encoder", "%s: wrong codeword", nm.c_str());
		release(c); release(m);
		std::vector<int> bits(N); for (int i = 0; i < N; ++i) bits[i] = bit(w, i) ? -1 : 1;
		auto s = ch.pass<int8_t>(bits, 3);
		if (chance(1, 3)) for (auto &x : s) x = int8_t(ch.clip(x * 3 + int(ch.r.below(5)) - 2)); // fewer equal reliabilities
		if (chance(1, 12)) { for (auto &x : s) x = -128; fault("stuck_receiver"); }
		judge(s, w);
		if (chance(1, 8)) { (coin() ? da : db).crash(); fault("crash"); }
		if (chance(1, 6)) { new_code(); fault("code_change"); }
		if (--frames > 0) after(1000, [this] { frame(); });
	}
};
}
WORLD(C11) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))];
	int w = 2 * int(draw(uint32_t(b.osd.size() / 2)));
	Receiver x(b.osd[w], b.osd[w + 1], b.osd[w].n > 100 ? 2 : range(4, 20), b.isa);
	after(1, [&] { x.frame(); }); run_events(100000);
	sample("%s", x.nm.c_str());
}
