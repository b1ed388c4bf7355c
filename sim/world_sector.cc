// A storage controller that keeps sectors protected by an algebraic code (C01, C02, C03).
// Real: encoders, decoders, field tables. Simulated: media, bit rot, grown-defect list, torn and lost writes, power.
#include "codecs.hh"
#include "gf_ref.hh"
using namespace sim;
typedef std::vector<uint32_t> Word;

namespace {
const char *P() { return property(); }

// one code on one host, whatever its kind
struct Host {
	const RsCodec *rs = nullptr; const BchCodec *bch = nullptr;
	std::string name; int N, K, NP, nr, fcr, bytes; RefField *ref; FieldUse field; Obj enc, dec, renc, rdec;
	int calls = 0, failures = 0;
	Host(const RsCodec &c, const std::string &isa) : rs(&c), N(c.N), K(c.K), NP(c.nr), nr(c.nr), fcr(c.fcr), bytes(c.bytes) { init(c.m, c.poly, c.field, "RS", isa); enc = Obj(c.enc, "encoder"); dec = Obj(c.dec, "decoder"); }
	Host(const BchCodec &c, const std::string &isa) : bch(&c), N(c.N), K(c.K), NP(c.NP), nr(c.nr), fcr(c.fcr), bytes(c.bytes) {
		init(c.m, c.poly, c.field, "BCH", isa);
		enc = Obj(c.enc, "encoder"); dec = Obj(c.dec, "decoder"); renc = Obj(c.renc, "reference encoder"); rdec = Obj(c.rdec, "reference decoder");
	}
	void init(int m, unsigned poly, Field *f, const char *kind, const std::string &isa) {
		char t[96]; snprintf(t, sizeof t, "%s(%d,%d) M=%d 0x%x NR=%d FCR=%d %s", kind, N, K, m, poly, nr, fcr, isa.c_str()); name = t;
		ref = new RefField(m, poly); field = FieldUse(f);
	}
	void power_cycle(bool clean) {
		for (Obj *o : { &enc, &dec, &renc, &rdec }) if (o->c.size) { if (clean) o->restart(); else o->crash(); }
	}
	uint32_t get(const void *p, int i) const { return bytes == 1 ? ((const uint8_t *)p)[i] : ((const uint16_t *)p)[i]; }
	void put(void *p, int i, uint32_t v) const { if (bytes == 1) ((uint8_t *)p)[i] = v; else ((uint16_t *)p)[i] = v; }
	Buf<uint8_t> symbols(const Word &w, size_t b, size_t n, const char *what) const {
		Buf<uint8_t> r(n * bytes, 64, draw(5) * bytes, what); for (size_t i = 0; i < n; ++i) put(r.data(), int(i), w[b + i]); return r;
	}
	// bits in big-endian order; the bits of the last byte that are not part of the word keep their garbage
	Buf<uint8_t> packed(const Word &w, size_t b, size_t n, const char *what) const {
		Buf<uint8_t> r((n + 7) / 8, 64, draw(5), what);
		for (size_t i = 0; i < n; ++i) { uint8_t m = 0x80 >> (i & 7); r[i / 8] = w[b + i] ? r[i / 8] | m : r[i / 8] & ~m; }
		return r;
	}
	static uint32_t bit(const Buf<uint8_t> &b, size_t i) { return (b[i / 8] >> (7 - (i & 7))) & 1; }
	void done(std::initializer_list<Buf<uint8_t> *> l) { for (auto i = std::rbegin(l); i != std::rend(l); ++i) release((*i)->m); }
	Word encode(const Word &data) {
		int len = int(data.size()); Word w(data); w.resize(len + NP); ++calls;
		if (rs) {
			auto d = symbols(data, 0, len, "data"); Buf<uint8_t> p(NP * bytes, 64, draw(5) * bytes, "parity");
			rs->encode(enc(), d.data(), p.data(), len, draw(4));
			for (int i = 0; i < len; ++i) if (get(d.data(), i) != data[i]) violate("systematic", "%s: encoding changed data symbol %d", name.c_str(), i);
			for (int i = 0; i < NP; ++i) w[len + i] = get(p.data(), i);
			done({ &d, &p });
		} else {
			auto d = packed(data, 0, len, "data"); Buf<uint8_t> p((NP + 7) / 8, 64, draw(5), "parity");
			bch->encode(enc(), d.data(), p.data(), len);
			for (int i = 0; i < len; ++i) if (bit(d, i) != data[i]) violate("systematic", "%s: encoding changed data bit %d", name.c_str(), i);
			for (int i = 0; i < NP; ++i) w[len + i] = bit(p, i);
			done({ &d, &p });
			if (chance(1, 3)) {
				auto d2 = symbols(data, 0, len, "data"); Buf<uint8_t> p2(NP * bytes, 64, draw(5) * bytes, "parity");
				bch->rencode(renc(), d2.data(), p2.data(), len);
				for (int i = 0; i < NP; ++i) if (get(p2.data(), i) != w[len + i]) violate("reference-parity", "%s len %d: packed and reference encoders differ at parity bit %d", name.c_str(), len, i);
				done({ &d2, &p2 });
			}
		}
		for (int i = 0; i < nr; ++i) if (ref->eval(w, ref->pow(fcr + i)))
			violate("not-a-codeword", "%s len %d: encoded word does not vanish at root %d", name.c_str(), len, fcr + i);
		return w;
	}
	int run_decode(Word &w, std::vector<int> &er, bool reference) {
		int len = int(w.size()) - NP, cnt = int(er.size()), ret; ++calls;
		Buf<uint8_t> e(std::max(cnt, 1) * bytes, 64, draw(3) * bytes, "erasures");
		for (int i = 0; i < cnt; ++i) put(e.data(), i, er[i]);
		if (rs || reference) {
			auto d = symbols(w, 0, len, "data"), p = symbols(w, len, NP, "parity");
			ret = rs ? rs->decode(dec(), d.data(), p.data(), e.data(), cnt, len, draw(4)) : bch->rdecode(rdec(), d.data(), p.data(), e.data(), cnt, len);
			for (int i = 0; i < len; ++i) w[i] = get(d.data(), i);
			for (int i = 0; i < NP; ++i) w[len + i] = get(p.data(), i);
			done({ &e, &d, &p });
		} else {
			auto d = packed(w, 0, len, "data"), p = packed(w, len, NP, "parity");
			uint8_t dm = len % 8 ? 0xff >> (len % 8) : 0, pm = NP % 8 ? 0xff >> (NP % 8) : 0, dp = d[(len - 1) / 8] & dm, pp = p[(NP - 1) / 8] & pm;
			ret = bch->decode(dec(), d.data(), p.data(), e.data(), cnt, len);
			for (int i = 0; i < len; ++i) w[i] = bit(d, i);
			for (int i = 0; i < NP; ++i) w[len + i] = bit(p, i);
			if ((d[(len - 1) / 8] & dm) != dp || (p[(NP - 1) / 8] & pm) != pp) violate("padding", "%s len %d: a bit outside the word was changed", name.c_str(), len);
			done({ &e, &d, &p });
		}
		if (ret < 0) ++failures;
		return ret;
	}
	int decode(Word &w, std::vector<int> er) {
		Word w2(w); int ret = run_decode(w, er, false);
		if (bch && chance(1, 2)) {
			int r2 = run_decode(w2, er, true);
			if (r2 != ret || w2 != w) violate("reference-decision", "%s len %d: packed decoder returned %d, reference %d, words %s", name.c_str(), int(w.size()) - NP, ret, r2, w == w2 ? "equal" : "differ");
			count("reference_decodes");
		}
		return ret;
	}
	void check_syndromes(const Word &w) {
		int len = int(w.size()) - NP, ret; Buf<uint8_t> s(nr * bytes, 64, 0, "syndromes");
		if (rs) { auto d = symbols(w, 0, len, "data"), p = symbols(w, len, NP, "parity"); ret = rs->syndromes(dec(), d.data(), p.data(), s.data(), len, draw(2)); done({ &d, &p }); }
		else if (coin()) { auto d = packed(w, 0, len, "data"), p = packed(w, len, NP, "parity"); ret = bch->syndromes(dec(), d.data(), p.data(), s.data(), len); done({ &d, &p }); }
		else { auto d = symbols(w, 0, len, "data"), p = symbols(w, len, NP, "parity"); ret = bch->rsyndromes(rdec(), d.data(), p.data(), s.data(), len); done({ &d, &p }); }
		int nz = 0;
		for (int i = 0; i < nr; ++i) {
			uint32_t v = ref->eval(w, ref->pow(fcr + i)); nz += !!v;
			if (get(s.data(), i) != v) violate("syndromes", "%s len %d: syndrome %d is %u, expected %u", name.c_str(), len, i, get(s.data(), i), v);
		}
		if (ret != nz) violate("syndromes", "%s len %d: %d syndromes counted, expected %d", name.c_str(), len, ret, nz);
		release(s.m);
	}
};

struct Sector {
	Word truth, older, media; std::vector<char> flagged; // grown defects, by symbol
	bool meant = false; // media is truth plus tracked damage
	int wrong() const { int n = 0; for (size_t i = 0; i < media.size(); ++i) n += media[i] != truth[i]; return n; }
	int load() const { int e = 0, f = 0; for (size_t i = 0; i < media.size(); ++i) if (flagged[i]) ++f; else e += media[i] != truth[i]; return 2 * e + f; }
	std::vector<int> flags() const { std::vector<int> r; for (size_t i = 0; i < flagged.size(); ++i) if (flagged[i]) r.push_back(int(i)); return r; }
};

struct Controller {
	Host &h; bool overload; std::vector<Sector> disk; int ops, reads = 0; Rng r;
	Controller(Host &h, bool overload, int sectors, int ops) : h(h), overload(overload), disk(sectors), ops(ops), r(rng()) {}
	int pick_len() {
		int big = h.K, cap = big;
		if (big > 4096 && !chance(1, thorough() ? 6 : 24)) cap = 600;
		int l = edgy(1, cap);
		if (l > 2000 && (h.K - l) > 0 && h.nr > 30 && !chance(1, 4)) l = 1 + l % 300;
		return l;
	}
	uint32_t qsym() const { return h.bch ? 2 : h.N + 1; }
	void write(Sector &s) {
		int len = s.truth.empty() || chance(1, 4) ? pick_len() : int(s.truth.size()) - h.NP;
		Rng d = rng(); Word data(len);
		int kind = weighted({ 5, 1, 1 });
		for (int i = 0; i < len; ++i) data[i] = kind == 1 ? qsym() - 1 : kind == 2 ? (i == len - 1 || i == 0) : uint32_t(d.next() % qsym());
		Word w = h.encode(data);
		log("write %d symbols %016llx", len, (unsigned long long)digest(w.data(), w.size() * 4));
		bool same = s.truth.size() == w.size();
		s.older = s.truth; s.truth = w;
		int how = same && s.meant ? weighted({ 8, 1, 1 }) : 0;
		if (how == 0 || !overload) { s.media = w; s.flagged.assign(w.size(), 0); s.meant = true; }
		else if (how == 1) { // torn: a prefix of the new sector, the rest as it was before
			int at = range(1, int(w.size()) - 1); for (int i = 0; i < at; ++i) s.media[i] = w[i];
			s.flagged.assign(w.size(), 0); fault("torn_write"); s.meant = true;
		} else { s.flagged.assign(w.size(), 0); fault("lost_write"); }
	}
	void corrupt(Sector &s, int i) {
		if (h.bch) s.media[i] ^= 1;
		else s.media[i] = chance(1, 6) ? 0 : chance(1, 6) ? h.N : s.media[i] ^ (1 + r.below(h.N));
	}
	void rot(Sector &s) {
		if (!s.meant) return;
		int n = int(s.media.size());
		if (chance(1, 5) && crafted(s)) return;
		if (!overload) {
			// within capacity: choose the load the sector will have when read
			int room = h.nr - s.load();
			if (room <= 0) return;
			int flags = weighted({ 3, 2, 2, 1 });
			int nf = flags == 0 ? 0 : flags == 1 ? edgy(0, room) : flags == 2 ? room : std::min(room, 1 + int(draw(3)));
			int ne = (room - nf) / 2;
			if (chance(1, 3)) ne = range(0, ne);
			place(s, n, nf, ne, true);
		} else {
			int cap = h.nr, top = std::min(n, cap * 2 + 4);
			int used = int(s.flags().size());
			switch (weighted({ 4, 3, 2, 2, 1, 2 })) {
			case 0: place(s, n, 0, std::min(n, cap / 2 + 1 + int(draw(3))), false); break;                          // just beyond
			case 1: { int nf = std::max(0, range(0, cap) - used); place(s, n, nf, std::min(n - nf, (cap - nf) / 2 + 1 + int(draw(2))), false); break; }
			case 2: place(s, n, std::max(0, cap - used), range(0, 3), false); break;                              // all flags, wrongly set, plus errors
			case 3: place(s, n, 0, range(1, top), false); break;
			case 4: for (int i = 0; i < n; ++i) s.media[i] = uint32_t(r.next() % qsym()); fault("garbage_sector"); break;
			case 5: { // towards another codeword: start from one and damage it a little
				Word data(n - h.NP); for (auto &x : data) x = uint32_t(r.next() % qsym());
				Word w = h.encode(data); s.media = w; place(s, n, 0, range(0, cap / 2 + 1), false); fault("misdirected_write"); break; }
			}
		}
	}
	// damage with structure: a codeword of a weaker code with neighbouring roots (so that a run of syndromes vanishes), or evenly spaced
	bool crafted(Sector &s) {
		int n = int(s.media.size()), most = std::min(n, overload ? h.nr + 1 : h.nr / 2), least = h.rs ? 2 : 3;
		if (most < least || s.load() || !s.flags().empty()) return false;
		int e = edgy(least, most); auto x = [&](int i) { return h.ref->pow(n - 1 - i); };
		std::vector<int> at; Word v;
		if (chance(1, 4)) {
			int d = n / e, b; if (d > 1 && coin()) d = range(1, d); b = range(0, n - 1 - (e - 1) * d); uint32_t m = h.bch ? 1 : 1 + r.below(uint32_t(h.N));
			for (int i = 0; i < e; ++i) { at.push_back(b + i * d); v.push_back(m); }
			fault("spaced_errors");
		} else if (h.rs) {
			at = r.sample(n, e); int a = h.fcr + range(0, h.nr - 1); uint32_t c = 1 + r.below(uint32_t(h.N));
			for (int i : at) { uint32_t t = h.ref->pow(int64_t(h.ref->log[x(i)]) * a); for (int k : at) if (k != i) t = h.ref->mul(t, x(i) ^ x(k)); v.push_back(h.ref->mul(c, h.ref->inv(t))); }
			fault("vanishing_syndromes");
		} else {
			for (int tries = 0;; ++tries) {
				if (tries == 30) return false;
				at = r.sample(n, e - 1); uint32_t sum = 0; for (int i : at) sum ^= x(i);
				if (!sum) continue;
				int i = n - 1 - int(h.ref->log[sum]); if (i < 0 || std::find(at.begin(), at.end(), i) != at.end()) continue;
				at.push_back(i); break;
			}
			v.assign(at.size(), 1); fault("vanishing_syndromes");
		}
		int flags = coin() ? 0 : range(0, std::min(h.nr, int(at.size())));
		for (size_t i = 0; i < at.size(); ++i) { s.media[at[i]] ^= v[i]; if (int(i) < flags) s.flagged[at[i]] = 1; }
		log("crafted damage of %zu symbols, %d flagged", at.size(), flags);
		return true;
	}
	void place(Sector &s, int n, int nf, int ne, bool) {
		int burst = chance(1, 5); std::vector<int> at;
		if (burst) { int k = std::min(n, nf + ne), b = range(0, n - k); for (int i = 0; i < k; ++i) at.push_back(b + i); fault("burst"); }
		else at = r.sample(n, nf + ne);
		int cap = h.nr - int(s.flags().size());
		for (size_t k = 0; k < at.size(); ++k) {
			int i = at[k];
			if (int(k) < nf) {
				if (s.flagged[i] || cap <= 0) continue;
				if (!overload && s.load() + 1 > h.nr && s.media[i] == s.truth[i]) continue;
				--cap; s.flagged[i] = 1; fault("grown_defect"); if (!chance(1, 4)) corrupt(s, i);
			} else {
				if (!overload) { if (s.flagged[i] || s.media[i] != s.truth[i]) { corrupt(s, i); continue; } if (s.load() + 2 > h.nr) break; }
				corrupt(s, i); fault("bit_rot");
			}
		}
	}
	void read(Sector &s, bool scrub) {
		if (s.media.empty()) return;
		if (chance(1, 5)) h.check_syndromes(s.media);
		std::vector<int> er = s.flags();
		if (er.size() > 1) { Rng q = rng(); for (size_t i = er.size() - 1; i; --i) std::swap(er[i], er[q.below(uint32_t(i) + 1)]); }
		Word w = s.media; int len = int(w.size()) - h.NP;
		int load = s.load();
		int ret = h.decode(w, er);
		++reads; count("reads");
		int changed = 0; for (size_t i = 0; i < w.size(); ++i) changed += w[i] != s.media[i];
		log("read len %d load %d flags %zu -> %d changed %d", len, load, er.size(), ret, changed);
		shape(uint64_t(load) * 4096 + er.size() * 16 + (ret < 0));
		if (load <= h.nr) {
			if (w != s.truth) { int d = 0; for (size_t i = 0; i < w.size(); ++i) d += w[i] != s.truth[i]; violate("not-restored", "%s len %d: %d errors and %zu erasures left %d wrong symbols (returned %d)", h.name.c_str(), len, (load - int(er.size())) / 2, er.size(), d, ret); }
			if (ret != changed) violate("count", "%s len %d: returned %d but changed %d symbols", h.name.c_str(), len, ret, changed);
			if (load) { nontrivial(); count(load == h.nr || load + 1 == h.nr ? "reads_at_capacity" : "reads_damaged"); } else count("reads_clean");
		} else {
			nontrivial();
			if (ret < 0) {
				if (ret != -1) violate("return", "%s len %d: returned %d", h.name.c_str(), len, ret);
				if (changed) violate("failure-changed-word", "%s len %d: reported failure but changed %d symbols", h.name.c_str(), len, changed);
				probe("failure_reported");
			} else {
				for (uint32_t v : w) if (v > uint32_t(h.N)) violate("symbol-range", "%s: symbol %u", h.name.c_str(), v);
				for (int i = 0; i < h.nr; ++i) if (h.ref->eval(w, h.ref->pow(h.fcr + i)))
					violate("invalid-word", "%s len %d: reported %d corrections but left a word that is not in the code", h.name.c_str(), len, ret);
				if (ret != changed) violate("count", "%s len %d: returned %d but changed %d symbols", h.name.c_str(), len, ret, changed);
				if (ret > h.NP) violate("count", "%s len %d: changed %d symbols with %d parity symbols", h.name.c_str(), len, ret, h.NP);
				probe(w == s.truth ? "lucky_repair" : "other_codeword");
			}
		}
		if (scrub && ret >= 0) { s.media = w; s.truth = w; s.flagged.assign(w.size(), 0); }
		else if (scrub) { s.media = s.truth; s.flagged.assign(s.truth.size(), 0); } // restored from a mirror
	}
	void step() {
		Span sp;
		Sector &s = disk[draw(uint32_t(disk.size()))];
		if (s.truth.empty()) { write(s); }
		else switch (weighted({ 2, 7, 5, 3, 1, 1 })) {
			case 0: write(s); break;
			case 1: rot(s); read(s, coin()); break;
			case 2: rot(s); break;
			case 3: read(s, true); break;
			case 4: fault("crash"); h.power_cycle(false); break;
			case 5: log("restart"); h.power_cycle(true); break;
		}
		if (--ops > 0) after(500 + draw(100000), [this] { step(); });
	}
};

void sectors(bool rs, bool bch, bool overload) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))];
	bool use_rs = rs && (!bch || coin());
	Host h = use_rs ? Host(pick(b.rs), b.isa) : Host(pick(b.bch), b.isa);
	if (!use_rs && !bch) harness_error("no code");
	int ops = h.N > 10000 ? 8 : h.N > 1000 ? 20 : 60;
	if (h.N > 10000 && h.nr > 30) ops = 5;
	Controller c(h, overload, range(1, 3), ops);
	log("%s", h.name.c_str()); shape(digest(h.name.data(), h.name.size()));
	after(1, [&] { c.step(); });
	run_events(100000);
	sample("%s: %d reads, %d calls, %d reported failures", h.name.c_str(), c.reads, h.calls, h.failures);
	(void)P;
}
}
WORLD(C01) { sectors(true, false, false); }
WORLD(C02) { sectors(false, true, chance(1, 8)); }
WORLD(C03) { sectors(true, true, true); }
