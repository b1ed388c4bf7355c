#include "services.hh"
#include "gf_ref.hh"
#include "polar_ref.hh"
#include "ldpc_safe.hh"
#include <map>
#include <memory>
namespace sim {
namespace {
enum Family { RS, BCH, CRS, CPF, WORD, SBCH, LDPC, POLAR, LIST, OSD, CRCS, BITS, INTLV, PERM, PRNG, MISC, VEC, FAMILIES };

void put(Bytes &b, size_t i, int bytes, uint64_t v) { memcpy(&b[i * bytes], &v, bytes); }
Arg in(const char *n, int elem, size_t count, int align = 0) { return { n, IN, elem, align ? align : elem, elem * count, Bytes(elem * count), {}, {} }; }
Arg out(const char *n, int elem, size_t count, int align = 0) { return { n, OUT, elem, align ? align : elem, elem * count, {}, {}, {} }; }
Arg inout(const char *n, int elem, size_t count, int align = 0) { Arg a = in(n, elem, count, align); a.role = INOUT; return a; }
Bytes first_bits_be(size_t bytes, size_t bits) { Bytes m(bytes); for (size_t i = 0; i < bits; ++i) m[i / 8] |= 128 >> i % 8; return m; }
Bytes first_bits_le(size_t bytes, size_t bits) { Bytes m(bytes); for (size_t i = 0; i < bits; ++i) m[i / 8] |= 1 << i % 8; return m; }
bool be(const Bytes &b, size_t i) { return b[i / 8] >> (7 - i % 8) & 1; }
void flip_be(Bytes &b, size_t i) { b[i / 8] ^= 128 >> i % 8; }

RefField &field_ref(int m, unsigned poly) {
	static std::map<std::pair<int, unsigned>, RefField *> c;
	auto &p = c[{ m, poly }]; if (!p) p = new RefField(m, poly);
	return *p;
}
std::vector<uint32_t> rs_parity(const RsCodec &c, const std::vector<uint32_t> &d) {
	static std::map<const RsCodec *, std::vector<uint32_t>> gens;
	RefField &f = field_ref(c.m, c.poly);
	auto &g = gens[&c];
	if (g.empty()) { g = { 1 }; for (int i = 0; i < c.nr; ++i) { g.push_back(0); uint32_t r = f.pow(c.fcr + i); for (size_t j = g.size() - 1; j > 0; --j) g[j] ^= f.mul(g[j - 1], r); } }
	std::vector<uint32_t> p(c.nr);
	for (uint32_t v : d) { uint32_t fb = v ^ p[0]; for (int i = 0; i < c.nr; ++i) p[i] = (i + 1 < c.nr ? p[i + 1] : 0) ^ f.mul(fb, g[i + 1]); }
	return p;
}
std::vector<uint8_t> bch_parity(const BchCodec &c, const std::vector<uint8_t> &d) {
	static std::map<const BchCodec *, std::vector<uint8_t>> gens;
	auto &g = gens[&c]; // highest power first
	if (g.empty()) { g = { 1 }; for (int mp : c.minpolys) { int deg = 31 - __builtin_clz(mp); std::vector<uint8_t> n(g.size() + deg); for (size_t i = 0; i < g.size(); ++i) for (int j = 0; j <= deg; ++j) n[i + j] ^= g[i] & (mp >> (deg - j) & 1); g = n; } }
	std::vector<uint8_t> r(d); r.resize(d.size() + c.NP);
	for (size_t i = 0; i < d.size(); ++i) if (r[i]) for (size_t j = 0; j < g.size(); ++j) r[i + j] ^= g[j];
	return std::vector<uint8_t>(r.begin() + d.size(), r.end());
}
std::string fmt(const char *f, ...) { char t[200]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); return t; }
int damage_count(int limit) { return weighted({ 2, 4, 2, 2 }) == 0 ? 0 : edgy(0, limit); }

struct Maker {
	std::vector<Service> v; const Backend &B; int fam = 0, heavy = 0; int wide;
	explicit Maker(const Backend &B) : B(B), wide(B.isa == "v3") {}
	Service &add(const std::string &name, const Class &c, Field *f, std::function<void(Request &, Rng &)> make, std::function<int64_t(void *, uint8_t *const *, const int64_t *)> call) {
		v.push_back(Service{ name + " " + B.isa, B.isa, fam, heavy, c, f, make, call, nullptr, fam == CRCS || fam == PRNG || c.size == 1 ? nullptr : (const void *)&c, 0 }); return v.back();
	}
	static int len_of(int K) { switch (K <= 4096 ? weighted({ 4, 1, 1 }) : 0) { case 1: return K; case 2: return std::max(1, K - 1 - int(draw(9))); default: return edgy(1, std::min(K, 240)); } }
	void rs(const RsCodec &c) {
		std::string nm = fmt("RS(%d,%d) fcr %d over 2^%d", c.N, c.K, c.fcr, c.m); heavy = c.m >= 12;
		auto word = [&c](Request &q, Rng &r, int &len, bool inplace) {
			len = len_of(c.K); Bytes d(size_t(len) * c.bytes), p(size_t(c.nr) * c.bytes);
			std::vector<uint32_t> x(len); for (auto &s : x) s = uint32_t(r.next()) & ((1u << c.m) - 1);
			auto y = rs_parity(c, x);
			for (int i = 0; i < len; ++i) put(d, i, c.bytes, x[i]);
			for (int i = 0; i < c.nr; ++i) put(p, i, c.bytes, y[i]);
			q.args.push_back(inplace ? inout("data", c.bytes, len) : in("data", c.bytes, len)); q.args.back().init = d;
			q.args.push_back(inplace ? inout("parity", c.bytes, c.nr) : in("parity", c.bytes, c.nr)); q.args.back().init = p;
		};
		auto hit = [&c](Request &q, Rng &r, int len, int n) { for (int i : r.sample(len + c.nr, n)) { uint64_t e = 1 + r.below((1u << c.m) - 2 + (c.m == 1)); Bytes &b = i < len ? q.args[0].init : q.args[1].init; int j = i < len ? i : i - len; uint64_t o = 0; memcpy(&o, &b[size_t(j) * c.bytes], c.bytes); put(b, j, c.bytes, (o ^ e) & ((1u << c.m) - 1)); } };
		add(nm + " encoder", c.enc, c.field, [&c, word](Request &q, Rng &r) { int len; word(q, r, len, false); q.args[1].role = OUT; q.args[1].init.clear(); q.par = { len, int(draw(4)) }; q.what = fmt("%d symbols", len); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { c.encode(o, a[0], a[1], int(p[0]), int(p[1])); return 0; });
		add(nm + " decoder", c.dec, c.field, [&c, word, hit](Request &q, Rng &r) {
			int len; word(q, r, len, true);
			int errs = std::min(damage_count(c.nr + 1), len + c.nr), er = coin() ? edgy(0, std::min(c.nr, len + c.nr)) : 0;
			if (coin() && er) errs = std::min(errs, (c.nr - er) / 2);
			hit(q, r, len, errs);
			Arg e = inout("erasures", c.bytes, er); e.def.assign(e.n, 0);
			auto loc = r.sample(len + c.nr, er); for (int i = 0; i < er; ++i) { put(e.init, i, c.bytes, loc[i]); if (coin()) { Bytes &b = loc[i] < len ? q.args[0].init : q.args[1].init; put(b, loc[i] < len ? loc[i] : loc[i] - len, c.bytes, r.next() & ((1u << c.m) - 1)); } }
			q.args.push_back(e); q.par = { len, er, int(draw(4)) }; q.what = fmt("%d symbols, %d hits, %d erasures", len, errs, er); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return c.decode(o, a[0], a[1], a[2], int(p[1]), int(p[0]), int(p[2])); });
		add(nm + " syndromes", c.dec, c.field, [&c, word, hit](Request &q, Rng &r) { int len; word(q, r, len, false); hit(q, r, len, std::min(len + c.nr, damage_count(4))); q.args.push_back(out("syndromes", c.bytes, c.nr)); q.par = { len, int(draw(2)) }; q.what = fmt("%d symbols", len); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return c.syndromes(o, a[0], a[1], a[2], int(p[0]), int(p[1])); });
	}
	void bch(const BchCodec &c) {
		std::string nm = fmt("BCH(%d,%d)", c.N, c.K); heavy = c.m >= 12;
		auto word = [&c](Request &q, Rng &r, int &len, int hits, bool packed, Role role) {
			len = len_of(c.K); std::vector<uint8_t> x(len); for (auto &b : x) b = r.next() & 1;
			auto y = bch_parity(c, x);
			for (int i : r.sample(len + c.NP, std::min(hits, len + c.NP))) (i < len ? x[i] : y[i - len]) ^= 1;
			if (packed) {
				size_t db = (len + 7) / 8, pb = (c.NP + 7) / 8; Arg d = in("data", 1, db), p = in("parity", 1, pb);
				r.fill(d.init.data(), db); r.fill(p.init.data(), pb);
				for (int i = 0; i < len; ++i) if (be(d.init, i) != x[i]) flip_be(d.init, i);
				for (int i = 0; i < c.NP; ++i) if (be(p.init, i) != y[i]) flip_be(p.init, i);
				d.role = p.role = role; if (role == INOUT) { d.may = first_bits_be(db, len); p.may = first_bits_be(pb, c.NP); }
				q.args = { d, p };
			} else {
				Arg d = in("data", c.bytes, len), p = in("parity", c.bytes, c.NP);
				for (int i = 0; i < len; ++i) put(d.init, i, c.bytes, x[i]);
				for (int i = 0; i < c.NP; ++i) put(p.init, i, c.bytes, y[i]);
				d.role = p.role = role; q.args = { d, p };
			}
		};
		for (int packed = 1; packed >= 0; --packed) {
			std::string n2 = nm + (packed ? "" : " reference");
			add(n2 + " encoder", packed ? c.enc : c.renc, packed ? nullptr : c.field, [&c, word, packed](Request &q, Rng &r) { int len; word(q, r, len, 0, packed, IN); Arg &p = q.args[1]; p.role = OUT; p.init.clear(); if (packed) { p.may.assign(p.n, 0xff); p.def = first_bits_be(p.n, c.NP); } q.par = { len }; q.what = fmt("%d bits", len); },
				[&c, packed](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { (packed ? c.encode(o, a[0], a[1], int(p[0])) : c.rencode(o, a[0], a[1], int(p[0]))); return 0; });
			add(n2 + " decoder", packed ? c.dec : c.rdec, c.field, [&c, word, packed](Request &q, Rng &r) {
				int len; int errs = damage_count(c.nr), er = coin() ? edgy(0, std::min(c.nr, c.NP)) : 0; word(q, r, len, errs, packed, INOUT);
				Arg e = inout("erasures", c.bytes, er); e.def.assign(e.n, 0);
				auto loc = r.sample(len + c.NP, er); for (int i = 0; i < er; ++i) put(e.init, i, c.bytes, loc[i]);
				q.args.push_back(e); q.par = { len, er }; q.what = fmt("%d bits, %d hits, %d erasures", len, errs, er); },
				[&c, packed](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return packed ? c.decode(o, a[0], a[1], a[2], int(p[1]), int(p[0])) : c.rdecode(o, a[0], a[1], a[2], int(p[1]), int(p[0])); });
			add(n2 + " syndromes", packed ? c.dec : c.rdec, c.field, [&c, word, packed](Request &q, Rng &r) { int len; word(q, r, len, damage_count(4), packed, IN); q.args.push_back(out("syndromes", c.bytes, c.nr)); q.par = { len }; q.what = fmt("%d bits", len); },
				[&c, packed](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return packed ? c.syndromes(o, a[0], a[1], a[2], int(p[0])) : c.rsyndromes(o, a[0], a[1], a[2], int(p[0])); });
		}
	}
	void crs(const CrsCodec &c) {
		std::string nm = fmt("CRS over 2^%d 0x%x", c.m, c.poly); heavy = 0;
		auto shape_ = [&c](int &k, int &len) { int top = (1 << c.m) - 1; k = edgy(1, std::min((top + 1) / 2, 12)); len = weighted({ 1, 1 }) ? edgy(1, 130) : 16 * range(1, 8) / c.bytes; };
		auto symbols = [&c](Arg &a, Rng &r) { for (size_t i = 0; i < a.n / c.bytes; ++i) put(a.init, i, c.bytes, r.next() & ((1u << c.m) - 1)); };
		add(nm + " encoder", c.cls, c.field, [&c, shape_, symbols](Request &q, Rng &r) { int k, len; shape_(k, len); int top = (1 << c.m) - 1; Arg d = in("data", c.bytes, size_t(k) * len); symbols(d, r); q.args = { d, out("block", c.bytes, len) }; int id = chance(1, 3) ? top - int(draw(uint32_t(std::min(4, top - k + 1)))) : std::min(top, k + int(draw(40))); q.par = { id, len, k, int(draw(3)) }; q.what = fmt("%d blocks of %d, id %d", k, len, id); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { c.encode(o, a[0], a[1], int(p[0]), int(p[1]), int(p[2]), int(p[3])); return 0; });
		add(nm + " decoder", c.cls, c.field, [&c, shape_, symbols](Request &q, Rng &r) {
			int k, len; shape_(k, len); int top = (1 << c.m) - 1; Arg d = in("blocks", c.bytes, size_t(k) * len), ids = in("ids", c.bytes, k); symbols(d, r);
			auto s = r.sample(top - k + 1, k); for (int i = 0; i < k; ++i) put(ids.init, i, c.bytes, uint64_t(k + s[i]));
			q.args = { d, ids, out("data", c.bytes, size_t(k) * len) }; q.par = { k, len, int(draw(3)), c.bytes }; q.what = fmt("%d blocks of %d", k, len); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { for (int i = 0; i < p[0]; ++i) c.decode(o, a[2] + i * p[1] * p[3], a[0], a[1], i, int(p[1]), int(p[0]), int(p[2])); return 0; });
	}
	static void inside(Bytes &d, const CpfCodec &c) { if (c.prime - 1 < 1u << 8 * c.bytes) for (size_t i = 0; i < d.size() / c.bytes; ++i) { uint64_t v = 0; memcpy(&v, &d[i * c.bytes], c.bytes); v %= c.prime - 1; memcpy(&d[i * c.bytes], &v, c.bytes); } }
	void cpf(const CpfCodec &c) {
		std::string nm = fmt("CPF over %u up to %d", c.prime, c.max_len); heavy = 0;
		auto shape_ = [&c](int &k, int &len) { int top = int(c.prime / 2) - 1; k = edgy(1, std::min((top + 1) / 2, 12)); len = edgy(1, std::min(c.max_len, 260)); if (chance(1, 6) && c.max_len <= 1024) len = c.max_len; };
		add(nm + " encoder", c.cls, nullptr, [&c, shape_](Request &q, Rng &r) { int k, len; shape_(k, len); int top = int(c.prime / 2) - 1; Arg d = in("data", c.bytes, size_t(k) * len); r.fill(d.init.data(), d.n); inside(d.init, c); q.args = { d, out("block", c.bytes, len) }; int id = chance(1, 3) ? top - int(draw(4)) : std::min(top, k + int(draw(40))); q.par = { id, len, k }; q.what = fmt("%d blocks of %d, id %d", k, len, id); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return c.encode(o, a[0], a[1], int(p[0]), int(p[1]), int(p[2])); });
		add(nm + " decoder", c.cls, nullptr, [&c, shape_](Request &q, Rng &r) {
			int k, len; shape_(k, len); int top = int(c.prime / 2) - 1; uint64_t P = c.prime; Arg d = in("blocks", c.bytes, size_t(k) * len), subs = in("substitutes", c.bytes, k), ids = in("ids", c.bytes, k);
			Bytes data(d.n); r.fill(data.data(), data.size()); inside(data, c);
			auto s = r.sample(top - k + 1, k);
			for (int b = 0; b < k; ++b) {
				int id = k + s[b]; put(ids.init, b, c.bytes, id); std::vector<uint64_t> sum(len);
				for (int j = 0; j < k; ++j) { uint64_t a = 1, x = (id + j) % P; for (uint64_t e = P - 2; e; e >>= 1) { if (e & 1) a = a * x % P; x = x * x % P; } for (int i = 0; i < len; ++i) { uint64_t v = 0; memcpy(&v, &data[(size_t(j) * len + i) * c.bytes], c.bytes); sum[i] = (sum[i] + a * v) % P; } }
				std::vector<uint64_t> so(sum); std::sort(so.begin(), so.end()); uint64_t sub = 0; for (uint64_t v : so) if (v == sub) ++sub;
				put(subs.init, b, c.bytes, sub);
				for (int i = 0; i < len; ++i) put(d.init, size_t(b) * len + i, c.bytes, sum[i] == P - 1 ? sub : sum[i]);
			}
			q.args = { d, subs, ids, out("data", c.bytes, size_t(k) * len) }; q.par = { k, len, c.bytes }; q.what = fmt("%d blocks of %d", k, len); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { for (int i = 0; i < p[0]; ++i) c.decode(o, a[3] + i * p[1] * p[2], a[0], a[1], a[2], i, int(p[1]), int(p[0])); return 0; });
	}
	static void soft8(Bytes &b, const std::vector<int> &x, Rng &r, int lo = -128) {
		int amp = pick(std::vector<int>{ 1, 2, 5, 20, 60, 127 }), sg = int(draw(14)) * amp / 10; bool wild = chance(1, 4);
		for (size_t i = 0; i < b.size(); ++i) { int v = wild ? int(r.next() & 255) - 128 : int(std::lrint(amp * x[i] + sg * r.gauss())); b[i] = uint8_t(int8_t(std::max(lo, std::min(127, v)))); }
		if (chance(1, 3)) { int s = int(draw(uint32_t(b.size()))), l = range(0, int(b.size()) - s); for (int i = s; i < s + l; ++i) b[i] = 0; }
	}
	void word(const WordCodec &c) {
		std::string nm = fmt("%s K=%d", c.family, c.k); heavy = 0;
		add(nm + " encoder", c.enc, nullptr, [&c](Request &q, Rng &) { q.args = { out("code", 1, c.n) }; q.par = { edgy(0, (1 << c.k) - 1) }; }, [&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { c.encode(o, (int8_t *)a[0], int(p[0])); return 0; });
		add(nm + " decoder", c.dec, nullptr, [&c](Request &q, Rng &r) { Arg a = in("soft", 1, c.n); int m = edgy(0, (1 << c.k) - 1); bool h = c.family[0] == 'h'; std::vector<int> x(c.n); for (int i = 0; i < c.n; ++i) x[i] = __builtin_parity(unsigned(m) & unsigned(h ? (i | (1 << (c.k - 1))) : i + 1)) ? -1 : 1; soft8(a.init, x, r); q.args = { a }; },
			[&c](void *o, uint8_t *const *a, const int64_t *) -> int64_t { return c.decode(o, (const int8_t *)a[0]); });
	}
	void sbch(const SbchCodec &c) {
		std::string nm = fmt("short BCH(%d,%d) T=%d", c.n, c.k, c.t); heavy = c.k > 12 ? 2 : c.k > 10 || c.n - c.k > 14;
		add(nm + " encoder", c.enc, nullptr, [&c](Request &q, Rng &) { q.par = { edgy(0, (1 << c.k) - 1) }; }, [&c](void *o, uint8_t *const *, const int64_t *p) -> int64_t { return c.encode(o, int(p[0])); });
		add(nm + " soft encoder", c.enc, nullptr, [&c](Request &q, Rng &) { q.args = { out("code", 1, c.n) }; q.par = { edgy(0, (1 << c.k) - 1) }; }, [&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return c.encode_soft(o, (int8_t *)a[0], int(p[0])); });
		add(nm + " hard decoder", c.dec, nullptr, [&c](Request &q, Rng &r) { q.par = { int(r.next() & ((1u << c.n) - 1)) }; }, [&c](void *o, uint8_t *const *, const int64_t *p) -> int64_t { return c.hard(o, int(p[0])); });
		add(nm + " soft decoder", c.dec, nullptr, [&c](Request &q, Rng &r) { Arg a = in("soft", 1, c.n); std::vector<int> x(c.n, 1); soft8(a.init, x, r); q.args = { a }; }, [&c](void *o, uint8_t *const *a, const int64_t *) -> int64_t { return c.soft(o, (const int8_t *)a[0]); });
	}
	static std::vector<int8_t> ldpc_word(const LdpcTable &t, Rng &r) {
		int R = t.N - t.K, q = R / t.M, base = 0; std::vector<uint8_t> x(t.N); for (int i = 0; i < t.K; ++i) x[i] = r.next() & 1;
		const int *p = t.POS;
		for (int g = 0; t.LEN[g]; ++g) for (int l = 0; l < t.LEN[g]; ++l, base += t.M, p += t.DEG[g]) for (int d = 0; d < t.DEG[g]; ++d) for (int s = 0; s < t.M; ++s) x[t.K + (p[d] + q * s) % R] ^= x[base + s];
		for (int i = 1; i < R; ++i) x[t.K + i] ^= x[t.K + i - 1];
		std::vector<int8_t> w(t.N); for (int i = 0; i < t.N; ++i) w[i] = x[i] ? -1 : 1;
		return w;
	}
	void ldpc(const LdpcCodec &c) {
		std::string nm = fmt("LDPC %s beta %d", c.t.name, c.beta); heavy = c.t.N > 20000 ? 2 : 1;
		add(nm + " encoder", c.enc, nullptr, [&c](Request &q, Rng &r) { Arg a = in("data", 1, c.t.K); for (auto &b : a.init) b = r.next() & 1 ? 255 : 1; q.args = { a, out("parity", 1, c.t.N - c.t.K) }; }, [&c](void *o, uint8_t *const *a, const int64_t *) -> int64_t { c.encode(o, (const int8_t *)a[0], (int8_t *)a[1]); return 0; });
		Service &s = add(nm + " decoder", c.dec, nullptr, [&c](Request &q, Rng &r) {
			auto w = ldpc_word(c.t, r); Arg d = inout("message", 1, c.t.K), p = inout("parity", 1, c.t.N - c.t.K);
			q.easy = coin(); int trials = q.easy ? 25 : edgy(0, 6);
			double sg = safe_sigma(c.t.name) * (c.beta > 1 ? .93 : 1) * (q.easy ? (5 + draw(14)) / 20. : (8 + draw(30)) / 10.), amp = 4 / (sg * sg);
			for (int i = 0; i < c.t.N; ++i) { double v = amp * (w[i] + sg * r.gauss()); int8_t x = int8_t(v > 127 ? 127 : v < -128 ? -128 : std::lrint(v)); (i < c.t.K ? d.init[i] : p.init[i - c.t.K]) = uint8_t(x); }
			q.args = { d, p }; q.par = { trials }; q.what = fmt("%s, %d trials", q.easy ? "clear" : "noisy", trials); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return c.decode(o, (int8_t *)a[0], (int8_t *)a[1], int(p[0])); });
		s.group = wide; s.canon = [](const Request &q, const Result &r) { Result x; if (q.easy) { x.ret = r.ret >= 0; for (uint8_t b : r.out) x.out.push_back(b >> 7); } return x; };
	}
	static void pm(Arg &a, Rng &r, bool flt) { for (size_t i = 0; i < a.n / a.elem; ++i) { int v = r.next() & 1 ? -1 : 1; if (flt) { float f = float(v); memcpy(&a.init[i * 4], &f, 4); } else a.init[i] = uint8_t(int8_t(v)); } }
	// a codeword with the given roles, as received
	static void received(Arg &a, const std::vector<uint8_t> &roles, Rng &r, bool flt, int lo, int hi) {
		std::vector<int> msg; for (uint8_t x : roles) if (x == 1) msg.push_back(r.next() & 1 ? -1 : 1);
		auto x = polar_transform(polar_place(roles, msg)); int n = int(x.size());
		if (!flt) { soft8(a.init, x, r, lo); return; }
		int amp = pick(std::vector<int>{ 1, 4, 30, hi }), sg = int(draw(14)) * amp / 10;
		for (int i = 0; i < n; ++i) { float v = float(std::max(-hi, std::min(hi, int(std::lrint(amp * x[i] + sg * r.gauss()))))); if (v) v += float(int(r.below(15)) - 7) / 16 * (std::fabs(v) >= 1); memcpy(&a.init[size_t(i) * 4], &v, 4); }
	}
	static Arg frozen_arg(const std::vector<uint32_t> &f) { Arg a = in("frozen", 4, f.size()); memcpy(a.init.data(), f.data(), a.n); return a; }
	void polar(const PolarCodec &c) {
		if (c.max_m > 14) return;
		std::string nm = fmt("polar %s up to level %d", c.flt ? "float" : "int8", c.max_m); heavy = c.max_m > 11;
		auto level_of = [&c] { return c.max_m > 11 ? (chance(1, 8) ? c.max_m : range(5, 10)) : edgy(5, c.max_m); };
		for (int sys = 0; sys < 2; ++sys)
			add(nm + (sys ? " systematic encoder" : " encoder"), sys ? c.sys : c.enc, nullptr, [&c, level_of, sys](Request &q, Rng &r) { int l = level_of(), n = 1 << l; auto f = make_frozen(l, sys, false); int K = open_bits(f, n); Arg m = in("message", c.bytes, K); pm(m, r, c.flt); q.args = { m, frozen_arg(f), out("codeword", c.bytes, n) }; q.par = { l }; q.what = fmt("level %d, %d bits", l, K); },
				[&c, sys](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { (sys ? c.sysenc : c.encode)(o, a[2], a[0], (const uint32_t *)a[1], int(p[0])); return 0; });
		add(nm + " decoder", c.dec, nullptr, [&c, level_of](Request &q, Rng &r) { int l = level_of(), n = 1 << l; auto f = make_frozen(l, false, false); int K = open_bits(f, n); Arg x = in("received", c.bytes, n); received(x, polar_roles(f, n, false, 0, 0), r, c.flt, -128, 1000); q.args = { x, frozen_arg(f), out("message", c.bytes, K) }; q.par = { l }; q.what = fmt("level %d, %d bits", l, K); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { c.decode(o, a[2], a[0], (const uint32_t *)a[1], int(p[0])); return 0; });
	}
	void list(const ListCodec &c) {
		std::string nm = fmt("polar list of %d %s up to level %d", c.lanes, c.flt ? "float" : "int8", c.max_m); heavy = 0;
		int simd = std::min(64, c.bytes * c.lanes); // alignment of the vectors
		struct Code { int level, n, K, stride, first; std::vector<uint32_t> f; std::vector<uint8_t> roles; };
		auto code = [&c](bool parity) { Code x; for (;;) {
			x.level = range(5, std::min(c.max_m, chance(1, 6) ? 9 : 7)); x.n = 1 << x.level; x.f = make_frozen(x.level, coin(), true); int open = open_bits(x.f, x.n);
			x.stride = edgy(0, std::min(open + 2, 64)); x.first = edgy(x.stride ? 0 : 1, std::min(open + 2, 80)); x.roles = polar_roles(x.f, x.n, parity, x.stride, x.first);
			x.K = 0; for (uint8_t r : x.roles) x.K += r == 1;
			if (x.K) return x; } };
		add(nm + " parity encoder", c.penc, nullptr, [&c, code](Request &q, Rng &r) { Code x = code(true); Arg m = in("message", c.bytes, x.K); pm(m, r, c.flt); q.args = { m, frozen_arg(x.f), out("codeword", c.bytes, x.n) }; q.par = { x.level, x.stride, x.first }; q.what = fmt("level %d, %d bits, stride %d, first %d", x.level, x.K, x.stride, x.first); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { c.par_encode(o, a[2], a[0], (const uint32_t *)a[1], int(p[0]), int(p[1]), int(p[2])); return 0; });
		Class none{ 1, 1, [](void *) {}, [](void *) {} };
		add(nm + " lane encoder", none, nullptr, [&c, code, simd](Request &q, Rng &r) { Code x = code(false); Arg m = in("messages", c.bytes, size_t(x.K) * c.lanes, simd); pm(m, r, c.flt); q.args = { m, frozen_arg(x.f), out("codewords", c.bytes, size_t(x.n) * c.lanes, simd) }; q.par = { x.level }; q.what = fmt("level %d, %d bits", x.level, x.K); },
			[&c](void *, uint8_t *const *a, const int64_t *p) -> int64_t { c.lane_encode(a[2], a[0], (const uint32_t *)a[1], int(p[0])); return 0; });
		for (int parity = 0; parity < 2; ++parity)
			add(nm + (parity ? " parity decoder" : " decoder"), parity ? c.pdec : c.list, nullptr, [&c, code, parity, simd](Request &q, Rng &r) { Code x = code(parity); Arg s = in("received", c.bytes, x.n); received(s, x.roles, r, c.flt, -127, 4000); bool ranks = !chance(1, 8); q.args = { s, frozen_arg(x.f), out("messages", c.bytes, size_t(x.K) * c.lanes, simd), out("ranks", 4, ranks ? c.lanes : 0) }; q.par = { x.level, x.stride, x.first, ranks }; q.what = fmt("level %d, %d bits, stride %d, first %d", x.level, x.K, x.stride, x.first);
				int lanes = x.K < 10 ? std::min(c.lanes, 1 << x.K) : c.lanes; // lanes beyond the number of messages mean nothing
				Arg &m = q.args[2]; m.may.assign(m.n, 0xff); m.def.assign(m.n, 0); for (int i = 0; i < x.K; ++i) memset(&m.def[size_t(i) * c.lanes * c.bytes], 0xff, size_t(lanes) * c.bytes);
				Arg &k = q.args[3]; k.may.assign(k.n, 0xff); k.def.assign(k.n, 0); if (ranks) memset(k.def.data(), 0xff, size_t(lanes) * 4); },
				[&c, parity](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { int *rk = p[3] ? (int *)a[3] : nullptr; if (parity) c.par_decode(o, rk, a[2], a[0], (const uint32_t *)a[1], int(p[0]), int(p[1]), int(p[2])); else c.list_decode(o, rk, a[2], a[0], (const uint32_t *)a[1], int(p[0])); return 0; });
	}
	void osd(const OsdCodec &c) {
		heavy = c.k > 40 ? 2 : 0; std::string nm = fmt("%s (%d,%d) order %d list %d", c.name, c.n, c.k, c.o, c.l);
		auto matrix = [&c](Arg &g, Rng &r) { // a shuffled systematic code
			auto cols = r.sample(c.n, c.n); for (int j = 0; j < c.k; ++j) for (int i = 0; i < c.n; ++i) g.init[size_t(j) * c.n + cols[i]] = i < c.k ? i == j : r.next() & 1;
			for (int t = 0; t < c.k; ++t) { int a = int(r.below(c.k)), b = int(r.below(c.k)); if (a != b) for (int i = 0; i < c.n; ++i) g.init[size_t(a) * c.n + i] ^= g.init[size_t(b) * c.n + i]; } };
		int nb = (c.n + 7) / 8;
		add(nm + " decoder", c.dec, nullptr, [&c, matrix, nb](Request &q, Rng &r) {
			Arg g = in("generator matrix", 1, size_t(c.n) * c.k), s = in("soft", 1, c.n); matrix(g, r);
			std::vector<int> x(c.n, 1); for (int j = 0; j < c.k; ++j) if (r.next() & 1) for (int i = 0; i < c.n; ++i) if (g.init[size_t(j) * c.n + i]) x[i] = -x[i];
			soft8(s.init, x, r);
			int L = std::max(c.l, 1); Arg h = inout("hard", 1, size_t(nb) * L); r.fill(h.init.data(), h.n); h.may.clear(); for (int l = 0; l < L; ++l) { Bytes m = first_bits_be(nb, c.n); h.may.insert(h.may.end(), m.begin(), m.end()); }
			q.args = { s, g, h, out("rank", 4, c.l) }; },
			[&c](void *o, uint8_t *const *a, const int64_t *) -> int64_t { if (!c.l) return c.decode(o, a[2], (const int8_t *)a[0], (const int8_t *)a[1]); c.list_decode(o, (int *)a[3], a[2], (const int8_t *)a[0], (const int8_t *)a[1]); return 0; });
		Class none{ 1, 1, [](void *) {}, [](void *) {} };
		add(nm + " linear encoder", none, nullptr, [&c, matrix, nb](Request &q, Rng &r) { Arg g = in("generator matrix", 1, size_t(c.n) * c.k), m = in("message", 1, (c.k + 7) / 8); matrix(g, r); r.fill(m.init.data(), m.n); Arg w = inout("codeword", 1, nb); r.fill(w.init.data(), w.n); w.may = first_bits_be(nb, c.n); q.args = { m, g, w }; },
			[&c](void *, uint8_t *const *a, const int64_t *) -> int64_t { c.encode(a[2], a[0], (const int8_t *)a[1]); return 0; });
		if (c.genmat) add(nm + " generator", none, nullptr, [&c](Request &q, Rng &) { q.args = { out("generator matrix", 1, size_t(c.n) * c.k) }; q.par = { int(coin()) }; }, [&c](void *, uint8_t *const *a, const int64_t *p) -> int64_t { c.genmat((int8_t *)a[0], p[0]); return 0; });
	}
	void crc(const CrcCodec &c) {
		static const uint64_t polys[] = { 0, 0x07, 0xA001, 0, 0xEDB88320, 0, 0, 0, 0xC96C5795D7870F42ull };
		uint64_t poly = polys[c.bytes]; heavy = 0;
		Class k{ c.size, c.align, [&c, poly](void *p) { c.make(p, poly, 0); }, [](void *) {} };
		add(fmt("CRC%d session", c.bytes * 8), k, nullptr, [](Request &q, Rng &r) { int n = edgy(1, 60); Arg d = in("data", 8, n); r.fill(d.init.data(), d.n); q.args = { d, out("checksums", 8, n) }; q.par = { n, int64_t(coin()), int64_t(r.next()), int64_t(r.next()) }; },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t {
				c.reset(o, p[1], uint64_t(p[2])); uint64_t kinds = uint64_t(p[3]);
				for (int i = 0; i < p[0]; ++i) { uint64_t v = ((uint64_t *)a[0])[i], x; int kind = int(kinds >> (i % 20 * 3) & 7) % 5; x = kind == 0 ? c.bit(o, v & 1) : kind == 1 ? c.u8(o, uint8_t(v)) : kind == 2 ? c.u16(o, uint16_t(v)) : kind == 3 ? c.u32(o, uint32_t(v)) : c.u64(o, v); ((uint64_t *)a[1])[i] = x; }
				return int64_t(c.get(o)); });
	}
	void bits(const BitsCodec &c) {
		heavy = 0; int B = c.bits;
		add(fmt("bit stream of %d session", B), c.cls, nullptr, [B](Request &q, Rng &r) {
			// (kind, width, value) triples, written and then read back
			std::vector<int64_t> ops; int pos = 0;
			for (int i = 0; i < 40 && pos < B; ++i) { int kind = int(r.below(4)), room = B - pos, w = 1; if (room < 8 && (kind == 1 || kind == 2)) kind = 0; if (kind == 1) w = 8; if (kind == 2) w = 8 * (1 + int(r.below(uint32_t(std::min(room / 8, 9))))); if (kind == 3) w = 1 + int(r.below(uint32_t(std::min(room, 64)))); ops.push_back(kind); ops.push_back(w); ops.push_back(int64_t(r.next())); pos += w; }
			Arg d = in("bytes", 1, 16), o = out("read back", 8, ops.size() / 3 * 2); r.fill(d.init.data(), 16);
			q.args = { d, o }; q.par = { int64_t(ops.size() / 3) }; q.par.insert(q.par.end(), ops.begin(), ops.end()); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t {
				c.reset(o); uint64_t *out = (uint64_t *)a[1]; int n = int(p[0]);
				auto type = [](int w) { return w <= 8 ? 0 : w <= 16 ? 1 : w <= 32 ? 2 : 3; };
				for (int i = 0; i < n; ++i) { int k = int(p[1 + 3 * i]), w = int(p[2 + 3 * i]); uint64_t v = uint64_t(p[3 + 3 * i]); if (k == 0) c.putbit(o, v & 1); else if (k == 1) c.putbyte(o, uint8_t(v)); else if (k == 2) c.writebytes(o, a[0] + v % 7, w / 8); else c.writebits(o, v, w, type(w)); }
				int64_t end = c.tell(o); c.seek(o, 0);
				for (int i = 0; i < n; ++i) { int k = int(p[1 + 3 * i]), w = int(p[2 + 3 * i]); uint64_t x = 0, y = 0; if (k == 0) x = c.getbit(o); else if (k == 1) x = c.getbyte(o); else if (k == 2) { uint8_t t[16] = {}; c.readbytes(o, t, w / 8); memcpy(&x, t, 8); memcpy(&y, t + 8, 8); } else { x = c.readbits(o, w, type(w)); if (w < 64) x &= (1ull << w) - 1; } out[2 * i] = x; out[2 * i + 1] = y; }
				return end * 100000 + c.tell(o); });
	}
	void intlv(const IntlvCodec &c) {
		heavy = size_t(c.size) * c.bytes > 40000 ? 1 : 0;
		for (int d = 0; d < 2; ++d) add(fmt("%s<%d,%d> of %d byte elements", d ? "deinterleave" : "interleave", c.size, c.order, c.bytes), Class{ 1, 1, [](void *) {}, [](void *) {} }, nullptr, [&c](Request &q, Rng &r) { int al = c.bytes == 3 ? 1 : std::min(c.bytes, 4); Arg a = in("input", c.bytes, c.size, al); r.fill(a.init.data(), a.n); if (c.bytes == 4) for (int i = 0; i < c.size; ++i) { float f = float(int(r.next() & 0xffff)); memcpy(&a.init[size_t(i) * 4], &f, 4); } if (c.bytes == 12) for (int i = 0; i < c.size; ++i) { float f = float(i); memcpy(&a.init[size_t(i) * 12 + 4], &f, 4); } q.args = { a, out("output", c.bytes, c.size, al) }; },
			[&c, d](void *, uint8_t *const *a, const int64_t *) -> int64_t { (d ? c.inv : c.fwd)(a[1], a[0]); return 0; });
	}
	void perm(const PermCodec &c) {
		heavy = c.size > 5000 ? 1 : 0;
		for (int d = 0; d < 2; ++d) add(fmt("%s %s<%d> of %d byte elements", d ? "reverse" : "forward", c.family, c.size, c.bytes), d ? c.inv : c.fwd, nullptr, [&c](Request &q, Rng &r) { int al = c.bytes == 3 ? 1 : std::min(c.bytes, 4); Arg a = inout("array", c.bytes, c.size, al); for (int i = 0; i < c.size; ++i) { uint64_t v = r.next(); memcpy(&a.init[size_t(i) * c.bytes], &v, std::min(c.bytes, 4)); } q.args = { a }; },
			[&c, d](void *o, uint8_t *const *a, const int64_t *) -> int64_t { (d ? c.reverse : c.forward)(o, a[0]); return 0; });
	}
	void prng(const PrngCodec &c) {
		heavy = 0;
		Class k{ c.size, c.align, [&c](void *p) { c.make(p, 0, nullptr); }, [](void *) {} };
		add(fmt("%s session", c.name), k, nullptr, [&c](Request &q, Rng &r) { int n = edgy(1, 100), total = c.bad ? 1 : c.nseed, na = int(draw(uint32_t(total + 1))); q.args = { out("values", 8, n) }; q.par = { n, na }; for (int i = 0; i < total; ++i) q.par.push_back(c.bad ? 1 + r.below(1 << 20) : int64_t(r.raw() | 1)); },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { c.reset(o, int(p[1]), (const uint64_t *)p + 2); for (int i = 0; i < p[0]; ++i) ((uint64_t *)a[0])[i] = c.next(o); return 0; });
	}
	void misc(const MiscCodec &c) {
		heavy = 0; std::string nm = fmt("%s of %d bytes, up to %d%s", c.name, c.bytes, c.max, c.flt ? " float" : "");
		auto fill = [&c](Arg &a, Rng &r) { int spread = pick(std::vector<int>{ 3, 30, 255 }); int mode = int(draw(4)); for (size_t i = 0; i < a.n / c.bytes; ++i) { int v = int(r.below(uint32_t(spread))); if (mode == 0) v = std::min<int>(255, int(i)); if (mode == 1) v = std::max<int>(0, 255 - int(i)); if (c.flt) { float f = float(v - 100); memcpy(&a.init[i * 4], &f, 4); } else put(a.init, i, c.bytes, c.bytes == 4 ? v | uint64_t(i) << 16 : v); } };
		Service &s = add(nm, c.cls, nullptr, [&c, fill](Request &q, Rng &r) {
			if (c.kind == 0 || c.kind == 1) { int n = edgy(1, c.max); Arg a = inout("array", c.bytes, n); fill(a, r); q.args = { a }; if (c.kind == 1) q.args.push_back(out("order", 4, n)); q.par = { n }; q.what = fmt("%d elements", n); }
			if (c.kind == 2) { int n = edgy(2, c.max); Arg a = in("input", c.bytes, n); r.fill(a.init.data(), a.n); q.args = { a, out("output", c.bytes, n) }; q.par = { n }; q.what = fmt("%d elements", n); }
			if (c.kind == 3) { int l = edgy(1, c.max); Arg a = inout("frozen", 4, ((1 << l) + 31) / 32); r.fill(a.init.data(), a.n); a.may = first_bits_le(a.n, size_t(1) << l); q.args = { a }; q.par = { l, range(0, 1 << l), range(1, 999), range(1, 999) }; q.what = fmt("level %d", l); }
			if (c.kind == 4) { int l = edgy(1, c.max); q.args = { out("sequence", 4, size_t(1) << l) }; q.par = { l, 0, range(1, 999) }; q.what = fmt("level %d", l); } },
			[&c](void *o, uint8_t *const *a, const int64_t *p) -> int64_t { return c.call(o, (void *const *)a, p); });
		if (c.kind >= 3) s.canon = [](const Request &, const Result &) { return Result(); }, s.group = B.isa[0] == 'a' ? 5 + (B.isa == "a32") : 2 + wide * 2 + (B.isa == "v2"); // ties after rounding may fall differently
	}
	void vec(const VecMachine &c) {
		heavy = 0; int words = int(c.size / (c.nregs * c.bytes) * c.nregs);
		add(fmt("%s x %d operations", c.type, c.lanes), Class{ 1, 1, [](void *) {}, [](void *) {} }, nullptr, [&c, words](Request &q, Rng &r) {
			Arg a = inout("registers", c.bytes, words, int(c.align)); bool flt = c.type[0] == 'f' || c.type[0] == 'd'; int style = int(draw(3));
			for (int i = 0; i < words; ++i) { uint64_t v = style == 0 ? r.next() : style == 1 ? uint64_t(int64_t(r.below(7)) - 3) : r.below(3) == 0 ? uint64_t(1) << (8 * c.bytes - 1) : r.below(2) ? (uint64_t(1) << (8 * c.bytes - 1)) - 1 : r.next() & 1 ? ~0ull : 0; if (flt && i < words / 2) { int w = int(int32_t(v)) % 2000; if (c.bytes == 4) { float f = float(w); memcpy(&a.init[size_t(i) * 4], &f, 4); } else { double f = double(w); memcpy(&a.init[size_t(i) * 8], &f, 8); } } else put(a.init, i, c.bytes, v); }
			int n = edgy(1, 40); q.args = { a }; q.par = { n }; for (int i = 0; i < n; ++i) { q.par.push_back(r.below(uint32_t(c.nops))); q.par.push_back(int64_t(r.next() & 0xfff)); q.par.push_back(int64_t(r.below(256)) - 128); } q.what = fmt("%d operations", n); },
			[&c](void *, uint8_t *const *a, const int64_t *p) -> int64_t { for (int i = 0; i < p[0]; ++i) { int x = int(p[2 + 3 * i]); c.step(a[0], int(p[1 + 3 * i]), x & 7, x >> 3 & 7, x >> 6 & 7, x >> 9 & 7, int(p[3 + 3 * i])); } return 0; });
	}
	void build() {
		fam = RS; for (auto &c : B.rs) rs(c);
		fam = BCH; for (auto &c : B.bch) bch(c);
		fam = CRS; for (auto &c : B.crs) crs(c);
		fam = CPF; for (auto &c : B.cpf) cpf(c);
		fam = WORD; for (auto &c : B.word) if (c.k <= 14) word(c);
		fam = SBCH; for (auto &c : B.sbch) sbch(c);
		fam = LDPC; for (auto &c : B.ldpc) ldpc(c);
		fam = POLAR; for (auto &c : B.polar) polar(c);
		fam = LIST; for (auto &c : B.list) list(c);
		fam = OSD; for (auto &c : B.osd) osd(c);
		fam = CRCS; for (auto &c : B.crc) crc(c);
		fam = BITS; for (auto &c : B.bits) bits(c);
		fam = INTLV; for (auto &c : B.intlv) intlv(c);
		fam = PERM; for (auto &c : B.perm) perm(c);
		fam = PRNG; for (auto &c : B.prng) prng(c);
		fam = MISC; for (auto &c : B.misc) misc(c);
		fam = VEC; for (auto &c : B.vec) vec(c);
	}
};
std::map<std::string, std::vector<Service>> cache;
struct Prebuilt { Prebuilt() { for (auto b : backends()) services(b->isa); } };
}
const std::vector<Service> &services(const std::string &isa) {
	auto it = cache.find(isa); if (it != cache.end()) return it->second;
	Maker m(backend(isa)); m.build();
	return cache[isa] = m.v;
}
static Prebuilt prebuilt;
int families() { return FAMILIES; }
int pick_service(const std::vector<Service> &v, int max_heavy) {
	static std::vector<std::vector<int>> by;
	if (by.empty()) { std::vector<std::vector<int>> f(FAMILIES); for (size_t i = 0; i < v.size(); ++i) f[v[i].family].push_back(int(i)); for (auto &x : f) if (!x.empty()) by.push_back(x); }
	const auto &f = by[draw(uint32_t(by.size()))];
	for (int t = 0;; ++t) {
		int i = f[draw(uint32_t(f.size()))]; int h = v[i].heavy;
		if (t < 30 && (h > max_heavy || (h == 2 && !chance(1, 20)) || (h == 1 && !chance(1, 4)))) continue;
		return i;
	}
}
Result collect(const Request &q, int64_t ret, uint8_t *const *b) {
	Result r; r.ret = ret;
	for (size_t k = 0; k < q.args.size(); ++k) { const Arg &a = q.args[k]; if (a.role == IN) continue; for (size_t i = 0; i < a.n; ++i) r.out.push_back(b[k][i] & a.defined(i)); }
	return r;
}
std::string difference(const Request &q, const Result &x, const Result &y) {
	if (x.ret != y.ret) return fmt("returned %lld, expected %lld", (long long)x.ret, (long long)y.ret);
	size_t o = 0;
	for (auto &a : q.args) { if (a.role == IN) continue; for (size_t i = 0; i < a.n; ++i, ++o) if (o < x.out.size() && o < y.out.size() && x.out[o] != y.out[o]) return fmt("%s: byte %zu of %zu is %02x, expected %02x", a.name, i, a.n, x.out[o], y.out[o]); }
	return x.out == y.out ? "no difference" : "sizes differ";
}
Mem put_one(const Arg &a, int how) {
	int unit = std::max(a.align, 1); Mem m;
	if (how == 2 && coin()) m = alloc_edge(a.n, unit, coin(), a.name);
	else m = alloc(a.n, std::max(unit, 64), how && unit < 64 && a.align <= 8 && coin() ? size_t(unit) * draw(uint32_t(64 / unit)) : 0, a.name);
	if (a.role != OUT && a.n) memcpy(m.p, a.init.data(), a.n);
	return m;
}
void Place::put(const Request &q, int how, const std::vector<uint8_t *> *shared) {
	for (size_t k = 0; k < q.args.size(); ++k) {
		if (shared && q.args[k].role == IN) { mem.push_back(Mem()); p.push_back((*shared)[k]); continue; }
		mem.push_back(put_one(q.args[k], how)); p.push_back(mem.back().p);
	}
}
void Place::free() { while (!mem.empty()) { release(mem.back()); mem.pop_back(); } p.clear(); }
}
