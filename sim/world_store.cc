// A cluster that spreads objects over nodes as erasure-coded blocks (C04 Cauchy Reed-Solomon, C05 Cauchy prime field).
// Real: the coders, one object per host, hosts on different processor back ends. Simulated: network, nodes, disks, clock.
#include "codecs.hh"
#include <map>
#include <set>
using namespace sim;

namespace {
struct Coder { // one host's coder object
	const CrsCodec *crs = nullptr; const CpfCodec *cpf = nullptr; FieldUse field; Obj o; std::string isa;
	void start(Backend &b, int which, bool prime) {
		isa = b.isa;
		if (prime) { cpf = &b.cpf[which]; o = Obj(cpf->cls, "coder"); }
		else { crs = &b.crs[which]; field = FieldUse(crs->field); o = Obj(crs->cls, "coder"); }
	}
	int bytes() const { return cpf ? cpf->bytes : crs->bytes; }
};
typedef std::vector<uint8_t> Bytes;
struct Block { int version, id; uint32_t sub; Bytes b; };
struct Object { int version = -1, k = 0, len = 0; Bytes data; std::map<int, Block> blocks; std::set<int> used; };

struct Node { bool up = true; std::vector<Block> cache, disk; int epoch = 0; };

struct Cluster {
	bool prime; int which, bytes, lo_id_excl, hi_id; Coder host[3]; std::vector<Node> nodes; Object obj; Rng r; int ops, version = 0;
	uint32_t drop, dup, maxdelay; bool part = false; bool healed = false; int decoded = 0, reads_done = 0, repairs = 0;
	uint32_t P = 0; int maxlen = 1 << 30;
	explicit Cluster(bool p) : prime(p), r(rng()) {
		auto bs = backends();
		Backend &b0 = *bs[0];
		which = int(draw(uint32_t(p ? b0.cpf.size() : b0.crs.size())));
		for (auto &h : host) h.start(*bs[draw(uint32_t(bs.size()))], which, p);
		bytes = host[0].bytes();
		if (p) { P = host[0].cpf->prime; maxlen = host[0].cpf->max_len; hi_id = int(P / 2) - 1; }
		else hi_id = (1 << host[0].crs->m) - 1;
		nodes.resize(range(2, 6));
		drop = pick<uint32_t>({ 0, 5, 20, 50 }); dup = pick<uint32_t>({ 0, 5, 30 }); maxdelay = pick<uint32_t>({ 10, 1000, 50000 });
		ops = range(2, 6);
		log("%s %s hosts %s %s %s nodes %zu", p ? "CPF" : "CRS", name().c_str(), host[0].isa.c_str(), host[1].isa.c_str(), host[2].isa.c_str(), nodes.size());
		if (host[0].isa != host[1].isa || host[1].isa != host[2].isa) fault("mixed_backends");
	}
	std::string name() const { char t[64]; if (prime) snprintf(t, sizeof t, "P=%u MAX_LEN=%d", P, maxlen); else snprintf(t, sizeof t, "M=%d 0x%x %d-byte", host[0].crs->m, host[0].crs->poly, bytes); return t; }
	// one coefficient of the code, computed independently: used only to build adversarial payloads
	uint64_t modpow(uint64_t a, uint64_t e) const { uint64_t t = 1; for (; e; e >>= 1, a = a * a % P) if (e & 1) t = t * a % P; return t; }
	uint64_t coef(int id, int k) const { return modpow((id + k) % P, P - 2); }
	uint32_t get(const Bytes &b, size_t i) const { return bytes == 1 ? b[i] : b[2 * i] | b[2 * i + 1] << 8; }
	void put(Bytes &b, size_t i, uint32_t v) const { if (bytes == 1) b[i] = v; else { b[2 * i] = v; b[2 * i + 1] = v >> 8; } }

	void geometry() {
		int kmax = (hi_id + 1) / 2;
		obj.k = edgy(1, std::min(kmax, 24));
		if (chance(1, 25)) obj.k = edgy(1, std::min(kmax, thorough() ? 400 : chance(1, 3) ? 260 : 140));
		if (kmax > 400 && chance(1, thorough() ? 200 : 500)) { obj.k = range(400, std::min(kmax, 1500)); probe("many_blocks"); }
		int cap = std::min(maxlen, obj.k > 400 ? 16 : obj.k > 30 ? 96 : 2048);
		switch (weighted({ 3, 3, 2, 1 })) {
		case 0: obj.len = 32 * range(1, std::max(1, std::min(8, cap / 32))); break;
		case 1: obj.len = edgy(1, std::min(cap, 100)); break;
		case 2: obj.len = 16 * range(1, std::max(1, std::min(20, cap / 16))); break;
		default: obj.len = edgy(1, cap); break;
		}
		if (obj.len > maxlen) obj.len = maxlen;
		if (prime && maxlen == 65535 && chance(1, 60)) { obj.len = 65535; obj.k = range(1, 4); }
		if (!prime && obj.k < 30 && chance(1, 120)) { obj.len = 1024 * range(2, 128) + (coin() ? 0 : range(1, 63)); obj.k = range(1, std::min(kmax, 4)); probe("large_blocks"); }
	}
	int new_id() {
		int lo = obj.k, hi = hi_id, id;
		if (int(obj.used.size()) >= hi - lo + 1) return -1;
		do { id = chance(1, 2) ? std::min(hi, lo + int(draw(uint32_t(obj.k * 2 + 4)))) : chance(1, 3) ? std::max(lo, hi - int(draw(uint32_t(obj.k * 2 + 4)))) : lo + int(r.raw() % (hi - lo + 1)); } while (obj.used.count(id));
		obj.used.insert(id);
		return id;
	}
	Buf<uint8_t> buffer(size_t n, const char *what) {
		int skew = weighted({ 4, 1, 1, 1 }) ; static const int sk[4] = { 0, 16, 2, 6 };
		return Buf<uint8_t>(n, 64, skew == 3 && bytes == 1 ? 1 + draw(31) : size_t(sk[skew] * (bytes == 2 && sk[skew] < 16 ? 1 : 1)), what);
	}
	void payload(int first_id) {
		obj.data.resize(size_t(obj.k) * obj.len * bytes);
		Rng d = rng(); d.fill(obj.data.data(), obj.data.size());
		int kind = weighted({ 6, 1, 1 });
		if (kind == 1) memset(obj.data.data(), 0xff, obj.data.size());
		if (!prime) { // keep the symbols inside the field
			uint32_t mask = (1u << host[0].crs->m) - 1;
			for (size_t i = 0; i < size_t(obj.k) * obj.len; ++i) put(obj.data, i, get(obj.data, i) & mask);
			return;
		}
		if (kind == 2) for (size_t i = 0; i < obj.data.size(); ++i) obj.data[i] = 0;
		if (P - 1 < 1u << 8 * bytes) for (size_t i = 0; i < size_t(obj.k) * obj.len; ++i) put(obj.data, i, get(obj.data, i) % (P - 1));
		if (weighted({ 1, 2 })) { // force chosen encoded values in the first block: the unrepresentable one, and many distinct small ones
			bool cover = coin(); fault(cover ? "adversarial_cover" : "adversarial_unrepresentable");
			uint64_t ic = modpow(coef(first_id, obj.k - 1), P - 2);
			uint32_t rot_ = draw(uint32_t(obj.len));
			for (int i = 0; i < obj.len; ++i) {
				uint64_t s = 0; for (int k = 0; k < obj.k - 1; ++k) s += coef_cache(first_id, k) * get(obj.data, size_t(k) * obj.len + i);
				uint64_t want = cover ? (i == 0 && coin() ? P - 1 : (i + rot_) % obj.len) : chance(1, 3) ? P - 1 : 0;
				if (!cover && want == 0) continue;
				uint64_t v = (want + P - s % P) % P * ic % P;
				if (v < P - 1) put(obj.data, size_t(obj.k - 1) * obj.len + i, uint32_t(v));
			}
		}
	}
	std::map<int, uint64_t> cc; int cc_id = -1;
	uint64_t coef_cache(int id, int k) { if (cc_id != id) { cc.clear(); cc_id = id; } auto it = cc.find(k); return it != cc.end() ? it->second : cc[k] = coef(id, k); }

	Block encode(Coder &c, const Bytes &data, int id) {
		Buf<uint8_t> d = buffer(data.size(), "data"), b = buffer(size_t(obj.len) * bytes, "block");
		memcpy(d.data(), data.data(), data.size());
		Block blk; blk.version = obj.version; blk.id = id; blk.sub = 0;
		if (prime) {
			int s = c.cpf->encode(c.o(), d.data(), b.data(), id, obj.len, obj.k);
			if (s < 0 || s >= int(P) - 1) violate("substitution", "%s k=%d len=%d id=%d: substitution value %d", name().c_str(), obj.k, obj.len, id, s);
			blk.sub = s;
		} else c.crs->encode(c.o(), d.data(), b.data(), id, obj.len, obj.k, draw(3));
		if (memcmp(d.data(), data.data(), data.size())) violate("input-changed", "%s k=%d len=%d: encoding changed the data", name().c_str(), obj.k, obj.len);
		blk.b.assign(b.data(), b.data() + b.m.n);
		release(b.m); release(d.m);
		if (prime && obj.len <= 2048) { // the substitute must not be a genuine symbol of this block
			for (int i = 0; i < obj.len; ++i) {
				if (get(blk.b, i) != blk.sub) continue;
				uint64_t v = 0; for (int k = 0; k < obj.k; ++k) v += coef_cache(id, k) * get(data, size_t(k) * obj.len + i);
				if (v % P == blk.sub) violate("substitution", "%s k=%d len=%d id=%d: substitute %u is a genuine symbol", name().c_str(), obj.k, obj.len, id, blk.sub);
				if (v % P == P - 1) probe("unrepresentable_value");
			}
		}
		return blk;
	}
	// any k distinct blocks, in the order they came
	Bytes decode(Coder &c, const std::vector<const Block *> &got) {
		Buf<uint8_t> bl = buffer(size_t(obj.k) * obj.len * bytes, "blocks"), ids(size_t(obj.k) * bytes, 64, draw(4) * bytes, "ids"), subs(size_t(obj.k) * bytes, 64, draw(4) * bytes, "subs");
		Bytes tmp(2);
		for (int i = 0; i < obj.k; ++i) {
			memcpy(bl.data() + size_t(i) * obj.len * bytes, got[i]->b.data(), size_t(obj.len) * bytes);
			put(tmp, 0, got[i]->id); memcpy(ids.data() + i * bytes, tmp.data(), bytes);
			put(tmp, 0, got[i]->sub); memcpy(subs.data() + i * bytes, tmp.data(), bytes);
		}
		bool whole = coin();
		Buf<uint8_t> out = buffer(size_t(obj.len) * bytes * (whole ? obj.k : 1), "data");
		Bytes res(obj.data.size());
		std::vector<int> order(obj.k); for (int i = 0; i < obj.k; ++i) order[i] = i;
		if (chance(1, 3)) { Rng q = rng(); for (int i = obj.k - 1; i > 0; --i) std::swap(order[i], order[q.below(i + 1)]); }
		int limit = obj.k > 400 ? 4 : obj.k > 60 ? 24 : obj.k; // large objects: a range of blocks per read
		size_t sz = size_t(obj.len) * bytes;
		for (int n = 0; n < obj.k; ++n) {
			int i = order[n];
			if (n >= limit && n < obj.k - 2) { memcpy(&res[i * sz], &obj.data[i * sz], sz); continue; }
			uint8_t *p = out.data() + (whole ? i * sz : 0);
			if (prime) c.cpf->decode(c.o(), p, bl.data(), subs.data(), ids.data(), i, obj.len, obj.k);
			else c.crs->decode(c.o(), p, bl.data(), ids.data(), i, obj.len, obj.k, draw(3));
			if (!whole) memcpy(&res[i * sz], p, sz);
			if (chance(1, 12)) { // another request is served by the same coder in between
				Bytes d2(sz * obj.k, uint8_t(n)); if (prime || (1u << host[0].crs->m) - 1 >= (bytes == 1 ? 255u : 65535u)) { Object keep = obj; encode(c, d2, hi_id); obj = keep; probe("interleaved_request"); }
			}
		}
		if (whole) for (int n = 0; n < obj.k; ++n) if (int i = order[n]; n < limit || n >= obj.k - 2) memcpy(&res[i * sz], out.data() + i * sz, sz); // as the reader finds it in the end
		release(out.m); release(subs.m); release(ids.m); release(bl.m);
		return res;
	}
	// ---- cluster
	void send(int from, int to, std::function<void()> f) {
		(void)from;
		if (!healed && part && (to & 1)) { fault("partition_drop"); return; }
		if (!healed && drop && chance(drop, 100)) { fault("msg_drop"); return; }
		uint64_t d = 1 + draw(healed ? 100 : maxdelay);
		if (!healed && dup && chance(dup, 100)) { fault("msg_dup"); after(d + draw(maxdelay), f); }
		after(d, f);
	}
	void store(int n, const Block &b) {
		Node &x = nodes[n];
		if (!x.up) return;
		for (auto &y : x.cache) if (y.id == b.id && y.version == b.version) return;
		for (auto &y : x.disk) if (y.id == b.id && y.version == b.version) return;
		x.cache.push_back(b); int e = x.epoch;
		after(100 + draw(2000), [this, n, e] { // fsync
			Node &x = nodes[n];
			if (x.epoch != e || !x.up || x.cache.empty()) return;
			if (!healed && chance(1, 40)) { fault("disk_write_lost"); x.cache.erase(x.cache.begin()); return; }
			x.disk.push_back(x.cache[0]); x.cache.erase(x.cache.begin());
		});
	}
	void put_object() {
		Span sp;
		obj = Object(); obj.version = ++version;
		geometry();
		int id0 = new_id();
		payload(id0);
		int n = obj.k + range(0, std::max(1, obj.k / 2 + 1)); std::vector<int> ids{ id0 };
		while (int(ids.size()) < n) { int i = new_id(); if (i < 0) break; ids.push_back(i); }
		log("put v%d k=%d len=%d blocks=%zu data %016llx", version, obj.k, obj.len, ids.size(), (unsigned long long)digest(obj.data.data(), obj.data.size()));
		shape(obj.k * 100000 + obj.len);
		for (size_t i = 0; i < ids.size(); ++i) {
			Block b = encode(host[0], obj.data, ids[i]);
			obj.blocks[ids[i]] = b;
			int to = int(i % nodes.size());
			send(-1, to, [this, to, b] { store(to, b); });
		}
	}
	struct Read { int version, host; std::vector<Block> got; bool done = false; int tries = 0; };
	void read(int h, bool repair) {
		Span sp;
		if (obj.version < 0) return;
		auto rd = std::make_shared<Read>(); rd->version = obj.version; rd->host = h;
		ask(rd, repair);
	}
	void ask(std::shared_ptr<Read> rd, bool repair) {
		if (rd->done || rd->version != obj.version || ++rd->tries > 4) return;
		for (int n = 0; n < int(nodes.size()); ++n)
			send(rd->host, n, [this, n, rd, repair] {
				if (!nodes[n].up || rd->version != obj.version) return;
				std::vector<Block> bs = nodes[n].disk; if (!nodes[n].cache.empty()) bs.insert(bs.end(), nodes[n].cache.begin(), nodes[n].cache.end());
				for (auto &b : bs) if (b.version == rd->version) send(n, rd->host, [this, rd, b, repair] { got(rd, b, repair); });
			});
		after(200000, [this, rd, repair] { ask(rd, repair); });
	}
	void got(std::shared_ptr<Read> rd, const Block &b, bool repair) {
		if (rd->done || rd->version != obj.version) return;
		for (auto &x : rd->got) if (x.id == b.id) { probe("duplicate_block"); return; }
		rd->got.push_back(b);
		if (int(rd->got.size()) < obj.k) return;
		rd->done = true;
		reconstruct(host[rd->host], rd->got, repair);
	}
	void reconstruct(Coder &c, const std::vector<Block> &g, bool repair) {
		std::vector<const Block *> p; for (auto &x : g) p.push_back(&x);
		uint64_t h = 7; bool sorted = true; for (auto &x : g) { if (&x != &g[0] && x.id < (&x)[-1].id) sorted = false; h = h * 1000003 + x.id; }
		if (!sorted) probe("out_of_order_blocks");
		shape(h);
		Bytes d = decode(c, p);
		++decoded; count("reconstructions"); nontrivial();
		log("reconstruct v%d k=%d len=%d on %s order %016llx %s", obj.version, obj.k, obj.len, c.isa.c_str(), (unsigned long long)h, d == obj.data ? "ok" : "WRONG");
		if (d != obj.data) {
			size_t i = 0; while (d[i] == obj.data[i]) ++i;
			violate("not-recovered", "%s k=%d len=%d: %d distinct blocks did not give back the data (encoder %s, decoder %s, first wrong byte %zu)", name().c_str(), obj.k, obj.len, obj.k, host[0].isa.c_str(), c.isa.c_str(), i);
		}
		if (repair) {
			int id = chance(1, 2) ? new_id() : g[0].id; // a fresh block, or an old one regenerated elsewhere
			if (id < 0) return;
			Block b = encode(c, d, id); ++repairs; probe("block_regenerated");
			obj.blocks[id] = b;
			int to = int(draw(uint32_t(nodes.size())));
			send(c.isa == host[1].isa ? 1 : 2, to, [this, to, b] { store(to, b); });
		}
	}
	void crash(int n, bool wipe) {
		Node &x = nodes[n]; ++x.epoch; x.up = false; x.cache.clear();
		fault(wipe ? "disk_loss" : "node_crash");
		if (wipe) x.disk.clear();
		after(1000 + draw(200000), [this, n] { nodes[n].up = true; });
	}
	void step() {
		{
			Span sp;
			switch (weighted({ 3, 6, 4, 2, 1, 1, 1 })) {
			case 0: put_object(); break;
			case 1: read(1 + draw(2), false); break;
			case 2: read(1 + draw(2), true); break;
			case 3: crash(int(draw(uint32_t(nodes.size()))), false); break;
			case 4: crash(int(draw(uint32_t(nodes.size()))), true); break;
			case 5: part = !part; if (part) fault("partition"); break;
			case 6: { int h = draw(3); host[h].o.crash(); fault("host_crash"); break; }
			}
		}
		if (--ops > 0) after(1 + draw(100000), [this] { step(); });
		else after(1, [this] { calm(); });
	}
	// faults stop: the writer sends every block again; a reader must get the object within bounded time
	int before = 0;
	void calm() {
		healed = true; part = false; for (auto &n : nodes) n.up = true;
		if (obj.version < 0) return;
		for (auto &kv : obj.blocks) { Block b = kv.second; int to = int(draw(uint32_t(nodes.size()))); send(-1, to, [this, to, b] { store(to, b); }); }
		int v = obj.version; before = decoded;
		after(5000, [this] { read(1, false); });
		after(2000000, [this, v] { if (decoded == before) harness_error("calm cluster did not deliver version %d", v); stop(); });
	}
};
void cluster(bool prime) {
	Cluster c(prime);
	after(1, [&] { c.put_object(); c.step(); });
	run_events(200000);
	sample("%s: v%d k=%d len=%d, %d reconstructions, %d repairs", c.name().c_str(), c.version, c.obj.k, c.obj.len, c.decoded, c.repairs);
}
}
WORLD(C04) { cluster(false); }
WORLD(C05) { cluster(true); }
