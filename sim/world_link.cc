// A reliable link built from the library: scrambler, checksum, outer code, interleaver and inner soft-decision code
// under stop-and-wait retransmission (C19).
// Real: every code, checksum, generator, interleaver and the bit packing. Simulated: the air in both directions, clocks, crashes, durable state.
#include "codecs.hh"
#include "gf_ref.hh"
#include "polar_ref.hh"
#include "ldpc_safe.hh"
#include <memory>
using namespace sim;
typedef std::vector<uint8_t> Bytes;

namespace {
template <class C> const C *some(const std::vector<C> &v, std::function<bool(const C &)> ok) { std::vector<const C *> g; for (auto &c : v) if (ok(c)) g.push_back(&c); return g.empty() ? nullptr : g[draw(uint32_t(g.size()))]; }

// carries kb bits in n soft values
struct Inner {
	int kb = 1, n = 1, radius = 0, kind = 0; std::string name = "plain"; double sigma = 0; // noise it certainly survives
	const WordCodec *w = nullptr; const SbchCodec *s = nullptr; const PolarCodec *p = nullptr; const ListCodec *l = nullptr; const OsdCodec *o = nullptr; const LdpcCodec *d = nullptr;
	int level = 0, stride = 0, first = 0; std::vector<uint32_t> frozen; std::vector<uint8_t> roles; std::vector<int8_t> gen; std::vector<int> unit;
	void choose(Backend &b) {
		kind = weighted({ 2, 3, 3, 3, 2, 3, 1 }); char t[120];
		switch (kind) {
		case 1: w = some<WordCodec>(b.word, [](const WordCodec &c) { return c.k >= 2 && c.k <= 8; }); kb = w->k; n = w->n; radius = w->family[0] == 'h' ? std::max(0, n / 2 - 1) / 2 : (n + 1) / 2 > 1 ? ((n + 1) / 2 - 1) / 2 : 0; snprintf(t, sizeof t, "%s(%d,%d)", w->family, n, kb); name = t; break;
		case 2: s = some<SbchCodec>(b.sbch, [](const SbchCodec &c) { return c.k <= 12 && c.n - c.k <= 14; }); kb = s->k; n = s->n; radius = s->t; snprintf(t, sizeof t, "short BCH(%d,%d)", n, kb); name = t; break;
		case 3: p = some<PolarCodec>(b.polar, [](const PolarCodec &c) { return c.max_m <= 10; }); level = range(5, std::min(8, p->max_m)); frozen = make_frozen(level, false, false); n = 1 << level; kb = open_bits(frozen, n); if (!kb) { kind = 0; kb = n = 1; break; } snprintf(t, sizeof t, "polar(%d,%d) %s", n, kb, p->flt ? "float" : "int8"); name = t; break;
		case 4: l = some<ListCodec>(b.list, [](const ListCodec &c) { return c.lanes >= 4; }); level = range(5, 7); n = 1 << level; frozen = make_frozen(level, coin(), true); { int open = open_bits(frozen, n); bool par = coin(); stride = par ? edgy(1, open) : 0; first = par ? edgy(1, open) : open + 1; }
			roles = polar_roles(frozen, n, true, stride, first); kb = 0; for (uint8_t r : roles) kb += r == 1; snprintf(t, sizeof t, "polar list(%d,%d) x %d %s", n, kb, l->lanes, l->flt ? "float" : "int8"); name = t; break;
		case 5: o = some<OsdCodec>(b.osd, [](const OsdCodec &c) { return c.genmat && c.k <= 31; }); n = o->n; kb = o->k; gen.resize(size_t(n) * kb); { Buf<int8_t> g(gen.size(), 64, 0, "generator"); o->genmat(g.data(), true); memcpy(gen.data(), g.data(), gen.size()); release(g.m); }
			unit.assign(kb, -1); for (int i = n - 1; i >= 0; --i) { int c = 0, at = 0; for (int j = 0; j < kb; ++j) if (gen[size_t(j) * n + i]) ++c, at = j; if (c == 1) unit[at] = i; }
			for (int u : unit) if (u < 0) violate("systematic", "generator of %s (%d,%d) is not systematic", o->name, n, kb);
			snprintf(t, sizeof t, "%s(%d,%d) order %d", o->name, n, kb, o->o); name = t; break;
		case 6: d = some<LdpcCodec>(b.ldpc, [](const LdpcCodec &c) { return c.t.N < 7000; }); if (!d) { kind = 0; break; } kb = d->t.K; n = d->t.N; sigma = safe_sigma(d->t.name) * (d->beta > 1 ? .9 : .97); snprintf(t, sizeof t, "LDPC %s beta %d", d->t.name, d->beta); name = t; break;
		}
	}
};
// one direction of the link
struct Modem {
	Backend &b; Inner in; const RsCodec *rs = nullptr; const BchCodec *bch = nullptr; const IntlvCodec *il = nullptr; const CrcCodec *crc; const PrngCodec *prng; const BitsCodec *bits;
	uint64_t poly = 0xC96C5795D7870F42ull, key[6]; int nkey = 0, nlen = 1, order = 1, cap, coded, blocks; std::string name;
	std::unique_ptr<FieldUse> field; const PermCodec *perm = nullptr; const BitsCodec *whole = nullptr; int lead = 0; bool flags = false; bool sums = false; uint32_t base = 0; // frames are numbered from here, around the end
	// what an endpoint owns
	struct End {
		Modem &m; bool tx; Obj outer, inner, head, shuffle; Mem sum, gen; std::vector<Obj *> all;
		End(Modem &m, bool tx) : m(m), tx(tx) {
			if (m.rs) outer = Obj(tx ? m.rs->enc : m.rs->dec, "outer"), all.push_back(&outer);
			if (m.bch) outer = Obj(tx ? m.bch->enc : m.bch->dec, "outer"), all.push_back(&outer);
			Inner &i = m.in; Class c{};
			if (i.w) c = tx ? i.w->enc : i.w->dec; else if (i.s) c = tx ? i.s->enc : i.s->dec; else if (i.p) c = tx ? i.p->enc : i.p->dec; else if (i.l) c = tx ? i.l->penc : i.l->pdec; else if (i.o && !tx) c = i.o->dec; else if (i.d) c = tx ? i.d->enc : i.d->dec;
			if (c.make) inner = Obj(c, "inner"), all.push_back(&inner);
			head = Obj(m.whole ? m.whole->cls : m.bits->cls, "framing"); all.push_back(&head);
			if (m.perm) shuffle = Obj(tx ? m.perm->fwd : m.perm->inv, "permutation"), all.push_back(&shuffle);
			sum = alloc(m.crc->size, 16, 0, "checksum"); gen = alloc(m.prng->size, 16, 0, "scrambler"); boot();
		}
		void boot() { m.crc->make(sum.p, m.poly, 0); m.prng->make(gen.p, m.nkey, m.key); }
		void crash() { for (Obj *o : all) o->crash(); garbage(sum.p, sum.n); garbage(gen.p, gen.n); boot(); }
		void scramble(Bytes &f) { m.prng->reset(gen.p, m.prng->bad ? 1 : m.nkey, m.key + (m.prng->bad && m.nkey > 1)); for (auto &v : f) { if (m.prng->bad) for (int i = 0; i < 8; ++i) v ^= uint8_t(m.prng->next(gen.p) << i); else v ^= uint8_t(m.prng->next(gen.p) >> 7); } }
		uint64_t check(const uint8_t *p, size_t n) {
			m.crc->reset(sum.p, true, 0);
			for (size_t i = 0; i < n;) {
				uint64_t v = 0; size_t w = 1;
				if (m.sums) { w = size_t(1) << draw(4); if (i + w > n) w = 1; memcpy(&v, p + i, w); } else v = p[i];
				switch (w) {
				case 1: m.crc->u8(sum.p, uint8_t(v)); break;
				case 2: m.crc->u16(sum.p, uint16_t(v)); break;
				case 4: m.crc->u32(sum.p, uint32_t(v)); break;
				default: m.crc->u64(sum.p, v);
				}
				i += w;
			}
			return m.crc->get(sum.p);
		}
	};
	std::unique_ptr<End> tx, rx;
	explicit Modem(Backend &b, const char *dir) : b(b) {
		crc = some<CrcCodec>(b.crc, [](const CrcCodec &c) { return c.bytes == 8; }); bits = some<BitsCodec>(b.bits, [](const BitsCodec &c) { return c.bits >= 64 && c.bits <= 4099; }); prng = &b.prng[draw(uint32_t(b.prng.size()))];
		if (draw(4) == 0) poly = 0xD800000000000000ull;
		Rng r = rng(); for (auto &k : key) k = r.next() | 1;
		nkey = int(draw(uint32_t(prng->nseed + 1)));
		if (prng->bad) { key[0] = 0x100009; key[1] = 1 + r.below(1 << 20) % 0xfffff; nkey = coin() ? 0 : 2; if (!nkey) key[0] = key[1] = 1; }
		in.choose(b);
		int sort = in.kind ? weighted({ 4, 2, 1 }) : weighted({ 4, 2 });
		static const std::vector<int> lens{ 15, 20, 31, 63, 64, 255 };
		if (sort == 0) {
			rs = some<RsCodec>(b.rs, [](const RsCodec &c) { return c.m == 8 && c.bytes == 1 && c.nr <= 64; });
			std::vector<int> ok; for (int n : lens) if (n > rs->nr + 2 && n <= rs->N) ok.push_back(n);
			nlen = pick(ok); order = pick(std::vector<int>{ 1, 2, 3, 5, 8 }); while (order < 16 && order * (nlen - rs->nr) < 24) order = order == 1 ? 2 : order == 2 ? 3 : order == 3 ? 5 : order == 5 ? 8 : 16;
			if (order * (nlen - rs->nr) < 18) { nlen = 255; order = 1; }
			for (auto &c : b.intlv) if (c.size == nlen * order && c.order == order && c.bytes == 1) il = &c;
			if (!il) harness_error("no interleaver for %d x %d", nlen, order);
			cap = order * (nlen - rs->nr); coded = nlen * order; field.reset(new FieldUse(rs->field));
		} else if (sort == 1) {
			bch = some<BchCodec>(b.bch, [](const BchCodec &c) { return c.K >= 64 && c.K <= 4096; });
			nlen = edgy(3, std::min(bch->K / 8, 60)); order = (24 + nlen - 1) / nlen + int(draw(4)); cap = nlen * order; coded = (nlen + (bch->NP + 7) / 8) * order; field.reset(new FieldUse(bch->field));
		} else cap = coded = range(24, 80);
		blocks = (coded * 8 + in.kb - 1) / in.kb; flags = coin(); sums = chance(1, 3); base = coin() ? uint32_t(0) - draw(9) : uint32_t(rng().next());
		if (chance(1, 4)) perm = some<PermCodec>(b.perm, [this](const PermCodec &c) { return c.bytes == 1 && c.size <= coded && c.size * 3 >= coded; });
		if (chance(1, 2)) { whole = some<BitsCodec>(b.bits, [this](const BitsCodec &c) { return c.bits >= (cap - 8) * 8; }); lead = whole ? int(draw(8)) : 0; }
		char t[300]; snprintf(t, sizeof t, "%s: %s, %s, %s, %s", dir, prng->name, rs ? ("RS(" + std::to_string(nlen) + "," + std::to_string(nlen - rs->nr) + ") x " + std::to_string(order) + " interleaved").c_str() : bch ? ("BCH, " + std::to_string(nlen * 8) + "+" + std::to_string(bch->NP) + " bits x " + std::to_string(order)).c_str() : "no outer code", in.name.c_str(), b.isa.c_str());
		if (perm) snprintf(t + strlen(t), sizeof t - strlen(t), ", %s of %d", perm->family, perm->size);
		if (whole) snprintf(t + strlen(t), sizeof t - strlen(t), ", framed at bit %d", lead);
		name = t; log("%s, %d bytes in %d blocks", t, cap, blocks); shape(digest(t, strlen(t)));
		tx.reset(new End(*this, true)); rx.reset(new End(*this, false));
	}
	int room() const { return cap - 7 - 8; }
	// the bits of a frame in front of its checksum, by every way of the container to write and read
	void pack(End &e, Bytes &f, uint32_t seq, const Bytes &p) {
		if (!whole) { bits->reset(e.head()); bits->writebits(e.head(), seq, 32, 2); bits->writebits(e.head(), p.size(), 16, 1); memcpy(f.data(), bits->data(e.head()), 6); memcpy(f.data() + 6, p.data(), p.size()); return; }
		auto *w = whole; void *o = e.head(); w->reset(o);
		int how = int(draw(3)); if (!how) { w->seek(o, lead); w->writebits(o, seq, 32, 2); } else if (how == 1) { w->seek(o, lead); w->writebits(o, seq | uint64_t(p.size()) << 32, 48, 3); } else { for (int i = 0; i < lead; ++i) w->putbit(o, false); for (int i = 0; i < 4; ++i) w->putbyte(o, uint8_t(seq >> 8 * i)); }
		if (how == 1) ; else if (coin()) w->writebits(o, p.size(), 16, 1); else for (int i = 0; i < 16; ++i) w->putbit(o, p.size() >> i & 1);
		if (coin()) w->writebytes(o, p.data(), int(p.size()));
		else { std::vector<size_t> at; for (size_t i = 0; i < p.size(); ++i) at.push_back(i); if (coin()) std::reverse(at.begin(), at.end()); for (size_t i : at) { w->seek(o, lead + 48 + 8 * int(i)); w->putbyte(o, p[i]); } }
		memcpy(f.data(), w->data(o), size_t(cap) - 8);
	}
	bool unpack(End &e, const Bytes &f, uint32_t &seq, Bytes &p) {
		if (!whole) { bits->reset(e.head()); bits->writebytes(e.head(), f.data(), 6); bits->seek(e.head(), 0); seq = uint32_t(bits->readbits(e.head(), 32, 2)); int len = int(bits->readbits(e.head(), 16, 1) & 0xffff); if (len > room()) return false; p.assign(f.begin() + 6, f.begin() + 6 + len); return true; }
		auto *w = whole; void *o = e.head(); w->reset(o); w->writebytes(o, f.data(), cap - 8); w->seek(o, lead); seq = 0;
		int len = 0, how = int(draw(3)); if (!how) seq = uint32_t(w->readbits(o, 32, 2)); else if (how == 1) { uint64_t v = w->readbits(o, 48, 3); seq = uint32_t(v); len = int(v >> 32 & 0xffff); } else for (int i = 0; i < 4; ++i) seq |= uint32_t(w->getbyte(o)) << 8 * i;
		if (how == 1) ; else if (coin()) len = int(w->readbits(o, 16, 1) & 0xffff); else for (int i = 0; i < 16; ++i) len |= int(w->getbit(o)) << i;
		if (len > room()) return false;
		p.resize(size_t(len)); if (coin()) w->readbytes(o, p.data(), len); else for (auto &v : p) v = uint8_t(w->readbits(o, 8, 2));
		return true;
	}
	std::vector<int> send(uint32_t seq, const Bytes &payload) {
		End &e = *tx; Bytes f(cap);
		pack(e, f, seq + base, payload);
		uint64_t c = e.check(f.data(), size_t(cap) - 8); memcpy(f.data() + cap - 8, &c, 8);
		e.scramble(f);
		Mem air = alloc(coded, 64, 0, "coded"), wire = alloc(coded, 64, 0, "interleaved");
		if (rs) { int k = nlen - rs->nr; for (int i = 0; i < order; ++i) { memcpy(air.p + i * nlen, f.data() + i * k, k); rs->encode(e.outer(), air.p + i * nlen, air.p + i * nlen + k, k, int(draw(2))); } il->fwd(wire.p, air.p); }
		else if (bch) { int pb = (bch->NP + 7) / 8; for (int i = 0; i < order; ++i) { uint8_t *w = wire.p + i * (nlen + pb); memset(w, 0, nlen + pb); memcpy(w, f.data() + i * nlen, nlen); bch->encode(e.outer(), w, w + nlen, nlen * 8); } }
		else memcpy(wire.p, f.data(), cap);
		if (perm) { Mem t = alloc(perm->size, 64, 0, "permuted"); memcpy(t.p, wire.p, perm->size); perm->forward(e.shuffle(), t.p); memcpy(wire.p, t.p, perm->size); release(t); }
		std::vector<int> x; x.reserve(size_t(blocks) * in.n);
		Mem mb = alloc(size_t(std::max(in.kb, 64)) * 4, 64, 0, "message"), cw = alloc(size_t(in.n) * 4, 64, 0, "codeword"), fr = alloc(in.frozen.size() * 4, 64, 0, "frozen"), gm = alloc(in.gen.size(), 64, 0, "generator");
		memcpy(fr.p, in.frozen.data(), fr.n); memcpy(gm.p, in.gen.data(), gm.n);
		auto bit = [&](int i) { return i < coded * 8 ? wire.p[i / 8] >> (7 - i % 8) & 1 : 0; };
		for (int k = 0; k < blocks; ++k) {
			int at = k * in.kb, v = 0; int8_t *c8 = (int8_t *)cw.p; float *cf = (float *)cw.p;
			if (in.kind == 1 || in.kind == 2) for (int i = 0; i < in.kb; ++i) v |= bit(at + i) << i;
			auto values = [&](bool flt) { for (int i = 0; i < in.kb; ++i) { int s = bit(at + i) ? -1 : 1; if (flt) ((float *)mb.p)[i] = float(s); else ((int8_t *)mb.p)[i] = int8_t(s); } };
			bool flt = false;
			switch (in.kind) {
			case 0: c8[0] = bit(at) ? -1 : 1; break;
			case 1: in.w->encode(e.inner(), c8, v); break;
			case 2: in.s->encode_soft(e.inner(), c8, v); break;
			case 3: values(flt = in.p->flt); in.p->encode(e.inner(), cw.p, mb.p, (uint32_t *)fr.p, in.level); break;
			case 4: values(flt = in.l->flt); in.l->par_encode(e.inner(), cw.p, mb.p, (uint32_t *)fr.p, in.level, in.stride, in.first); break;
			case 5: { memset(mb.p, 0, mb.n); for (int i = 0; i < in.kb; ++i) if (bit(at + i)) mb.p[i / 8] |= 128 >> i % 8; Mem h = alloc((in.n + 7) / 8, 64, 0, "hard"); in.o->encode(h.p, mb.p, (int8_t *)gm.p); for (int i = 0; i < in.n; ++i) c8[i] = h.p[i / 8] & (128 >> i % 8) ? -1 : 1; release(h); break; }
			case 6: values(false); memcpy(c8, mb.p, in.kb); in.d->encode(e.inner(), (int8_t *)mb.p, c8 + in.kb); break;
			}
			for (int i = 0; i < in.n; ++i) x.push_back(flt ? (cf[i] < 0 ? -1 : 1) : (c8[i] < 0 ? -1 : 1));
		}
		release(gm); release(fr); release(cw); release(mb); release(wire); release(air);
		return x;
	}
	// false: nothing usable arrived
	bool receive(const std::vector<int8_t> &s, uint32_t &seq, Bytes &payload) {
		End &e = *rx; if (int(s.size()) != blocks * in.n) return false;
		Mem wire = alloc(coded, 64, 0, "received"), air = alloc(coded, 64, 0, "deinterleaved"); memset(wire.p, 0, coded);
		Bytes doubt(coded);
		Mem soft = alloc(size_t(in.n) * 4, 64, 0, "soft"), mb = alloc(size_t(in.kb) * 4 * (in.l ? in.l->lanes : 1), 64, 0, "message"), fr = alloc(in.frozen.size() * 4, 64, 0, "frozen"), gm = alloc(in.gen.size(), 64, 0, "generator"), hd = alloc(size_t((in.n + 7) / 8) * (in.o ? std::max(1, in.o->l) : 1), 64, 0, "hard"), rk = alloc(4 * 64, 64, 0, "ranks");
		memcpy(fr.p, in.frozen.data(), fr.n); memcpy(gm.p, in.gen.data(), gm.n);
		for (int k = 0; k < blocks; ++k) {
			const int8_t *y = s.data() + size_t(k) * in.n; int at = k * in.kb; bool sure = true; std::vector<int> bit(in.kb);
			auto load = [&](bool flt) { for (int i = 0; i < in.n; ++i) { if (flt) ((float *)soft.p)[i] = float(y[i]); else ((int8_t *)soft.p)[i] = in.l ? std::max<int8_t>(y[i], -127) : y[i]; } };
			auto sign = [&](bool flt, int step) { for (int i = 0; i < in.kb; ++i) { double v = flt ? double(((float *)mb.p)[i * step]) : double(((int8_t *)mb.p)[i * step]); bit[i] = v < 0; sure &= v != 0; } };
			switch (in.kind) {
			case 0: bit[0] = y[0] < 0; sure = y[0]; break;
			case 1: { load(false); int v = in.w->decode(e.inner(), (int8_t *)soft.p); sure = v >= 0; for (int i = 0; i < in.kb; ++i) bit[i] = v >> i & 1; break; }
			case 2: { load(false); int v = in.s->soft(e.inner(), (int8_t *)soft.p); sure = v >= 0; v >>= in.n - in.kb; for (int i = 0; i < in.kb; ++i) bit[i] = v >> i & 1; break; }
			case 3: load(in.p->flt); in.p->decode(e.inner(), mb.p, soft.p, (uint32_t *)fr.p, in.level); sign(in.p->flt, 1); break;
			case 4: load(in.l->flt); in.l->par_decode(e.inner(), (int *)rk.p, mb.p, soft.p, (uint32_t *)fr.p, in.level, in.stride, in.first); sign(in.l->flt, in.l->lanes); break;
			case 5: load(false); if (in.o->l) in.o->list_decode(e.inner(), (int *)rk.p, hd.p, (int8_t *)soft.p, (int8_t *)gm.p), sure = ((int *)rk.p)[1 % in.o->l] != ((int *)rk.p)[0] || in.o->l < 2; else sure = in.o->decode(e.inner(), hd.p, (int8_t *)soft.p, (int8_t *)gm.p);
				for (int i = 0; i < in.kb; ++i) bit[i] = hd.p[in.unit[i] / 8] >> (7 - in.unit[i] % 8) & 1; break;
			case 6: { load(false); int8_t *c = (int8_t *)soft.p; sure = in.d->decode(e.inner(), c, c + in.kb, 25) >= 0; for (int i = 0; i < in.kb; ++i) bit[i] = c[i] < 0; break; }
			}
			for (int i = 0; i < in.kb && at + i < coded * 8; ++i) { if (bit[i]) wire.p[(at + i) / 8] |= 128 >> (at + i) % 8; if (!sure) doubt[(at + i) / 8] |= uint8_t(128 >> (at + i) % 8); }
		}
		release(rk); release(hd); release(gm); release(fr); release(mb); release(soft);
		if (perm) { Mem t = alloc(perm->size, 64, 0, "permuted"); memcpy(t.p, wire.p, perm->size); perm->reverse(e.shuffle(), t.p); memcpy(wire.p, t.p, perm->size); memcpy(t.p, doubt.data(), perm->size); perm->reverse(e.shuffle(), t.p); memcpy(doubt.data(), t.p, perm->size); release(t); }
		Bytes f; bool ok = true;
		if (rs) {
			il->inv(air.p, wire.p); Buf<uint8_t> din(coded, 64, 0, "doubt"), dout(coded, 64, 0, "doubt"); memcpy(din.data(), doubt.data(), coded); il->inv(dout.data(), din.data());
			int k = nlen - rs->nr;
			for (int i = 0; ok && i < order; ++i) {
				Buf<uint8_t> er(256, 64, 0, "erasures"); int n = 0; for (int j = 0; j < nlen; ++j) if (dout[size_t(i) * nlen + j]) er[n++] = uint8_t(j);
				if (n > rs->nr || !flags) n = 0;
				ok = rs->decode(e.outer(), air.p + i * nlen, air.p + i * nlen + k, er.data(), n, k, int(draw(2))) >= 0; f.insert(f.end(), air.p + i * nlen, air.p + i * nlen + k);
				release(er.m);
			}
			release(dout.m); release(din.m);
		} else if (bch) {
			int pb = (bch->NP + 7) / 8; Buf<uint16_t> er(64, 64, 0, "erasures");
			for (int i = 0; ok && i < order; ++i) { uint8_t *w = wire.p + i * (nlen + pb); int n = 0; for (int j = 0; flags && j < nlen * 8 + bch->NP; ++j) if (doubt[size_t(i) * (nlen + pb) + j / 8] & (128 >> j % 8)) { if (n < 64) { if (bch->bytes == 1) ((uint8_t *)er.data())[n] = uint8_t(j); else er[n] = uint16_t(j); } ++n; } if (n > bch->nr || n > 64) n = 0; ok = bch->decode(e.outer(), w, w + nlen, er.data(), n, nlen * 8) >= 0; f.insert(f.end(), w, w + nlen); }
			release(er.m);
		} else f.assign(wire.p, wire.p + cap);
		release(air); release(wire);
		if (!ok) { probe("outer_decoder_gave_up"); return false; }
		e.scramble(f);
		uint64_t c; memcpy(&c, f.data() + cap - 8, 8);
		if (e.check(f.data(), size_t(cap) - 8) != c) { probe("checksum_mismatch"); return false; }
		bool fits = unpack(e, f, seq, payload); seq -= base; return fits;
	}
	// damage the link is built to repair
	std::vector<int8_t> calm(const std::vector<int> &x, Rng &r) {
		std::vector<int8_t> s(x.size()); int a = pick(std::vector<int>{ 1, 3, 17, 64, 127 }); int mode = int(draw(4)); bool vary = coin();
		if (in.sigma > 0 && mode) { double sg = in.sigma * (1 + draw(10)) / 10, amp = 4 / (sg * sg); for (size_t i = 0; i < x.size(); ++i) { double v = amp * (x[i] + sg * r.gauss()); s[i] = int8_t(v > 127 ? 127 : v < -127 ? -127 : std::lrint(v)); } count("calm_noise"); return s; }
		for (size_t i = 0; i < x.size(); ++i) s[i] = int8_t(x[i] * (vary ? 1 + int(r.below(uint32_t(a))) : a));
		if (in.radius && mode == 1) { for (size_t i = 0; i < x.size(); ++i) s[i] = int8_t(x[i] * a); for (int k = 0; k < blocks; ++k) for (int i : r.sample(in.n, int(r.below(uint32_t(in.radius + 1))))) s[size_t(k) * in.n + i] = int8_t(-s[size_t(k) * in.n + i]); count("calm_inner_errors"); }
		int nb = 0; bool blank = rs && flags && in.kind < 2 && coin(); // blocks of zeros are known to be missing, so the outer code bears twice as many
		if (rs && !perm) { int bytes = order * (blank ? rs->nr : rs->nr / 2); nb = in.kb >= 8 ? (bytes >= 2 ? ((bytes - 2) * 8 + 1) / in.kb : 0) : bytes >= 2 ? (bytes - 2) * 8 / in.kb : 0; if (in.kb == 1) nb = std::max(nb, (bytes - 1) * 8 + 1 > 0 && bytes ? (bytes - 1) * 8 + 1 : 0); }
		if (bch && !perm) nb = bch->nr / 2 / in.kb;
		if (nb && mode > 1) { // a burst as long as the outer code and the interleaver promise to bear
			nb = std::min(nb, blocks); if (coin()) nb = range(1, nb); int b = range(0, blocks - nb), style = blank ? 2 : int(draw(3));
			for (int i = b * in.n; i < (b + nb) * in.n; ++i) s[i] = int8_t(style == 0 ? -s[i] : style == 1 ? int(r.below(255)) - 127 : 0);
			count("calm_bursts"); log("burst over blocks %d to %d of %d", b, b + nb - 1, blocks);
		}
		return s;
	}
	std::vector<int8_t> storm(const std::vector<int> &x, const std::vector<int8_t> &other, Rng &r) {
		std::vector<int8_t> s(x.size()); int n = int(x.size()); double a = pick(std::vector<int>{ 2, 10, 40, 127 }), sg = 0;
		if (coin()) { sg = a * (1 + draw(12)) / 10; fault("noise"); }
		for (int i = 0; i < n; ++i) { double v = a * x[i] + sg * r.gauss(); s[i] = int8_t(v > 127 ? 127 : v < -128 ? -128 : std::lrint(v)); }
		for (int k = int(draw(3)); k > 0; --k) {
			int b = range(0, n - 1), l = range(1, n - b);
			switch (weighted({ 3, 2, 2, 2, 2 })) {
			case 0: fault("jamming"); for (int i = b; i < b + l; ++i) s[i] = int8_t(r.below(256)); break;
			case 1: fault("fade"); for (int i = b; i < b + l; ++i) s[i] = 0; break;
			case 2: fault("phase_slip"); for (int i = b; i < b + l; ++i) s[i] = int8_t(std::min(127, -int(s[i]))); break;
			case 3: fault("scattered_errors"); for (int i : r.sample(n, range(1, 1 + n / 4))) s[i] = int8_t(std::min(127, -int(s[i]))); break;
			default: if (int(other.size()) == n) { fault("collision"); for (int i = b; i < b + l; ++i) s[i] = other[i]; }
			}
		}
		return s;
	}
};
struct LinkWorld {
	Backend &a, &b; Modem data, ack; Rng r;
	std::vector<Bytes> app;              // what was submitted (durable)
	size_t acked = 0;                    // sender, durable
	size_t expected = 0;                 // receiver, durable
	bool healed = false; int64_t budget = -1; int timer = 0; uint64_t sends = 0, rto = 500; bool done = false; bool up_s = true, up_r = true;
	std::vector<int8_t> last_data, last_ack;
	LinkWorld(Backend &a, Backend &b) : a(a), b(b), data(a, "data"), ack(b, "ack"), r(rng()) {
		int n = range(1, 8); for (int i = 0; i < n; ++i) { Bytes p(edgy(0, data.room())); r.fill(p.data(), p.size()); app.push_back(p); }
	}
	void transmit() {
		Span sp; if (!up_s || acked >= app.size()) return;
		++sends; count("frames_sent"); shape(acked * 3 + 1);
		if (healed && --budget < 0) violate("no-progress", "%s: %zu of %zu frames delivered and the bound on transmissions since the faults stopped is used up (%s)", data.name.c_str(), expected, app.size(), ack.name.c_str());
		log("frame %zu sent", acked);
		air(data, data.send(uint32_t(acked), app[acked]), last_data, [this](const std::vector<int8_t> &s) { heard(s); });
		arm();
	}
	void arm() { int t = ++timer; after(rto, [this, t] { if (t == timer && !done) { log("timeout"); transmit(); } }); }
	void air(Modem &m, const std::vector<int> &x, std::vector<int8_t> &last, std::function<void(const std::vector<int8_t> &)> to) {
		if (healed) { auto s = m.calm(x, r); last = s; after(10, [to, s] { to(s); }); return; }
		int copies = 1; if (chance(1, 5)) { fault("loss"); return; } if (chance(1, 6)) { fault("duplication"); copies = 2; }
		for (int c = 0; c < copies; ++c) {
			auto s = chance(1, 3) ? m.calm(x, r) : m.storm(x, last, r); last = s;
			uint64_t d = 10; if (chance(1, 4)) { fault("delay"); d = 10 + draw(4000); }
			after(d, [to, s] { to(s); });
		}
	}
	void heard(const std::vector<int8_t> &s) {
		Span sp; if (!up_r) { fault("receiver_down"); return; }
		uint32_t seq; Bytes p;
		if (!data.receive(s, seq, p)) { log("frame damaged"); count("frames_rejected"); return; }
		count("frames_accepted"); log("frame %u received", seq);
		if (seq > expected) violate("order", "%s: frame %u arrived although only %zu were delivered", data.name.c_str(), seq, expected);
		if (p != app[seq]) violate("corrupted", "%s: frame %u was accepted with other contents", data.name.c_str(), seq);
		if (seq == expected) { ++expected; log("delivered %u", seq); count("frames_delivered"); if (!healed && chance(1, 10)) { crash_receiver(); return; } } else probe("duplicate_suppressed");
		air(ack, ack.send(uint32_t(expected), Bytes()), last_ack, [this](const std::vector<int8_t> &t) { answered(t); });
	}
	void answered(const std::vector<int8_t> &s) {
		Span sp; if (!up_s) { fault("sender_down"); return; }
		uint32_t seq; Bytes p;
		if (!ack.receive(s, seq, p)) { log("answer damaged"); count("answers_rejected"); return; }
		log("answer %u", seq);
		if (seq > expected) violate("order", "%s: answer %u although only %zu frames were delivered", ack.name.c_str(), seq, expected);
		if (seq != acked + 1) { probe("stale_answer"); return; }
		++acked; shape(acked * 3 + 2);
		if (acked == app.size()) { done = true; return; }
		transmit();
	}
	void crash_sender() { fault("sender_crash"); data.tx->crash(); ack.rx->crash(); ++timer; up_s = false; after(draw(600), [this] { if (!up_s) { up_s = true; transmit(); } }); }
	void crash_receiver() { fault("receiver_crash"); data.rx->crash(); ack.tx->crash(); up_r = false; after(draw(600), [this] { up_r = true; }); }
	void go() {
		uint64_t calm_at = draw(8) ? 1 + draw(9000) : 1;
		after(0, [this] { transmit(); });
		for (int i = int(draw(5)); i > 0; --i) after(draw(uint32_t(calm_at) + 1), [this] { if (healed || done) return; Span sp; if (coin()) { if (up_s) crash_sender(); } else if (up_r) crash_receiver(); });
		after(calm_at, [this] { if (done) return; log("faults stop"); healed = true; up_r = true; budget = int64_t(app.size() - acked) + 2; if (!up_s) { up_s = true; } transmit(); });
		run_events(100000);
		if (!done || expected != app.size()) violate("no-progress", "%s: only %zu of %zu frames delivered at the end (%s)", data.name.c_str(), expected, app.size(), ack.name.c_str());
		sample("%s; %s: %zu frames, %llu transmissions", data.name.c_str(), ack.name.c_str(), app.size(), (unsigned long long)sends);
	}
};
}
WORLD(C19) {
	auto bs = backends(); Backend &a = *bs[draw(uint32_t(bs.size()))], &b = *bs[draw(uint32_t(bs.size()))];
	LinkWorld w(a, b); w.go();
}
