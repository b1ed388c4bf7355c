// Telemetry stream: checksums, bit packing, interleaving, scrambling (C12, C13, C14, C20).
// Real: CRC, Bitstream, interleavers, permutations, generators, Reed-Solomon. Simulated: segmentation, channel, retransmission, power.
#include "codecs.hh"
using namespace sim;
typedef std::vector<uint8_t> Bits;

// ---------------------------------------------------------------- C12
namespace {
struct CrcObj {
	const CrcCodec &c; Mem m; uint64_t poly, init; int w;
	CrcObj(const CrcCodec &c, uint64_t poly, uint64_t init, const char *n) : c(c), poly(poly), init(init), w(8 * c.bytes) { m = alloc(c.size, std::max<size_t>(c.align, 16), 0, n); start(); }
	void start() { c.make(m.p, poly, init); }
	void crash() { garbage(m.p, m.n); start(); }
};
// remainder of the stream by long division: bit i of the register is the coefficient of x^(w-1-i)
struct Remainder {
	int w; uint64_t poly; Bits r; // r[i] is the coefficient of x^(w-1-i)
	Remainder(int w, uint64_t poly, uint64_t init) : w(w), poly(poly), r(size_t(w)) { set(init); }
	void set(uint64_t v) { for (int i = 0; i < w; ++i) r[size_t(i)] = (v >> i) & 1; }
	uint64_t value() const { uint64_t v = 0; for (int i = 0; i < w; ++i) v |= uint64_t(r[size_t(i)]) << i; return v; }
	void feed(const Bits &b) { // (register * x^n + message * x^w) mod generator
		std::vector<uint8_t> d(b.size() + size_t(w));
		for (size_t i = 0; i < d.size(); ++i) d[i] = (i < b.size() ? b[i] : 0) ^ (i < size_t(w) ? r[i] : 0);
		for (size_t i = 0; i < b.size(); ++i) if (d[i]) for (int k = 0; k < w; ++k) d[i + 1 + size_t(k)] ^= (poly >> k) & 1;
		for (int i = 0; i < w; ++i) r[size_t(i)] = d[b.size() + size_t(i)];
	}
};
uint64_t take(const Bits &b, size_t at, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= uint64_t(b[at + size_t(i)]) << i; return v; }
uint64_t good_poly(int w, bool &proper) {
	static const uint64_t known[4][5] = { { 0xD5, 0x8C, 0xAB, 0xE0, 0xB2 }, { 0xA8F4, 0x8408, 0xA001, 0xA6BC, 0xEDD1 }, { 0x8F6E37A0, 0xEDB88320, 0x82F63B78, 0xEB31D82E, 0xD5828281 }, { 0xC96C5795D7870F42ull, 0xD800000000000000ull, 0x95AC9329AC4BC9B5ull, 0xad93d23594c935a9ull, 0x92c64265d32139a4ull } };
	int row = w == 8 ? 0 : w == 16 ? 1 : w == 32 ? 2 : 3;
	uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1, p;
	if (draw(3)) { p = known[row][draw(5)]; proper = p >> (w - 1) & 1; return p; }
	Rng r = rng(); p = (r.raw() & mask) | (draw(4) ? 1ull << (w - 1) : 0); proper = p >> (w - 1) & 1;
	return p;
}
// feeds b[from..to) into o in random pieces, checking the running value after each
struct Feeder {
	const CrcCodec &c; const char *who; std::string nm;
	void bits(CrcObj &o, Remainder &ref, const Bits &b, size_t from, size_t to, int style) {
		while (from < to) {
			int kind = style < 5 ? style : int(draw(5)); static const int len[5] = { 1, 8, 16, 32, 64 };
			while (size_t(len[kind]) > to - from) --kind;
			int n = len[kind]; uint64_t v = take(b, from, n), got;
			switch (kind) { case 0: got = c.bit(o.m.p, v); break; case 1: got = c.u8(o.m.p, uint8_t(v)); break; case 2: got = c.u16(o.m.p, uint16_t(v)); break; case 3: got = c.u32(o.m.p, uint32_t(v)); break; default: got = c.u64(o.m.p, v); }
			ref.feed(Bits(b.begin() + long(from), b.begin() + long(from) + n));
			count("pieces"); shape(uint64_t(kind));
			if (got != ref.value()) violate("remainder", "%s %s: after bit %zu (piece of %d bits) the checksum is %llx, the remainder is %llx", nm.c_str(), who, from + size_t(n), n, (unsigned long long)got, (unsigned long long)ref.value());
			if (draw(4) == 0 && c.get(o.m.p) != got) violate("get", "%s %s: reading the checksum gives another value than feeding it did", nm.c_str(), who);
			from += size_t(n);
		}
	}
};
struct CrcLink {
	const CrcCodec &c; bool proper; uint64_t poly, init; CrcObj tx, rx; int frames; std::string nm; int w;
	CrcLink(const CrcCodec &c, const std::string &isa, bool proper, uint64_t poly, uint64_t init) : c(c), proper(proper), poly(poly), init(init), tx(c, poly, init, "sender"), rx(c, poly, init, "receiver"), frames(range(1, 8)), w(8 * c.bytes) {
		char t[80]; snprintf(t, sizeof t, "CRC%d poly 0x%llx init 0x%llx %s", w, (unsigned long long)poly, (unsigned long long)init, isa.c_str()); nm = t; log("%s", t); shape(digest(t, strlen(t)));
	}
	// brings an object to the state "nothing fed yet, preset v"; a fresh or defaulted object too
	void ready(CrcObj &o, uint64_t &start) {
		switch (draw(4)) {
		case 0: c.reset(o.m.p, true, 0); start = 0; break;
		case 1: c.reset(o.m.p, false, start); break;
		case 2: if (start == init) { o.crash(); fault("restart"); } else c.reset(o.m.p, false, start); break;
		default: c.reset(o.m.p, false, start); break;
		}
		if (c.get(o.m.p) != start) violate("reset", "%s: after reset to %llx the checksum reads %llx", nm.c_str(), (unsigned long long)start, (unsigned long long)c.get(o.m.p));
	}
	void frame() {
		Span sp;
		Feeder f{ c, "sender", nm }, g{ c, "receiver", nm };
		size_t n = size_t(edgy(1, 300)); if (chance(1, 4)) n *= 7;
		Bits b(n); { Rng r = rng(); for (auto &v : b) v = r.next() & 1; }
		uint64_t mask = w == 64 ? ~0ull : (1ull << w) - 1;
		uint64_t start = draw(2) ? init : rng().next() & mask;
		ready(tx, start);
		Remainder ref(w, poly, start);
		int style = int(draw(8));
		if (chance(1, 3)) { // interrupted: fed partly, then retransmitted from scratch or resumed from a stored value
			size_t k = size_t(range(0, int(n)));
			f.bits(tx, ref, b, 0, k, style); fault("interrupted");
			uint64_t keep = c.get(tx.m.p);
			switch (draw(3)) {
			case 0: tx.crash(); c.reset(tx.m.p, false, keep); f.bits(tx, ref, b, k, n, style); fault("resume_from_checkpoint"); break;
			case 1: { tx.crash(); uint64_t s = start; c.reset(tx.m.p, false, s); ref.set(s); f.bits(tx, ref, b, 0, n, style); fault("crash"); break; }
			default: c.reset(tx.m.p, false, start); ref.set(start); f.bits(tx, ref, b, 0, n, style); fault("retransmission"); break;
			}
		} else f.bits(tx, ref, b, 0, n, style);
		uint64_t crc = c.get(tx.m.p);
		{ Remainder once(w, poly, start); once.feed(b); if (once.value() != crc) violate("remainder", "%s: whole message remainder %llx, checksum %llx", nm.c_str(), (unsigned long long)once.value(), (unsigned long long)crc); }
		Bits word(b); for (int i = 0; i < w; ++i) word.push_back((crc >> i) & 1);
		log("frame of %zu bits checksum %llx", n, (unsigned long long)crc);
		// arrives whole
		c.reset(rx.m.p, false, start); Remainder rr(w, poly, start);
		g.bits(rx, rr, word, 0, word.size(), int(draw(8)));
		if (c.get(rx.m.p) != 0) violate("residue", "%s: message followed by its checksum leaves %llx", nm.c_str(), (unsigned long long)c.get(rx.m.p));
		count("frames");
		// arrives damaged
		for (int k = range(0, 3); k > 0 && proper; --k) {
			Span s2; Bits bad(word); int len = edgy(1, std::min<int>(w, int(word.size()))), at = range(0, int(word.size()) - len); Rng r = rng();
			bad[size_t(at)] ^= 1; if (len > 1) bad[size_t(at + len - 1)] ^= 1;
			for (int i = 1; i < len - 1; ++i) bad[size_t(at + i)] ^= r.next() & 1;
			fault(len == 1 ? "single_bit" : "burst"); shape(uint64_t(at) * 100 + uint64_t(len));
			c.reset(rx.m.p, false, start); Remainder q(w, poly, start); g.bits(rx, q, bad, 0, bad.size(), int(draw(8)));
			if (c.get(rx.m.p) == 0) violate("undetected", "%s: a burst of %d bits at %d in %zu bits goes undetected", nm.c_str(), len, at, word.size());
			if (at + len <= int(n)) {
				c.reset(rx.m.p, false, start); Remainder q2(w, poly, start); g.bits(rx, q2, bad, 0, n, int(draw(8)));
				if (c.get(rx.m.p) == crc) violate("undetected", "%s: a burst of %d bits at %d leaves the checksum as it was", nm.c_str(), len, at);
			}
		}
		if (chance(1, 6)) { (coin() ? tx : rx).crash(); fault("crash"); }
		if (--frames > 0) after(1000, [this] { frame(); });
	}
};
}
WORLD(C12) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))]; const CrcCodec &c = pick(b.crc);
	bool proper; uint64_t poly = good_poly(8 * c.bytes, proper), init = 0;
	if (coin()) init = rng().next() & (c.bytes == 8 ? ~0ull : (1ull << (8 * c.bytes)) - 1);
	CrcLink l(c, b.isa, proper, poly, init);
	after(1, [&] { l.frame(); }); run_events(10000);
	sample("%s", l.nm.c_str());
}

// ---------------------------------------------------------------- C13
namespace {
struct Page {
	const BitsCodec &c; Obj o; Bits model, durable; int pos, dpos, steps; std::string nm; int N, B;
	Page(const BitsCodec &c, const std::string &isa) : c(c), o(c.cls, "bit stream"), steps(range(3, 40)), N(c.bits), B((c.bits + 7) / 8) {
		char t[64]; snprintf(t, sizeof t, "Bitstream<%d> %s", N, isa.c_str()); nm = t; log("%s", t); shape(digest(t, strlen(t)));
		model.resize(size_t(8 * B)); fresh();
		durable = model; dpos = 0;
	}
	void adopt() { uint8_t *d = c.data(o()); for (int i = 0; i < 8 * B; ++i) model[size_t(i)] = (d[i / 8] >> (i % 8)) & 1; }
	void fresh() { pos = 0; adopt(); if (c.tell(o()) != 0) violate("position", "%s: a new container starts at %d", nm.c_str(), c.tell(o())); }
	void check(const char *op) {
		uint8_t *d = c.data(o());
		for (int k = 0; k < B; ++k) {
			uint8_t want = 0; for (int i = 0; i < 8; ++i) want |= uint8_t(model[size_t(8 * k + i)] << i);
			if (d[k] != want) violate("contents", "%s: after %s ending at %d byte %d is %02x, an array of bits has %02x", nm.c_str(), op, pos, k, d[k], want);
		}
		if (c.tell(o()) != pos) violate("position", "%s: after %s the position is %d, expected %d", nm.c_str(), op, c.tell(o()), pos);
	}
	void seek(int p) { c.seek(o(), p); pos = p; if (c.tell(o()) != p) violate("position", "%s: seek to %d tells %d", nm.c_str(), p, c.tell(o())); }
	uint64_t want(int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= uint64_t(model[size_t(pos + i)]) << i; return v; }
	void put(uint64_t v, int n) { for (int i = 0; i < n; ++i) model[size_t(pos + i)] = (v >> i) & 1; pos += n; }
	int width(int t) { static const int w[6] = { 8, 16, 32, 64, 31, 63 }; return w[t]; }
	void step() {
		Span sp; int room = N - pos; Rng r = rng();
		if (room == 0 || chance(1, 4)) { seek(edgy(0, N)); room = N - pos; }
		int kind = int(draw(10)); const char *op = "nothing";
		shape(uint64_t(kind) * 8 + uint64_t(pos % 8));
		switch (kind) {
		case 0: if (room >= 1) { bool v = r.next() & 1; op = "putbit"; c.putbit(o(), v); put(v, 1); } break;
		case 1: if (room >= 8) { uint8_t v = uint8_t(r.next()); op = "putbyte"; c.putbyte(o(), v); put(v, 8); } break;
		case 2: if (room >= 8 || chance(1, 4)) {
			int n = edgy(0, room / 8); Buf<uint8_t> s(size_t(n), 64, draw(5), "source"); r.fill(s.data(), size_t(n)); Bits keep(s.data(), s.data() + n); op = "writebytes";
			c.writebytes(o(), s.data(), n); for (int i = 0; i < n; ++i) { put(s[size_t(i)], 8); if (s[size_t(i)] != keep[size_t(i)]) violate("source", "%s: writebytes changed its source", nm.c_str()); }
			release(s.m); break;
		} break;
		case 3: { int t = int(draw(6)), n = edgy(0, std::min(room, width(t))); uint64_t v = r.next(); op = "writebits"; c.writebits(o(), v, n, t); put(v, n); break; } // bits above n must be ignored
		case 4: if (room >= 1) { op = "getbit"; bool w = want(1), g = c.getbit(o()); if (g != w) violate("read", "%s: getbit at %d returned %d", nm.c_str(), pos, g); ++pos; } break;
		case 5: if (room >= 8) { op = "getbyte"; uint8_t w = uint8_t(want(8)), g = c.getbyte(o()); if (g != w) violate("read", "%s: getbyte at %d returned %02x, last written %02x", nm.c_str(), pos, g, w); pos += 8; } break;
		case 6: {
			int n = edgy(0, room / 8); Buf<uint8_t> d(size_t(n), 64, draw(5), "destination"); op = "readbytes"; int p0 = pos;
			c.readbytes(o(), d.data(), n);
			for (int i = 0; i < n; ++i) { uint8_t w = uint8_t(want(8)); if (d[size_t(i)] != w) violate("read", "%s: readbytes of %d at %d: byte %d is %02x, last written %02x", nm.c_str(), n, p0, i, d[size_t(i)], w); pos += 8; }
			release(d.m); break;
		}
		case 8: case 9: { // the bytes are an array of bits counted from either end of a byte
			bool be = coin(), v = r.next() & 1, flip = coin(); int i = edgy(0, 8 * B - 1); bool g = c.peek(c.data(o()), i, be); size_t at = size_t(be ? i ^ 7 : i);
			if (g != bool(model[at])) violate("read", "%s: bit %d %s end first reads %d", nm.c_str(), i, be ? "big" : "little", g);
			op = be ? "big-endian bit access" : "little-endian bit access"; if (kind == 8) { c.touch(c.data(o()), i, v, flip, be); model[at] = flip ? model[at] ^ v : v; } break; }
		default: { int t = int(draw(6)), n = edgy(0, std::min(room, width(t))); op = "readbits"; uint64_t w = want(n), g = c.readbits(o(), n, t); if (g != w) violate("read", "%s: readbits of %d at %d into type %d returned %llx, last written %llx", nm.c_str(), n, pos, t, (unsigned long long)g, (unsigned long long)w); pos += n; break; }
		}
		count("operations"); log("%s -> %d", op, pos);
		check(op);
		switch (weighted({ 24, 2, 2, 2, 1, 2 })) {
		case 1: durable = model; dpos = pos; log("checkpoint"); break;
		case 2: { // power loss: rebuilt from the durable image
			o.crash(); uint8_t *d = c.data(o()); memset(d, 0, size_t(B)); for (int i = 0; i < 8 * B; ++i) d[i / 8] |= uint8_t(durable[size_t(i)] << (i % 8));
			model = durable; seek(dpos); fault("crash_and_restore"); check("restore"); break; }
		case 3: { c.reset(o()); std::fill(model.begin(), model.end(), 0); pos = 0; fault("reset"); check("reset"); break; }
		case 4: { int i = range(0, 8 * B - 1); c.data(o())[i / 8] ^= uint8_t(1 << (i % 8)); model[size_t(i)] ^= 1; fault("bit_rot"); break; }
		case 5: seek(edgy(0, N)); fault("seek"); break;
		}
		if (--steps > 0) after(10, [this] { step(); });
		else finish();
	}
	// everything is read back with another segmentation
	void finish() {
		seek(0);
		while (pos < N) {
			int room = N - pos; uint64_t w;
			switch (draw(3)) {
			case 0: w = want(1); if (c.getbit(o()) != bool(w)) violate("read", "%s: final pass, bit %d", nm.c_str(), pos); ++pos; break;
			case 1: if (room < 8) break; w = want(8); if (c.getbyte(o()) != w) violate("read", "%s: final pass, byte at %d", nm.c_str(), pos); pos += 8; break;
			default: { int n = std::min(room, range(1, 64)); w = want(n); if (c.readbits(o(), n, 3) != w) violate("read", "%s: final pass, %d bits at %d", nm.c_str(), n, pos); pos += n; }
			}
			if (N > 5000 && pos > 600 && pos < N - 700) seek(N - 600);
		}
		check("final pass");
	}
};
}
WORLD(C13) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))]; const BitsCodec &c = pick(b.bits);
	Page p(c, b.isa);
	after(1, [&] { p.step(); }); run_events(100000);
	sample("%s", p.nm.c_str());
}

// ---------------------------------------------------------------- C14
namespace {
struct Burst {
	const IntlvCodec &il, *il2; const RsCodec *rs = nullptr; FieldUse field; Obj enc, dec; int blocks, len; std::string nm;
	Burst(const IntlvCodec &a, const IntlvCodec *a2, Backend &b) : il(a), il2(a2), len(a.size / a.order) {
		std::vector<const RsCodec *> fit; for (auto &r : b.rs) if (r.bytes == il.bytes && r.N >= len && r.nr < len && r.nr / 2 > 0) fit.push_back(&r);
		if (!fit.empty()) rs = fit[draw(uint32_t(fit.size()))];
		char t[112]; snprintf(t, sizeof t, "Interleave<%d,%d> of %d byte elements, %s nr %d %s", il.size, il.order, il.bytes, rs ? "RS" : "no code", rs ? rs->nr : 0, b.isa.c_str()); nm = t; log("%s", t); shape(digest(t, strlen(t)));
		if (rs) { field = FieldUse(rs->field); enc = Obj(rs->enc, "encoder"); dec = Obj(rs->dec, "decoder"); }
		blocks = range(1, 4);
	}
	void go() {
		size_t n = size_t(il.size) * size_t(il.bytes), all = n * size_t(blocks);
		Rng r = rng(); Bits src(all), air;
		for (int k = 0; k < blocks; ++k) {
			Buf<uint8_t> in(n, 64, draw(3) * 8, "codewords"), out(n, 64, draw(3) * 8, "interleaved"), back(n, 64, draw(3) * 8, "deinterleaved");
			r.fill(in.data(), n);
			if (rs) for (int j = 0; j < il.order; ++j) {
				uint8_t *w = in.data() + size_t(j) * len * il.bytes; int mask = (1 << rs->m) - 1;
				for (int i = 0; i < len; ++i) { if (il.bytes == 1) w[i] &= mask; else ((uint16_t *)w)[i] &= mask; }
				rs->encode(enc(), w, w + size_t(len - rs->nr) * il.bytes, len - rs->nr, 0);
				if (chance(1, 8)) { enc.crash(); fault("sender_crash"); }
			}
			memcpy(src.data() + size_t(k) * n, in.data(), n);
			il.fwd(out.data(), in.data());
			if (memcmp(in.data(), src.data() + size_t(k) * n, n)) violate("input", "%s: the interleaver changed its input", nm.c_str());
			if (il2) { Buf<uint8_t> o2(n, 64, 0, "other node"); il2->fwd(o2.data(), in.data()); if (memcmp(o2.data(), out.data(), n)) violate("nodes-differ", "%s: two nodes interleave differently", nm.c_str()); release(o2.m); }
			il.inv(back.data(), out.data());
			if (memcmp(back.data(), in.data(), n)) violate("inverse", "%s: deinterleaving does not undo interleaving", nm.c_str());
			air.insert(air.end(), out.data(), out.data() + n);
			il.inv(back.data(), in.data()); il.fwd(out.data(), back.data());
			if (memcmp(out.data(), in.data(), n)) violate("inverse", "%s: interleaving does not undo deinterleaving", nm.c_str());
			release(back.m); release(out.m); release(in.m); count("blocks");
		}
		if (!rs) { nontrivial(); return; }
		int T = rs->nr / 2, total = il.size * blocks, maxb = std::min(total, il.order * T);
		int bl = coin() ? maxb : edgy(1, maxb), at = edgy(0, total - bl); int mask = (1 << rs->m) - 1;
		for (int i = at; i < at + bl; ++i) { // every symbol of the burst changes
			if (il.bytes == 1) air[size_t(i)] ^= uint8_t(1 + r.below(uint32_t(mask))); else { uint16_t v; memcpy(&v, &air[size_t(i) * 2], 2); v ^= uint16_t(1 + r.below(uint32_t(mask))); memcpy(&air[size_t(i) * 2], &v, 2); }
		}
		fault("burst"); if (bl == maxb) probe("longest_correctable_burst"); if (at / il.size != (at + bl - 1) / il.size) probe("burst_across_blocks");
		log("burst of %d at %d of %d", bl, at, total); shape(uint64_t(at) * 65536 + uint64_t(bl));
		std::vector<int> order = r.sample(blocks, blocks); if (coin()) { std::sort(order.begin(), order.end()); } else if (blocks > 1) fault("reordering");
		for (int k : order) {
			if (chance(1, 4)) { dec.crash(); fault("receiver_crash"); }
			Buf<uint8_t> in(n, 64, draw(3) * 8, "received"), out(n, 64, draw(3) * 8, "deinterleaved"), e(64, 64, 0, "erasures");
			memcpy(in.data(), air.data() + size_t(k) * n, n);
			(il2 && coin() ? *il2 : il).inv(out.data(), in.data());
			int fixed = 0;
			for (int j = 0; j < il.order; ++j) {
				uint8_t *w = out.data() + size_t(j) * len * il.bytes;
				int ret = rs->decode(dec(), w, w + size_t(len - rs->nr) * il.bytes, e.data(), 0, len - rs->nr, 0);
				if (ret < 0) violate("burst", "%s: burst of %d symbols at %d (radius %d, order %d): codeword %d of block %d cannot be decoded", nm.c_str(), bl, at, T, il.order, j, k);
				fixed += ret;
			}
			if (memcmp(out.data(), src.data() + size_t(k) * n, n)) violate("burst", "%s: burst of %d symbols at %d: block %d decodes to something else", nm.c_str(), bl, at, k);
			int hit = std::max(0, std::min(at + bl, (k + 1) * il.size) - std::max(at, k * il.size));
			if (fixed != hit) violate("burst", "%s: block %d reports %d corrections for %d damaged symbols", nm.c_str(), k, fixed, hit);
			release(e.m); release(out.m); release(in.m);
		}
	}
};
struct Shuffle {
	const PermCodec &p, *p2; Obj a, b; std::string nm;
	Shuffle(const PermCodec &p, const PermCodec *p2, const std::string &isa) : p(p), p2(p2), a(p.fwd, "permutation"), b((p2 ? p2 : &p)->inv, "inverse") { char t[80]; snprintf(t, sizeof t, "%s<%d> of %d byte elements %s", p.family, p.size, p.bytes, isa.c_str()); nm = t; log("%s", t); shape(digest(t, strlen(t))); }
	void go() {
		const PermCodec &q = p2 ? *p2 : p; Bits first;
		for (int k = range(1, 4); k > 0; --k) {
			size_t n = size_t(p.size) * size_t(p.bytes); Buf<uint8_t> x(n, 64, draw(3) * 8, "array"); Rng r = rng(); r.fill(x.data(), n); Bits src(x.data(), x.data() + n);
			if (chance(1, 3)) { a.crash(); fault("sender_crash"); }
			if (chance(1, 3)) { b.crash(); fault("receiver_crash"); }
			bool fwd = coin();
			if (fwd) p.forward(a(), x.data()); else q.reverse(b(), x.data());
			Bits mid(x.data(), x.data() + n);
			if (p.family[0] == 'b') { int w = 31 - __builtin_clz(unsigned(p.size)); size_t e = size_t(p.bytes);
				for (size_t i = 0; i < size_t(p.size); ++i) { size_t j = 0; for (int t = 0; t < w; ++t) j |= (i >> t & 1) << (w - 1 - t); if (memcmp(&mid[i * e], &src[j * e], e)) violate("bit-reversal", "%s: element %zu is not the one from index %zu", nm.c_str(), i, j); } }
			if (fwd) q.reverse(b(), x.data()); else p.forward(a(), x.data());
			if (memcmp(x.data(), src.data(), n)) violate("inverse", "%s: %s does not restore the array", nm.c_str(), fwd ? "reversing after permuting" : "permuting after reversing");
			count("arrays"); nontrivial(); shape(uint64_t(fwd));
			release(x.m);
		}
	}
};
}
WORLD(C14) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))], &b2 = *bs[draw(uint32_t(bs.size()))];
	if (draw(3)) {
		int i = int(draw(uint32_t(b.intlv.size()))); Burst w(b.intlv[i], &b2 != &b ? &b2.intlv[i] : nullptr, b);
		after(1, [&] { w.go(); }); run_events(100); sample("%s", w.nm.c_str());
	} else {
		int i = int(draw(uint32_t(b.perm.size()))); Shuffle w(b.perm[i], &b2 != &b ? &b2.perm[i] : nullptr, b.isa);
		after(1, [&] { w.go(); }); run_events(100); sample("%s", w.nm.c_str());
	}
}

// ---------------------------------------------------------------- C20
namespace {
// the published recurrences, written from the paper with the state as a history of words
struct Published {
	int kind; uint64_t s[6]; int deg = 0; uint64_t poly = 0; uint64_t st = 0;
	static uint64_t dflt(int kind, int i) {
		static const uint64_t d32[] = { 2463534242u }, d64[] = { 88172645463325252ull }, dw[] = { 123456789, 362436069, 521288629, 88675123, 5783321, 6615241 };
		return kind == 0 ? d32[i] : kind == 1 ? d64[i] : dw[i];
	}
	void seed(int k, int n, const uint64_t *v, int total) { kind = k; for (int i = 0; i < total; ++i) s[i] = i < n ? v[i] : dflt(k, i); }
	void seed_mls(uint64_t p, uint64_t reg) { kind = 4; poly = p; deg = 63 - __builtin_clzll(p); st = reg; }
	static uint32_t L(uint32_t v, int n) { return uint32_t(uint64_t(v) << n); }
	uint64_t next() {
		uint32_t t;
		switch (kind) {
		case 0: { uint32_t y = uint32_t(s[0]); y = y ^ L(y, 13); y = y ^ (y >> 17); y = y ^ L(y, 5); return s[0] = y; }
		case 1: { uint64_t x = s[0]; x = x ^ (x << 13); x = x ^ (x >> 7); x = x ^ (x << 17); return s[0] = x; }
		case 2: t = uint32_t(s[0]) ^ (uint32_t(s[0]) >> 2); s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; s[3] = s[4]; s[4] = uint32_t(s[4]) ^ L(uint32_t(s[4]), 4) ^ t ^ L(t, 1); s[5] = uint32_t(s[5] + 362437); return uint32_t(s[4] + s[5]);
		case 3: t = uint32_t(s[0]) ^ L(uint32_t(s[0]), 11); s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; s[3] = uint32_t(s[3]) ^ (uint32_t(s[3]) >> 19) ^ t ^ (t >> 8); return s[3];
		default: { bool out = (st >> (deg - 1)) & 1; st = (st << 1) % (1ull << (deg + 1)); if (out) st ^= poly; return out; } // multiplication by x modulo the polynomial
		}
	}
};
uint64_t mulmod(uint64_t a, uint64_t b, uint64_t p, int d) { uint64_t r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a <<= 1; if (a >> d & 1) a ^= p; } return r; }
uint64_t powx(uint64_t e, uint64_t p, int d) { uint64_t r = 1, a = d == 1 ? (2 ^ p) : 2; for (; e; e >>= 1) { if (e & 1) r = mulmod(r, a, p, d); a = mulmod(a, a, p, d); } return r; }
bool primitive(uint64_t p, int d) {
	uint64_t n = (1ull << d) - 1; if (!(p & 1) || powx(n, p, d) != 1) return false;
	uint64_t m = n; for (uint64_t q = 2; q * q <= m; ++q) if (m % q == 0) { if (powx(n / q, p, d) == 1) return false; while (m % q == 0) m /= q; }
	return m == 1 || m == n || powx(n / m, p, d) != 1;
}
struct Party {
	const PrngCodec &c; Mem m; int kind; const char *who; uint64_t poly;
	Party(const PrngCodec &c, int kind, const char *who, uint64_t poly) : c(c), kind(kind), who(who), poly(poly) { m = alloc(c.size, 16, 0, who); }
	// reaches the seeded state by construction or by reset
	void reach(int n, const uint64_t *v, bool construct) {
		if (!c.bad) { if (construct) { garbage(m.p, m.n); c.make(m.p, n, v); } else c.reset(m.p, n, v); return; }
		if (construct) { garbage(m.p, m.n); uint64_t a[2] = { poly, n ? v[0] : 1 }; c.make(m.p, n ? 2 : poly == 0x100009 && coin() ? 0 : 1, a); } else c.reset(m.p, n, v);
	}
	uint64_t next() { return c.next(m.p); }
};
struct Scrambled {
	const PrngCodec &c, &c2; int kind; uint64_t poly = 0; Party a, b; Published ref; uint64_t v[6]; int nargs = 0; std::string nm; uint64_t sent = 0; int frames; int flen; Published at0;
	Scrambled(const PrngCodec &c, const PrngCodec &c2, int kind, const std::string &isa, uint64_t poly) : c(c), c2(c2), kind(kind), poly(poly), a(c, kind, "sender", poly), b(c2, kind, "receiver", poly) {
		char t[80]; snprintf(t, sizeof t, "%s poly 0x%llx %s", c.name, (unsigned long long)poly, isa.c_str()); nm = t; log("%s", t); shape(digest(t, strlen(t)));
		uint64_t none[6] = {}; a.reach(0, none, true); b.reach(0, none, true); frames = range(2, 14); flen = edgy(1, 40); reseed(); keyed();
	}
	void reseed() {
		Rng r = rng(); int total = c.bad ? 1 : c.nseed; nargs = int(draw(uint32_t(total + 1)));
		for (int i = 0; i < 6; ++i) v[i] = c.bytes == 8 ? r.next() : uint32_t(r.next());
		if (c.bad) { int d = 63 - __builtin_clzll(poly); v[0] = 1 + r.below(uint32_t((1ull << d) - 1)); }
		if (!v[0]) v[0] = 1; // the all-zero state is no legal seed
		at0 = Published(); if (c.bad) at0.seed_mls(poly, nargs ? v[0] : 1); else at0.seed(kind, nargs, v, c.nseed);
	}
	void keyed() { a.reach(nargs, v, coin()); b.reach(nargs, v, coin()); ref = at0; sent = 0; log("key exchange, %d seed words", nargs); shape(uint64_t(nargs)); }
	void frame() {
		Span sp;
		// the sender scrambles the next frame
		Bits key; std::vector<uint64_t> data, air; Rng r = rng();
		auto in_step = [&](Party &p, uint64_t got, uint64_t w, uint64_t i) { if (got != w) violate("sequence", "%s %s: output %llu since seeding is %llx, the published sequence has %llx", nm.c_str(), p.who, (unsigned long long)i, (unsigned long long)got, (unsigned long long)w); };
		Published before = ref; uint64_t start = sent;
		for (int i = 0; i < flen; ++i) { uint64_t d = c.bad ? r.next() & 1 : c.bytes == 8 ? r.next() : uint32_t(r.next()), k = a.next(), w = ref.next(); in_step(a, k, w, sent); ++sent; data.push_back(d); air.push_back(d ^ k); }
		count("outputs", uint64_t(flen));
		// the channel and the receiver
		switch (weighted({ 6, 2, 2, 2 })) {
		case 1: { fault("frame_lost"); resync(start + uint64_t(flen), ref); goto next; }
		case 2: { for (uint64_t w : air) (void)w, b.next(); fault("duplicate_out_of_step"); resync(start, before); break; }
		case 3: { fault("receiver_crash"); garbage(b.m.p, b.m.n); crashed = true; resync(start, before); break; }
		}
		{ Published q = before; for (int i = 0; i < flen; ++i) { uint64_t k = b.next(); in_step(b, k, q.next(), start + uint64_t(i)); if ((air[size_t(i)] ^ k) != data[size_t(i)]) violate("descramble", "%s: descrambling does not restore the data", nm.c_str()); } }
	next:
		switch (weighted({ 8, 2, 2, 1 })) {
		case 1: { fault("sender_crash"); garbage(a.m.p, a.m.n); a.reach(nargs, v, true); for (uint64_t i = 0; i < sent; ++i) a.next(); break; }
		case 2: reseed(); fault("rekey"); keyed(); break;
		case 3: if (c.bad) { probe_bad(); } break;
		}
		if (--frames > 0) after(1000, [this] { frame(); });
	}
	bool crashed = false;
	// the receiver returns to the seed and skips to where it should be
	void resync(uint64_t at, const Published &) { b.reach(nargs, v, crashed || coin()); crashed = false; for (uint64_t i = 0; i < at; ++i) b.next(); log("receiver back in step at %llu", (unsigned long long)at); }
	// the polynomial is checked in the field; afterwards both return to a known state
	void probe_bad() {
		int d = 63 - __builtin_clzll(poly); if (d > 14 || d < 2) return;
		uint64_t r0 = 1 + rng().below(uint32_t((1ull << d) - 1)); bool dflt = coin(); if (dflt) r0 = 1;
		bool got = c.bad(a.m.p, dflt ? 0 : 1, int(r0)), want = !primitive(poly, d);
		log("bad(%llu) says %d", (unsigned long long)r0, got); count("polynomials_checked");
		if (got != want && !(want && r0)) violate("bad", "%s: bad(%llu) says %d for a %s polynomial", nm.c_str(), (unsigned long long)r0, got, want ? "non-primitive" : "primitive");
		if (want && !got) violate("bad", "%s: bad(%llu) accepts a polynomial that is not primitive", nm.c_str(), (unsigned long long)r0);
		if (!got) { Published q; q.seed_mls(poly, r0); for (int i = 0; i < 20; ++i) { uint64_t k = a.next(), w = q.next(); if (k != w) violate("sequence", "%s: after checking the polynomial from state %llu output %d is %llu", nm.c_str(), (unsigned long long)r0, i, (unsigned long long)k); } }
		keyed();
	}
	void period() { // a primitive polynomial visits every state but zero once
		int d = 63 - __builtin_clzll(poly); if (!c.bad || d > 12 || !primitive(poly, d)) return;
		reseed(); keyed(); uint64_t n = (1ull << d) - 1, ones = 0; std::vector<uint8_t> seen(size_t(n) + 1); uint64_t win = 0;
		for (uint64_t i = 0; i < n + uint64_t(d); ++i) { uint64_t k = a.next(); if (i < n) ones += k; win = ((win << 1) | k) & n; if (i + 1 >= uint64_t(d) && i + 1 < n + uint64_t(d)) { if (!win || seen[size_t(win)]) violate("period", "%s: window %llx repeats or is zero after %llu outputs", nm.c_str(), (unsigned long long)win, (unsigned long long)i); seen[size_t(win)] = 1; } }
		if (ones != (n + 1) / 2) violate("period", "%s: %llu ones in a period of %llu", nm.c_str(), (unsigned long long)ones, (unsigned long long)n);
		count("periods"); keyed();
	}
};
}
WORLD(C20) {
	auto bs = backends(); Backend &b = *bs[draw(uint32_t(bs.size()))], &b2 = *bs[draw(uint32_t(bs.size()))];
	int k = int(draw(uint32_t(b.prng.size()))); const PrngCodec &c = b.prng[k], &c2 = b2.prng[k]; uint64_t poly = 0;
	if (c.bad) {
		static const std::vector<uint64_t> known = { 0b100000000000000001001, 0b111, 0b1011, 0b1101, 0b10011, 0b11111, 0b100101, 0b1000011, 0b1010111, 0b10001001, 0b100011101, 0b100011011, 0b1000010001, 0b10000001001, 0b100000000101, 0b1000001010011, 0x8003, 0x1100b, 0x800021, 0x40000053, 0x20000005 };
		if (draw(4)) poly = pick(known); else { int d = range(2, 14); poly = (1ull << d) | !chance(1, 5) | (rng().next() & ((1ull << d) - 1)); } // even ones are never maximal
	}
	Scrambled s(c, c2, k, b.isa, poly);
	after(1, [&] { s.frame(); }); if (c.bad && chance(1, 3)) after(500, [&] { s.period(); });
	run_events(1000); sample("%s", s.nm.c_str());
}
