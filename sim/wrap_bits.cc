#include "wrap.hh"
#include "bitstream.hh"
#include "bitman.hh"
using namespace sim;
template <int N> static void bits(Backend &B) {
	typedef CODE::Bitstream<N> C;
	static_assert(C::BITS == N && C::BYTES == (N + 7) / 8, "size");
	BitsCodec c{ N, class_of<C>(),
		[](void *p, int v) { Lib l; ((C *)p)->seek(v); }, [](void *p) { Lib l; return ((C *)p)->tell(); }, [](void *p) { Lib l; return ((C *)p)->data(); }, [](void *p) { Lib l; ((C *)p)->reset(); },
		[](void *p, bool v) { Lib l; ((C *)p)->putbit(v); }, [](void *p) { Lib l; return ((C *)p)->getbit(); },
		[](void *p, uint8_t v) { Lib l; ((C *)p)->putbyte(v); }, [](void *p) { Lib l; return ((C *)p)->getbyte(); },
		[](void *p, const uint8_t *b, int n) { Lib l; ((C *)p)->writebytes(b, n); }, [](void *p, uint8_t *b, int n) { Lib l; ((C *)p)->readbytes(b, n); },
		[](void *p, uint64_t v, int num, int type) {
			Lib l; C &o = *(C *)p;
			switch (type) {
			case 0: o.writebits(uint8_t(v), num); break;
			case 1: o.writebits(uint16_t(v), num); break;
			case 2: o.writebits(uint32_t(v), num); break;
			case 3: o.writebits(uint64_t(v), num); break;
			case 4: o.writebits(int(v), num); break;
			default: o.writebits(int64_t(v), num); break;
			}
		},
		[](void *p, int num, int type) {
			Lib l; C &o = *(C *)p;
			switch (type) {
			case 0: { uint8_t v = uint8_t(0x5a); o.readbits(&v, num); return uint64_t(v); }
			case 1: { uint16_t v = uint16_t(0x5a5a); o.readbits(&v, num); return uint64_t(v); }
			case 2: { uint32_t v = 0x5a5a5a5a; o.readbits(&v, num); return uint64_t(v); }
			case 4: { int v = 0x5a5a5a5a; o.readbits(&v, num); return uint64_t(uint32_t(v)); }
			case 5: { int64_t v = 0x5a5a5a5a; o.readbits(&v, num); return uint64_t(v); }
			default: { uint64_t v = 0x5a5a5a5a5a5a5a5aull; o.readbits(&v, num); return v; }
			}
		},
		[](uint8_t *p, int i, bool v, bool flip, bool be) { Lib l; if (flip) be ? CODE::xor_be_bit(p, i, v) : CODE::xor_le_bit(p, i, v); else be ? CODE::set_be_bit(p, i, v) : CODE::set_le_bit(p, i, v); },
		[](const uint8_t *p, int i, bool be) { Lib l; return be ? CODE::get_be_bit(p, i) : CODE::get_le_bit(p, i); } };
	B.bits.push_back(c);
}
REGISTER(bits) {
	bits<64>(B); bits<1>(B); bits<7>(B); bits<8>(B); bits<9>(B); bits<17>(B); bits<63>(B); bits<65>(B); bits<128>(B); bits<255>(B); bits<512>(B); bits<1000>(B); bits<2048>(B); bits<4099>(B); bits<65536>(B);
}
