#include "wrap.hh"
#include "crc.hh"
using namespace sim;
template <class T> static void crc(Backend &B) {
	typedef CODE::CRC<T> C;
	CrcCodec c{ int(sizeof(T)), sizeof(C), alignof(C),
		[](void *p, uint64_t poly, uint64_t init) { Lib l; if (init) new (p) C(T(poly), T(init)); else new (p) C(T(poly)); },
		[](void *p, bool d, uint64_t v) { Lib l; if (d) ((C *)p)->reset(); else ((C *)p)->reset(T(v)); },
		[](void *p) { Lib l; return uint64_t((*(C *)p)()); },
		[](void *p, bool v) { Lib l; return uint64_t((*(C *)p)(v)); },
		[](void *p, uint8_t v) { Lib l; return uint64_t((*(C *)p)(v)); },
		[](void *p, uint16_t v) { Lib l; return uint64_t((*(C *)p)(v)); },
		[](void *p, uint32_t v) { Lib l; return uint64_t((*(C *)p)(v)); },
		[](void *p, uint64_t v) { Lib l; return uint64_t((*(C *)p)(v)); } };
	B.crc.push_back(c);
}
REGISTER(crc) { crc<uint8_t>(B); crc<uint16_t>(B); crc<uint32_t>(B); crc<uint64_t>(B); }
