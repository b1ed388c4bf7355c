#include "wrap.hh"
#include "galois_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
using namespace sim;

template <int M, int POLY, class T> static void add(Backend &B) {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef CODE::CauchyReedSolomonErasureCoding<GF> C;
	typedef typename GF::ValueType V;
	static Field f{ M, POLY, sizeof(T), sizeof(GF), [](void *p) { new (p) GF; }, [](void *p) { ((GF *)p)->~GF(); (void)p; }, 0, nullptr };
	CrsCodec c{};
	c.field = &f; c.m = M; c.poly = POLY; c.bytes = sizeof(T); c.cls = class_of<C>();
	c.encode = [](void *x, const void *d, void *b, int id, int len, int cnt, int api) {
		Lib l; C &o = *(C *)x;
		if (api == 0) o.encode((const T *)d, (T *)b, id, len, cnt);
		else if (api == 1) o.encode((const V *)d, (V *)b, id, len, cnt);
		else o.encode(d, b, id, int(len * sizeof(T)), cnt);
	};
	c.decode = [](void *x, void *d, const void *b, const void *ids, int idx, int len, int cnt, int api) {
		Lib l; C &o = *(C *)x;
		if (api == 0) o.decode((T *)d, (const T *)b, (const T *)ids, idx, len, cnt);
		else if (api == 1) o.decode((V *)d, (const V *)b, (const V *)ids, idx, len, cnt);
		else o.decode(d, b, (const T *)ids, idx, int(len * sizeof(T)), cnt);
	};
	B.crs.push_back(c);
}
REGISTER(crs) {
	add<8, 0x11d, uint8_t>(B); add<8, 0x187, uint8_t>(B); add<16, 0x1100b, uint16_t>(B); add<16, 0x1002d, uint16_t>(B);
	add<2, 0x7, uint8_t>(B); add<3, 0xb, uint8_t>(B); add<4, 0x13, uint8_t>(B); add<5, 0x25, uint16_t>(B); add<7, 0x89, uint8_t>(B); add<8, 0x12b, uint16_t>(B); add<9, 0x211, uint16_t>(B); add<12, 0x1053, uint16_t>(B); add<15, 0x8003, uint16_t>(B);
}
