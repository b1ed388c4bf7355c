#include "wrap.hh"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
using namespace sim;

template <class GF> Field *field_of(unsigned poly) {
	static Field f{ GF::M, poly, int(sizeof(typename GF::value_type)), sizeof(GF), [](void *p) { new (p) GF; }, [](void *p) { ((GF *)p)->~GF(); (void)p; }, 0, nullptr };
	return &f;
}
template <int NR, int FCR, int M, int POLY, class T> static void add(Backend &B) {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef CODE::ReedSolomonEncoder<NR, FCR, GF> E;
	typedef CODE::ReedSolomonDecoder<NR, FCR, GF> D;
	typedef typename GF::ValueType V; typedef typename GF::IndexType I;
	RsCodec c{};
	c.field = field_of<GF>(POLY); c.m = M; c.poly = POLY; c.bytes = sizeof(T); c.nr = NR; c.fcr = FCR; c.N = E::N; c.K = E::K;
	c.enc = class_of<E>(); c.dec = class_of<D>();
	c.encode = [](void *e, const void *d, void *p, int len, int api) {
		Lib l;
		if (api & 1) (*(E *)e)((const V *)d, (V *)p, len);
		else if (len == E::K && (api & 2)) (*(E *)e)((const T *)d, (T *)p);
		else (*(E *)e)((const T *)d, (T *)p, len);
	};
	c.decode = [](void *x, void *d, void *p, void *er, int cnt, int len, int api) {
		Lib l;
		if (api & 1) return (*(D *)x)((V *)d, (V *)p, (I *)er, cnt, len);
		if (len == D::K && (api & 2)) return cnt ? (*(D *)x)((T *)d, (T *)p, (T *)er, cnt) : (*(D *)x)((T *)d, (T *)p);
		return (*(D *)x)((T *)d, (T *)p, (T *)er, cnt, len);
	};
	c.syndromes = [](void *x, const void *d, const void *p, void *s, int len, int api) {
		Lib l;
		if (api & 1) return ((D *)x)->compute_syndromes((const V *)d, (const V *)p, (V *)s, len);
		return ((D *)x)->compute_syndromes((const T *)d, (const T *)p, (T *)s, len);
	};
	B.rs.push_back(c);
}
REGISTER(rs) {
	add<2, 0, 2, 0x7, uint8_t>(B); add<2, 1, 2, 0x7, uint8_t>(B); add<1, 0, 2, 0x7, uint8_t>(B);
	add<2, 1, 3, 0xb, uint8_t>(B); add<3, 0, 3, 0xb, uint8_t>(B); add<4, 2, 3, 0xd, uint8_t>(B); add<5, 1, 3, 0xd, uint8_t>(B); add<6, 0, 3, 0xb, uint8_t>(B);
	add<1, 1, 4, 0x13, uint8_t>(B); add<2, 0, 4, 0x13, uint8_t>(B); add<3, 1, 4, 0x13, uint8_t>(B); add<4, 0, 4, 0x13, uint8_t>(B); add<5, 3, 4, 0x19, uint8_t>(B); add<6, 1, 4, 0x13, uint8_t>(B); add<8, 2, 4, 0x19, uint8_t>(B); add<11, 0, 4, 0x13, uint8_t>(B); add<14, 1, 4, 0x13, uint8_t>(B);
	add<4, 0, 5, 0x25, uint8_t>(B); add<5, 1, 5, 0x25, uint8_t>(B); add<10, 4, 5, 0x3d, uint8_t>(B);
	add<4, 1, 6, 0x43, uint8_t>(B); add<9, 0, 6, 0x6d, uint8_t>(B); add<7, 2, 7, 0x89, uint8_t>(B); add<12, 0, 7, 0x89, uint8_t>(B);
	add<2, 0, 8, 0x11d, uint8_t>(B); add<3, 1, 8, 0x11d, uint8_t>(B); add<16, 0, 8, 0x11d, uint8_t>(B); add<16, 1, 8, 0x12b, uint8_t>(B); add<32, 112, 8, 0x187, uint8_t>(B); add<20, 0, 8, 0x11d, uint16_t>(B); add<4, 2, 8, 0x14d, uint8_t>(B);
	add<6, 1, 9, 0x211, uint16_t>(B); add<8, 0, 10, 0x409, uint16_t>(B); add<4, 1, 12, 0x1053, uint16_t>(B); add<10, 2, 13, 0x201b, uint16_t>(B); add<3, 0, 15, 0x8003, uint16_t>(B);
	add<2, 0, 16, 0x1100b, uint16_t>(B); add<4, 1, 16, 0x1100b, uint16_t>(B); add<64, 1, 16, 0x1100b, uint16_t>(B);
}
