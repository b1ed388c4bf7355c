#include "wrap.hh"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
using namespace sim;

template <class GF> Field *field_of(unsigned poly) {
	static Field f{ GF::M, poly, int(sizeof(typename GF::value_type)), sizeof(GF), [](void *p) { new (p) GF; }, [](void *p) { ((GF *)p)->~GF(); (void)p; }, 0, nullptr };
	return &f;
}
template <int NR, int FCR, int K, int M, int POLY, class T, int... MP> static void add(Backend &B) {
	typedef CODE::GaloisField<M, POLY, T> GF;
	typedef CODE::BoseChaudhuriHocquenghemEncoder<GF::N, K> E;
	typedef CODE::BoseChaudhuriHocquenghemDecoder<NR, FCR, K, GF> D;
	typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR, FCR, K, GF> RE;
	typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR, FCR, K, GF> RD;
	typedef typename GF::ValueType V; typedef typename GF::IndexType I;
	BchCodec c{};
	c.field = field_of<GF>(POLY); c.m = M; c.poly = POLY; c.bytes = sizeof(T); c.nr = NR; c.fcr = FCR; c.N = GF::N; c.K = K; c.NP = GF::N - K;
	c.minpolys = { MP... };
	c.enc = { sizeof(E), alignof(E), [](void *p) { new (p) E({ MP... }); }, [](void *p) { ((E *)p)->~E(); (void)p; } };
	c.renc = { sizeof(RE), alignof(RE), [](void *p) { new (p) RE({ MP... }); }, [](void *p) { ((RE *)p)->~RE(); (void)p; } };
	c.dec = class_of<D>(); c.rdec = class_of<RD>();
	c.encode = [](void *e, const uint8_t *d, uint8_t *p, int len) { Lib l; if (len == K) (*(E *)e)(d, p); else (*(E *)e)(d, p, len); };
	c.decode = [](void *x, uint8_t *d, uint8_t *p, void *er, int cnt, int len) {
		Lib l;
		if (len == K) return cnt ? (*(D *)x)(d, p, (T *)er, cnt) : (*(D *)x)(d, p);
		return (*(D *)x)(d, p, (T *)er, cnt, len);
	};
	c.syndromes = [](void *x, const uint8_t *d, const uint8_t *p, void *s, int len) { Lib l; return len & 1 ? ((D *)x)->compute_syndromes(d, p, (V *)s, len) : ((D *)x)->compute_syndromes(d, p, (T *)s, len); };
	c.rencode = [](void *e, const void *d, void *p, int len) { Lib l; if (len == K) (*(RE *)e)((const V *)d, (V *)p); else (*(RE *)e)((const V *)d, (V *)p, len); };
	c.rdecode = [](void *x, void *d, void *p, void *er, int cnt, int len) {
		Lib l;
		if (len == K) return cnt ? (*(RD *)x)((V *)d, (V *)p, (I *)er, cnt) : (*(RD *)x)((V *)d, (V *)p);
		return (*(RD *)x)((V *)d, (V *)p, (I *)er, cnt, len);
	};
	c.rsyndromes = [](void *x, const void *d, const void *p, void *s, int len) { Lib l; return ((RD *)x)->compute_syndromes((const V *)d, (const V *)p, (V *)s, len); };
	B.bch.push_back(c);
}
REGISTER(bch) {
#define BCH(NR, FCR, K, M, POLY, T, ...) add<NR, FCR, K, M, POLY, T, __VA_ARGS__>(B);
#include "bch_codes.inc"
}
