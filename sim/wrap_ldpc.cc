#include "wrap.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "ldpc_tables.inc"
using namespace sim;
template <class T, int BETA> static void ldpc(Backend &B, const char *name) {
	typedef CODE::LDPCEncoder<T> E; typedef CODE::LDPCDecoder<T, BETA> D;
	LdpcCodec c{ { name, T::M, T::N, T::K, T::DEG, T::LEN, T::POS }, BETA, class_of<E>(), class_of<D>(),
		[](void *e, const int8_t *d, int8_t *p) { Lib l; (*(E *)e)(d, p); },
		[](void *d, int8_t *m, int8_t *p, int t) { Lib l; return (*(D *)d)(m, p, t); } };
	B.ldpc.push_back(c);
}
REGISTER(ldpc) {
#define L(T) ldpc<T, 0>(B, #T); ldpc<T, 1>(B, #T); ldpc<T, 2>(B, #T);
	LDPC_TABLES(L)
}
