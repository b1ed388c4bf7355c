#include "wrap.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
using namespace sim;
template <class E, class D> static void word(Backend &B, const char *f, int k, int n) {
	WordCodec c{ f, k, n, class_of<E>(), class_of<D>(), [](void *e, int8_t *w, int m) { Lib l; (*(E *)e)(w, m); }, [](void *d, const int8_t *w) { Lib l; return (*(D *)d)(w); } };
	B.word.push_back(c);
}
template <int K> static void had(Backend &B) { word<CODE::HadamardEncoder<K>, CODE::HadamardDecoder<K>>(B, "hadamard", K, 1 << (K - 1)); }
template <int K> static void smp(Backend &B) { word<CODE::SimplexEncoder<K>, CODE::SimplexDecoder<K>>(B, "simplex", K, (1 << K) - 1); }
template <int N, int K, int G, int T> static void sb(Backend &B) {
	typedef CODE::ShortBCHCodeEncoder<N, K, G> E; typedef CODE::ShortBCHCodeDecoder<N, K, G, T> D;
	SbchCodec c{ N, K, T, unsigned(G), class_of<E>(), class_of<D>(),
		[](void *e, int m) { Lib l; return (*(E *)e)(m); }, [](void *e, int8_t *w, int m) { Lib l; return (*(E *)e)(w, m); },
		[](void *d, int w) { Lib l; return (*(D *)d)(w); }, [](void *d, const int8_t *w) { Lib l; return (*(D *)d)(w); } };
	B.sbch.push_back(c);
}
REGISTER(word) {
	had<2>(B); had<3>(B); had<4>(B); had<5>(B); had<6>(B); had<7>(B); had<8>(B); had<9>(B); had<10>(B); had<11>(B); had<12>(B); had<14>(B); had<17>(B);
	smp<1>(B); smp<2>(B); smp<3>(B); smp<4>(B); smp<5>(B); smp<6>(B); smp<7>(B); smp<8>(B); smp<9>(B); smp<10>(B); smp<12>(B); smp<17>(B);
#define SBCH(N, K, G, T) sb<N, K, G, T>(B);
#include "sbch_codes.inc"
}
