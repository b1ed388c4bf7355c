#include "wrap.hh"
#include "osd.hh"
using namespace sim;
template <int N, int K, int O, int L> static void osd(Backend &B, void (*gen)(int8_t *, bool), std::vector<int> mp = {}) {
	typedef CODE::OrderedStatisticsDecoder<N, K, O> D; typedef CODE::OrderedStatisticsListDecoder<N, K, O, L> LD;
	auto enc = [](uint8_t *c, const uint8_t *m, const int8_t *g) { Lib l; CODE::LinearEncoder<N, K> e; e(c, m, g); };
	OsdCodec a{ "osd", N, K, O, 0, class_of<D>(), [](void *d, uint8_t *h, const int8_t *s, const int8_t *g) { Lib l; return (*(D *)d)(h, s, g); }, nullptr, gen, enc, mp };
	OsdCodec b{ "osld", N, K, O, L, class_of<LD>(), nullptr, [](void *d, int *r, uint8_t *h, const int8_t *s, const int8_t *g) { Lib l; (*(LD *)d)(r, h, s, g); }, gen, enc, mp };
	B.osd.push_back(a); B.osd.push_back(b); // always in pairs
}
template <int N, int K> struct Gen { typedef CODE::BoseChaudhuriHocquenghemGenerator<N, K> G; };
REGISTER(osd) {
	osd<7, 4, 1, 5>(B, [](int8_t *m, bool s) { Lib l; Gen<7, 4>::G::matrix(m, s, { 0b1011 }); }, { 0b1011 });
	osd<7, 4, 4, 16>(B, nullptr); osd<8, 4, 2, 4>(B, nullptr); osd<9, 1, 1, 2>(B, nullptr); osd<12, 3, 0, 1>(B, nullptr);
	osd<15, 5, 1, 3>(B, [](int8_t *m, bool s) { Lib l; Gen<15, 5>::G::matrix(m, s, { 0b10011, 0b11111, 0b00111 }); }, { 0b10011, 0b11111, 0b00111 });
	osd<15, 5, 6, 32>(B, [](int8_t *m, bool s) { Lib l; Gen<15, 5>::G::matrix(m, s, { 0b10011, 0b11111, 0b00111 }); }, { 0b10011, 0b11111, 0b00111 });
	osd<15, 7, 2, 8>(B, [](int8_t *m, bool s) { Lib l; Gen<15, 7>::G::matrix(m, s, { 0b10011, 0b11111 }); }, { 0b10011, 0b11111 });
	osd<16, 5, 3, 10>(B, nullptr); osd<23, 12, 3, 20>(B, nullptr); osd<24, 12, 2, 4>(B, nullptr); osd<24, 8, 6, 64>(B, nullptr);
	osd<31, 16, 2, 16>(B, [](int8_t *m, bool s) { Lib l; Gen<31, 16>::G::matrix(m, s, { 0x25, 0b111101, 0b110111 }); }, { 0x25, 0b111101, 0b110111 });
	osd<33, 10, 4, 12>(B, nullptr); osd<40, 30, 1, 7>(B, nullptr); osd<64, 6, 5, 33>(B, nullptr); osd<61, 20, 3, 6>(B, nullptr);
	osd<127, 64, 2, 8>(B, [](int8_t *m, bool s) { Lib l; Gen<127, 64>::G::matrix(m, s, { 0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011 }); }, { 0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011 });
	osd<20, 20, 1, 9>(B, nullptr); osd<300, 12, 2, 6>(B, nullptr); osd<512, 9, 3, 4>(B, nullptr); osd<255, 71, 1, 8>(B, nullptr);
}
