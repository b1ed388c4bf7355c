#include "wrap.hh"
#include "polar_encoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
using namespace sim;
template <class V, int L, int M> static void list(Backend &B) {
	typedef SIMD<V, L> T;
	typedef CODE::PolarEncoder<V> E; typedef CODE::PolarListDecoder<T, M> D; typedef CODE::PolarParityEncoder<V> PE; typedef CODE::PolarParityDecoder<T, M> PD; typedef CODE::PolarEncoder<T> LE;
	static_assert(sizeof(T) == sizeof(V) * L, "lane layout");
	ListCodec c{ int(sizeof(V)), L, M, std::is_floating_point<V>::value, class_of<E>(), class_of<D>(), class_of<PE>(), class_of<PD>(),
		[](void *e, void *c, const void *m, const uint32_t *f, int l) { Lib x; (*(E *)e)((V *)c, (const V *)m, f, l); },
		[](void *d, int *r, void *m, const void *c, const uint32_t *f, int l) { Lib x; (*(D *)d)(r, (T *)m, (const V *)c, f, l); },
		[](void *e, void *c, const void *m, const uint32_t *f, int l, int s, int i) { Lib x; (*(PE *)e)((V *)c, (const V *)m, f, l, s, i); },
		[](void *d, int *r, void *m, const void *c, const uint32_t *f, int l, int s, int i) { Lib x; (*(PD *)d)(r, (T *)m, (const V *)c, f, l, s, i); },
		[](void *c, const void *m, const uint32_t *f, int l) { Lib x; LE e; e((T *)c, (const T *)m, f, l); } };
	B.list.push_back(c);
}
REGISTER(list) {
	list<int8_t, 4, 8>(B); list<int8_t, 16, 9>(B); list<int8_t, 32, 10>(B); list<int8_t, 64, 9>(B); list<int8_t, 8, 13>(B);
	list<float, 4, 9>(B); list<float, 8, 10>(B); list<float, 16, 9>(B); list<float, 32, 8>(B);
	list<int8_t, 2, 8>(B); list<int8_t, 1, 7>(B); list<int8_t, 128, 8>(B); list<float, 2, 8>(B); list<float, 64, 7>(B);
	list<int8_t, 16, 16>(B); // last: the world picks it rarely
}
