#include "wrap.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
using namespace sim;
template <class T, int M> static void polar(Backend &B) {
	typedef CODE::PolarEncoder<T> E; typedef CODE::PolarSysEnc<T> S; typedef CODE::PolarDecoder<T, M> D;
	PolarCodec c{ int(sizeof(T)), M, std::is_floating_point<T>::value, class_of<E>(), class_of<S>(), class_of<D>(),
		[](void *e, void *c, const void *m, const uint32_t *f, int l) { Lib x; (*(E *)e)((T *)c, (const T *)m, f, l); },
		[](void *e, void *c, const void *m, const uint32_t *f, int l) { Lib x; (*(S *)e)((T *)c, (const T *)m, f, l); },
		[](void *d, void *m, const void *c, const uint32_t *f, int l) { Lib x; (*(D *)d)((T *)m, (const T *)c, f, l); } };
	B.polar.push_back(c);
}
REGISTER(polar) {
	polar<int8_t, 5>(B); polar<int8_t, 7>(B); polar<int8_t, 10>(B); polar<int8_t, 14>(B);
	polar<float, 6>(B); polar<float, 9>(B); polar<float, 12>(B); polar<int8_t, 20>(B);
}
