#include "wrap.hh"
#include "xorshift.hh"
#include "mls.hh"
using namespace sim;
template <class C, class T, size_t... I> static void mk(void *p, const uint64_t *s, std::index_sequence<I...>) { new (p) C(T(s[I])...); }
template <class C, class T, size_t... I> static void rs(void *p, const uint64_t *s, std::index_sequence<I...>) { ((C *)p)->reset(T(s[I])...); }
template <class C, class T, int MAX, int N = 0> struct Call {
	static void make(void *p, int n, const uint64_t *s) { if (n == N) mk<C, T>(p, s, std::make_index_sequence<N>()); else Call<C, T, MAX, N + 1>::make(p, n, s); }
	static void reset(void *p, int n, const uint64_t *s) { if (n == N) rs<C, T>(p, s, std::make_index_sequence<N>()); else Call<C, T, MAX, N + 1>::reset(p, n, s); }
};
template <class C, class T, int MAX> struct Call<C, T, MAX, MAX> {
	static void make(void *p, int, const uint64_t *s) { mk<C, T>(p, s, std::make_index_sequence<MAX>()); }
	static void reset(void *p, int, const uint64_t *s) { rs<C, T>(p, s, std::make_index_sequence<MAX>()); }
};
template <class C, class T, int MAX> static void prng(Backend &B, const char *name) {
	B.prng.push_back(PrngCodec{ name, MAX, int(sizeof(T)), true, sizeof(C), alignof(C),
		[](void *p, int n, const uint64_t *s) { Lib l; Call<C, T, MAX>::make(p, n, s); },
		[](void *p, int n, const uint64_t *s) { Lib l; Call<C, T, MAX>::reset(p, n, s); },
		[](void *p) { Lib l; return uint64_t((*(C *)p)()); }, nullptr });
}
REGISTER(prng) {
	prng<CODE::Xorshift32, uint32_t, 1>(B, "xorshift32"); prng<CODE::Xorshift64, uint64_t, 1>(B, "xorshift64");
	prng<CODE::Xorwow, uint32_t, 6>(B, "xorwow"); prng<CODE::Xorshift128, uint32_t, 4>(B, "xorshift128");
	typedef CODE::MLS M;
	B.prng.push_back(PrngCodec{ "mls", 2, 0, false, sizeof(M), alignof(M),
		[](void *p, int n, const uint64_t *s) { Lib l; if (n == 0) new (p) M; else if (n == 1) new (p) M(int(s[0])); else new (p) M(int(s[0]), int(s[1])); },
		[](void *p, int n, const uint64_t *s) { Lib l; if (n) ((M *)p)->reset(int(s[0])); else ((M *)p)->reset(); },
		[](void *p) { Lib l; return uint64_t((*(M *)p)()); },
		[](void *p, int n, int r) { Lib l; return n ? ((M *)p)->bad(r) : ((M *)p)->bad(); } });
}
