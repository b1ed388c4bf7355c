#include "wrap.hh"
#include "sort.hh"
#include "exclusive_reduce.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
using namespace sim;
struct None {};
struct Pair { uint16_t key, val; };
inline bool operator<(Pair a, Pair b) { return a.key < b.key; }
template <class T> static void sorts(Backend &B) {
	const bool f = std::is_floating_point<T>::value; const int b = sizeof(T);
	B.misc.push_back({ "insertion sort", 0, b, 40, f, class_of<None>(), [](void *, void *const *a, const int64_t *p) -> int64_t { Lib l; CODE::insertion_sort((T *)a[0], int(p[0])); return 0; } });
	B.misc.push_back({ "insertion order", 1, b, 40, f, class_of<None>(), [](void *, void *const *a, const int64_t *p) -> int64_t { Lib l; CODE::insertion_sort((int *)a[1], (T *)a[0], int(p[0])); return 0; } });
	B.misc.push_back({ "insertion sort by", 0, b, 40, f, class_of<None>(), [](void *, void *const *a, const int64_t *p) -> int64_t { Lib l; CODE::insertion_sort((T *)a[0], int(p[0]), [](T x, T y) { return y < x; }); return 0; } });
	typedef CODE::MergeSort<T, 300> M; typedef CODE::MergeSort<T, 300, 8> M8;
	B.misc.push_back({ "merge sort", 0, b, 300, f, class_of<M>(), [](void *o, void *const *a, const int64_t *p) -> int64_t { Lib l; (*(M *)o)((T *)a[0], int(p[0])); return 0; } });
	B.misc.push_back({ "merge sort by", 0, b, 300, f, class_of<M8>(), [](void *o, void *const *a, const int64_t *p) -> int64_t { Lib l; (*(M8 *)o)((T *)a[0], int(p[0]), [](T x, T y) { return y < x; }); return 0; } });
}
template <class T> static void reduce(Backend &B) {
	B.misc.push_back({ "exclusive reduce", 2, int(sizeof(T)), 40, false, class_of<None>(), [](void *, void *const *a, const int64_t *p) -> int64_t { Lib l; CODE::exclusive_reduce((const T *)a[0], (T *)a[1], int(p[0]), [](T x, T y) { return T(x ^ y); }); return 0; } });
	B.misc.push_back({ "exclusive minimum", 2, int(sizeof(T)), 40, false, class_of<None>(), [](void *, void *const *a, const int64_t *p) -> int64_t { Lib l; CODE::exclusive_reduce((const T *)a[0], (T *)a[1], int(p[0]), [](T x, T y) { return y < x ? y : x; }); return 0; } });
}
template <int M> static void polar(Backend &B) {
	typedef CODE::PolarFreezer F; typedef CODE::PolarCodeConst0<M> C; typedef CODE::PolarSeqConst0<M> S;
	B.misc.push_back({ "polar freezer", 3, 4, M, false, class_of<F>(), [](void *o, void *const *a, const int64_t *p) -> int64_t { Lib l; return (*(F *)o)((uint32_t *)a[0], int(p[0]), double(p[2]) / 1000, double(p[3]) / 1000); } });
	B.misc.push_back({ "polar code construction", 3, 4, M, false, class_of<C>(), [](void *o, void *const *a, const int64_t *p) -> int64_t { Lib l; (*(C *)o)((uint32_t *)a[0], int(p[0]), int(p[1]), double(p[2]) / 1000); return 0; } });
	B.misc.push_back({ "polar sequence", 4, 4, M, false, class_of<S>(), [](void *o, void *const *a, const int64_t *p) -> int64_t { Lib l; (*(S *)o)((int *)a[0], int(p[0]), double(p[2]) / 1000); return 0; } });
}
REGISTER(misc) {
	sorts<uint8_t>(B); sorts<int16_t>(B); sorts<float>(B); sorts<Pair>(B);
	reduce<int8_t>(B); reduce<uint32_t>(B);
	polar<8>(B); polar<5>(B);
}
