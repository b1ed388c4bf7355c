#include "wrap.hh"
#include "vec_ops.hh"
#include "simd.hh"
#include "simd_sort.hh"
#include "rotate.hh"
using namespace sim;
namespace {
const char *names[OPS] = { "vdup", "vzero", "move", "vneg", "vabs", "vqabs", "vsignum", "vadd", "vsub", "vmul", "vqadd", "vqsub", "vmin", "vmax", "vclamp", "vsign", "vcgtz", "vceqz", "vcltz", "vclez", "vcgt", "vceq", "vshuf", "vsort", "vorder", "rotate left", "rotate right", "select",
	"vnot", "vorr", "vand", "veor", "vbic", "vbsl", "vqsub unsigned", "vcgt unsigned", "vshuf unsigned", "vmask", "vreinterpret", "vcopysign" };
template <class T, int W> struct Machine {
	typedef SIMD<T, W> S; typedef typename S::uint_type UT; typedef SIMD<UT, W> U;
	static constexpr bool flt = std::is_floating_point<T>::value; static constexpr int bits = 8 * sizeof(T);
	static_assert(sizeof(S) == sizeof(T) * W && sizeof(U) == sizeof(S), "layout");
	static const char *name(int op) { return names[op]; }
	// registers 0-3 hold values, 4-7 hold masks and indices
	static S &s(void *r, int i) { return ((S *)r)[i & 3]; }
	static U &u(void *r, int i) { return ((U *)r)[4 + (i & 3)]; }
	static S small(S x, int q) { // operands for which the plain scalar back end has no overflow
		if (flt) { for (int i = 0; i < W; ++i) x.v[i] = T(long(x.v[i])); return vclamp(x, T(-2048), T(2048)); }
		if (bits < 32) return x;
		T lim = T(1ll << (bits / q - 2)); return vclamp(x, T(-lim), lim);
	}
	static U index(U x) { for (int i = 0; i < W; ++i) x.v[i] = UT(x.v[i] % W); return x; }
	template <class R = S> static typename std::enable_if<!std::is_floating_point<T>::value && sizeof(R) != 0>::type more(void *r, int op, int d, int a, int b) {
		switch (op) {
		case QABS: s(r, d) = vqabs(s(r, a)); break;
		case MASK: u(r, d) = d & 1 ? vunsigned(s(r, a)) : vmask(s(r, a)); break;
		case UNMASK: s(r, d) = d & 1 ? vsigned(u(r, a)) : vreinterpret<S>(u(r, a)); break;
		case U_CGT: u(r, d) = vcgt(u(r, a), u(r, b)); break;
		}
		narrow(r, op, d, a, b, std::integral_constant<bool, (bits < 32)>());
	}
	template <class R = S> static typename std::enable_if<std::is_floating_point<T>::value && sizeof(R) != 0>::type more(void *r, int op, int d, int a, int b) {
		if (op == MASK) u(r, d) = vmask(s(r, a));
		if (op == COPYSIGN) { S y = small(s(r, b), 1); y = vadd(y, vdup<S>(T(0.5))); s(r, d) = vcopysign(small(s(r, a), 1), y); }
	}
	static void narrow(void *, int, int, int, int, std::false_type) {}
	static void narrow(void *r, int op, int d, int a, int b, std::true_type) {
		if (op == QADD) s(r, d) = vqadd(s(r, a), s(r, b));
		if (op == QSUB) s(r, d) = vqsub(s(r, a), s(r, b));
		if (op == U_QSUB) u(r, d) = vqsub(u(r, a), u(r, b));
	}
	static void step(void *r, int op, int d, int a, int b, int c, int imm) {
		Lib l;
		switch (op) {
		case DUP: s(r, d) = vdup<S>(T(imm)); break;
		case ZERO: s(r, d) = vzero<S>(); break;
		case MOVE: { s(r, d) = s(r, a); u(r, d) = u(r, b); break; }
		case NEG: s(r, d) = vneg(small(s(r, a), 1)); break;
		case ABS: s(r, d) = vabs(small(s(r, a), 1)); break;
		case SIGNUM: s(r, d) = vsignum(s(r, a)); break;
		case ADD: s(r, d) = vadd(small(s(r, a), 1), small(s(r, b), 1)); break;
		case SUB: s(r, d) = vsub(small(s(r, a), 1), small(s(r, b), 1)); break;
		case MUL: s(r, d) = vmul(small(s(r, a), 2), small(s(r, b), 2)); break;
		case MIN: s(r, d) = vmin(s(r, a), s(r, b)); break;
		case MAX: s(r, d) = vmax(s(r, a), s(r, b)); break;
		case CLAMP: { T lo = T(std::min(imm, c * 3 - 5)), hi = T(std::max(imm, c * 3 - 5)); if (hi < lo) std::swap(lo, hi); s(r, d) = vclamp(s(r, a), lo, hi); break; }
		case SIGN: s(r, d) = vsign(small(s(r, a), 1), s(r, b)); break;
		case CGTZ: u(r, d) = vcgtz(s(r, a)); break;
		case CEQZ: u(r, d) = vceqz(s(r, a)); break;
		case CLTZ: u(r, d) = vcltz(s(r, a)); break;
		case CLEZ: u(r, d) = vclez(s(r, a)); break;
		case CGT: u(r, d) = vcgt(s(r, a), s(r, b)); break;
		case CEQ: u(r, d) = vceq(s(r, a), s(r, b)); break;
		case SHUF: s(r, d) = vshuf(s(r, a), index(u(r, b))); break;
		case SORT: s(r, d) = vsort(s(r, a)); break;
		case ORDER: u(r, d) = vorder(s(r, a)); break;
		case ROTL: case ROTR: { CODE::Rotate<S, W> rot; int k = imm % W; s(r, d) = rot(s(r, a), op == ROTL ? k : -k); break; }
		case SELECT: { U m = vcgtz(s(r, c)); s(r, d) = vreinterpret<S>(vbsl(m, vmask(s(r, a)), vmask(s(r, b)))); break; }
		case U_NOT: u(r, d) = vnot(u(r, a)); break;
		case U_ORR: u(r, d) = vorr(u(r, a), u(r, b)); break;
		case U_AND: u(r, d) = vand(u(r, a), u(r, b)); break;
		case U_EOR: u(r, d) = veor(u(r, a), u(r, b)); break;
		case U_BIC: u(r, d) = vbic(u(r, a), u(r, b)); break;
		case U_BSL: u(r, d) = vbsl(u(r, a), u(r, b), u(r, c)); break;
		case U_SHUF: u(r, d) = vshuf(u(r, a), index(u(r, b))); break;
		default: more(r, op, d, a, b);
		}
		if (flt) { S &x = s(r, d); for (int i = 0; i < W; ++i) if (!x.v[i]) x.u[i] = 0; } // the sign of a zero is not part of the contract
	}
};
template <class T, int W> void add(Backend &B, const char *n) {
	typedef Machine<T, W> M;
	B.vec.push_back(VecMachine{ n, W, int(sizeof(T)), 8, OPS, 8 * sizeof(typename M::S), 64, M::name, M::step });
}
}
REGISTER(vec) {
#define A(T, W) add<T, W>(B, #T);
	A(int8_t, 16) A(int8_t, 32) A(int8_t, 48) A(int8_t, 64) A(int8_t, 4) A(int8_t, 8) A(int8_t, 128)
	A(int16_t, 8) A(int16_t, 16) A(int16_t, 24) A(int16_t, 32) A(int16_t, 4)
	A(int32_t, 4) A(int32_t, 8) A(int32_t, 12) A(int32_t, 16) A(int32_t, 2)
	A(int64_t, 2) A(int64_t, 4) A(int64_t, 6) A(int64_t, 8)
	A(float, 4) A(float, 8) A(float, 12) A(float, 16) A(float, 32)
	A(double, 2) A(double, 4) A(double, 6) A(double, 8)
}
