#include "wrap.hh"
#include "interleave.hh"
#include "permute.hh"
using namespace sim;
struct Odd { uint8_t b[3]; };
struct Big { uint32_t a; float b; uint16_t c[2]; };
template <int SIZE, int ORDER, class T> static void one(Backend &B) {
	B.intlv.push_back(IntlvCodec{ SIZE, ORDER, int(sizeof(T)), [](void *o, const void *i) { Lib l; CODE::Interleave<SIZE, ORDER>((T *)o, (const T *)i); }, [](void *o, const void *i) { Lib l; CODE::Deinterleave<SIZE, ORDER>((T *)o, (const T *)i); } });
}
template <int LEN, int ORDER> static void intlv(Backend &B) {
	one<LEN * ORDER, ORDER, uint8_t>(B); one<LEN * ORDER, ORDER, uint16_t>(B); one<LEN * ORDER, ORDER, float>(B); one<LEN * ORDER, ORDER, Odd>(B); one<LEN * ORDER, ORDER, Big>(B);
}
template <int LEN> static void len(Backend &B) { intlv<LEN, 1>(B); intlv<LEN, 2>(B); intlv<LEN, 3>(B); intlv<LEN, 5>(B); intlv<LEN, 8>(B); intlv<LEN, 16>(B); }
template <int SIZE, class T> static void perm(Backend &B) {
	typedef CODE::FisherYatesShuffle<SIZE> F; typedef CODE::ReverseFisherYatesShuffle<SIZE> R;
	B.perm.push_back(PermCodec{ "fisher-yates", SIZE, int(sizeof(T)), class_of<F>(), class_of<R>(), [](void *o, void *a) { Lib l; (*(F *)o)((T *)a); }, [](void *o, void *a) { Lib l; (*(R *)o)((T *)a); } });
}
template <int SIZE, class T> static void brev(Backend &B) {
	struct None {};
	B.perm.push_back(PermCodec{ "bit reversal", SIZE, int(sizeof(T)), class_of<None>(), class_of<None>(), [](void *, void *a) { Lib l; CODE::BitReversalPermute<SIZE>((T *)a); }, [](void *, void *a) { Lib l; CODE::BitReversalPermute<SIZE>((T *)a); } });
}
template <int SIZE> static void fy(Backend &B) { perm<SIZE, uint8_t>(B); perm<SIZE, uint16_t>(B); perm<SIZE, Odd>(B); perm<SIZE, Big>(B); }
template <int SIZE> static void br(Backend &B) { brev<SIZE, uint8_t>(B); brev<SIZE, uint16_t>(B); brev<SIZE, Odd>(B); brev<SIZE, Big>(B); }
REGISTER(intlv) {
	len<15>(B); len<7>(B); len<1>(B); len<20>(B); len<31>(B); len<63>(B); len<255>(B); len<64>(B);
	intlv<256, 256>(B); intlv<10, 37>(B); intlv<127, 100>(B);
	fy<15>(B); fy<2>(B); fy<3>(B); fy<16>(B); fy<17>(B); fy<31>(B); fy<64>(B); fy<255>(B); fy<256>(B); fy<1000>(B); fy<4080>(B); fy<65536>(B); perm<65537, uint8_t>(B); perm<70000, uint16_t>(B); perm<131072, Odd>(B);
	br<1>(B); br<2>(B); br<4>(B); br<8>(B); br<16>(B); br<64>(B); br<256>(B); br<4096>(B); br<32768>(B); brev<65536, uint8_t>(B); brev<131072, uint16_t>(B);
}
