#include "wrap.hh"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"
using namespace sim;

template <class W, W PRIME, class IO, int LEN> static void add(Backend &B) {
	typedef CODE::PrimeField<W, PRIME> PF;
	typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO, LEN> C;
	CpfCodec c{};
	c.prime = PRIME; c.bytes = sizeof(IO); c.max_len = LEN; c.cls = class_of<C>();
	c.encode = [](void *x, const void *d, void *b, int id, int len, int cnt) { Lib l; return ((C *)x)->encode((const IO *)d, (IO *)b, id, len, cnt); };
	c.decode = [](void *x, void *d, const void *b, const void *subs, const void *ids, int idx, int len, int cnt) { Lib l; ((C *)x)->decode((IO *)d, (const IO *)b, (const IO *)subs, (const IO *)ids, idx, len, cnt); };
	B.cpf.push_back(c);
}
REGISTER(cpf) {
	add<uint32_t, 257, uint8_t, 255>(B); add<uint32_t, 257, uint8_t, 64>(B); add<uint32_t, 257, uint8_t, 7>(B); add<uint64_t, 257, uint8_t, 255>(B);
	add<uint64_t, 65537, uint16_t, 65535>(B); add<uint64_t, 65537, uint16_t, 1024>(B); add<uint64_t, 65537, uint16_t, 33>(B);
	add<uint32_t, 17, uint8_t, 15>(B); add<uint64_t, 8191, uint16_t, 999>(B); add<uint64_t, 127, uint8_t, 125>(B);
}
