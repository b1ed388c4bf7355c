// What the simulated systems see of the library: thin virtual wrappers, compiled once per processor back end.
#pragma once
#include "sim.hh"

namespace sim {

struct Field { int m; unsigned poly; int bytes; size_t size; void (*make)(void *); void (*kill)(void *); int users; void *at; };

// an object of the library: constructed in simulator memory
struct Class { size_t size, align; std::function<void(void *)> make, kill; };

struct RsCodec {
	Field *field; int m; unsigned poly; int bytes, nr, fcr, N, K;
	Class enc, dec;
	void (*encode)(void *enc, const void *data, void *parity, int len, int api);
	int (*decode)(void *dec, void *data, void *parity, void *erasures, int count, int len, int api);
	int (*syndromes)(void *dec, const void *data, const void *parity, void *syn, int len, int api);
};
struct BchCodec {
	Field *field; int m; unsigned poly; int bytes, nr, fcr, N, K, NP;
	std::vector<int> minpolys;
	Class enc, dec, renc, rdec; // packed and reference implementations
	void (*encode)(void *, const uint8_t *data, uint8_t *parity, int len);
	int (*decode)(void *, uint8_t *data, uint8_t *parity, void *erasures, int count, int len);
	int (*syndromes)(void *, const uint8_t *data, const uint8_t *parity, void *syn, int len);
	void (*rencode)(void *, const void *data, void *parity, int len);
	int (*rdecode)(void *, void *data, void *parity, void *erasures, int count, int len);
	int (*rsyndromes)(void *, const void *data, const void *parity, void *syn, int len);
};
struct CrsCodec {
	Field *field; int m; unsigned poly; int bytes;
	Class cls;
	void (*encode)(void *, const void *data, void *block, int id, int len, int cnt, int api);
	void (*decode)(void *, void *data, const void *blocks, const void *ids, int idx, int len, int cnt, int api);
};
struct CpfCodec {
	unsigned prime; int bytes, max_len;
	Class cls;
	int (*encode)(void *, const void *data, void *block, int id, int len, int cnt);
	void (*decode)(void *, void *data, const void *blocks, const void *subs, const void *ids, int idx, int len, int cnt);
};
struct WordCodec { // Hadamard, simplex: message <-> soft word
	const char *family; int k, n;
	Class enc, dec;
	void (*encode)(void *, int8_t *code, int msg);
	int (*decode)(void *, const int8_t *code);
};
struct SbchCodec {
	int n, k, t; unsigned gen;
	Class enc, dec;
	int (*encode)(void *, int msg);
	int (*encode_soft)(void *, int8_t *code, int msg);
	int (*hard)(void *, int word);
	int (*soft)(void *, const int8_t *code);
};
struct LdpcTable { const char *name; int M, N, K; const int *DEG, *LEN, *POS; };
struct LdpcCodec {
	LdpcTable t; int beta;
	Class enc, dec;
	void (*encode)(void *, const int8_t *data, int8_t *parity);
	int (*decode)(void *, int8_t *message, int8_t *parity, int trials);
};
struct PolarCodec { // scalar successive cancellation
	int bytes, max_m; bool flt;
	Class enc, sys, dec;
	void (*encode)(void *, void *code, const void *msg, const uint32_t *frozen, int level);
	void (*sysenc)(void *, void *code, const void *msg, const uint32_t *frozen, int level);
	void (*decode)(void *, void *msg, const void *code, const uint32_t *frozen, int level);
};
struct ListCodec {
	int bytes, lanes, max_m; bool flt;
	Class enc, list, penc, pdec;
	void (*encode)(void *, void *code, const void *msg, const uint32_t *frozen, int level);             // scalar encoder
	void (*list_decode)(void *, int *rank, void *msg, const void *code, const uint32_t *frozen, int level);
	void (*par_encode)(void *, void *code, const void *msg, const uint32_t *frozen, int level, int stride, int first);
	void (*par_decode)(void *, int *rank, void *msg, const void *code, const uint32_t *frozen, int level, int stride, int first);
	// lane-parallel encoder: every lane of msg encoded at once
	void (*lane_encode)(void *code, const void *msg, const uint32_t *frozen, int level);
};
struct OsdCodec {
	const char *name; int n, k, o, l; // l == 0: single answer
	Class dec;
	bool (*decode)(void *, uint8_t *hard, const int8_t *soft, const int8_t *genmat);
	void (*list_decode)(void *, int *rank, uint8_t *hard, const int8_t *soft, const int8_t *genmat);
	void (*genmat)(int8_t *, bool systematic);
	void (*encode)(uint8_t *codeword, const uint8_t *message, const int8_t *genmat);
	std::vector<int> minpolys; // of genmat
};
struct CrcCodec {
	int bytes;
	size_t size, align;
	void (*make)(void *, uint64_t poly, uint64_t init);
	void (*reset)(void *, bool dflt, uint64_t v);
	uint64_t (*get)(void *);
	uint64_t (*bit)(void *, bool); uint64_t (*u8)(void *, uint8_t); uint64_t (*u16)(void *, uint16_t); uint64_t (*u32)(void *, uint32_t); uint64_t (*u64)(void *, uint64_t);
};
struct BitsCodec {
	int bits;
	Class cls;
	void (*seek)(void *, int); int (*tell)(void *); uint8_t *(*data)(void *); void (*reset)(void *);
	void (*putbit)(void *, bool); bool (*getbit)(void *); void (*putbyte)(void *, uint8_t); uint8_t (*getbyte)(void *);
	void (*writebytes)(void *, const uint8_t *, int); void (*readbytes)(void *, uint8_t *, int);
	void (*writebits)(void *, uint64_t, int num, int type); uint64_t (*readbits)(void *, int num, int type);
	void (*touch)(uint8_t *, int pos, bool v, bool flip, bool be); bool (*peek)(const uint8_t *, int pos, bool be); // bitman.hh on the raw bytes
};
struct IntlvCodec { int size, order, bytes; void (*fwd)(void *out, const void *in); void (*inv)(void *out, const void *in); };
struct PermCodec { const char *family; int size, bytes; Class fwd, inv; void (*forward)(void *, void *array); void (*reverse)(void *, void *array); };
struct PrngCodec {
	const char *name; int nseed, bytes; bool dfl_all;
	size_t size, align;
	void (*make)(void *, int nargs, const uint64_t *seed); void (*reset)(void *, int nargs, const uint64_t *seed); uint64_t (*next)(void *);
	bool (*bad)(void *, int nargs, int r); // maximum length sequences only
};
// a register machine over one vector type: every exported element-wise operation, for replicas
struct VecMachine {
	const char *type; int lanes, bytes, nregs; int nops;
	size_t size, align;
	const char *(*op_name)(int op);
	void (*step)(void *regs, int op, int d, int a, int b, int c, int imm);
};

// sorting, reduction and code construction
struct MiscCodec {
	const char *name; int kind, bytes, max; bool flt;
	Class cls;
	int64_t (*call)(void *, void *const *args, const int64_t *par);
};

struct Backend {
	std::string isa;
	std::vector<RsCodec> rs; std::vector<BchCodec> bch; std::vector<CrsCodec> crs; std::vector<CpfCodec> cpf;
	std::vector<WordCodec> word; std::vector<SbchCodec> sbch; std::vector<LdpcCodec> ldpc; std::vector<PolarCodec> polar;
	std::vector<ListCodec> list; std::vector<OsdCodec> osd; std::vector<CrcCodec> crc; std::vector<BitsCodec> bits;
	std::vector<IntlvCodec> intlv; std::vector<PermCodec> perm; std::vector<PrngCodec> prng; std::vector<VecMachine> vec; std::vector<MiscCodec> misc;
};
Backend &backend(const std::string &isa); // "v3", "v2", "v1"; every world sees those it was built with
std::vector<Backend *> backends();

// an object of the code under test in simulator memory
struct Obj {
	Class c{}; Mem m; bool live = false;
	Obj() {}
	explicit Obj(const Class &cls, const char *name = "object") : c(cls) { m = alloc(cls.size, std::max<size_t>(cls.align, 64), 0, name); start(); }
	void start() { { Lib l; c.make(m.p); } live = true; }
	void end() { if (live) { { Lib l; c.kill(m.p); } live = false; } }
	void restart() { end(); garbage(m.p, m.n); start(); }     // orderly
	void crash() { live = false; garbage(m.p, m.n); start(); } // no destructor, dirty memory
	void *operator()() const { return m.p; }
	void free() { end(); release(m); }
};
// field tables: at most one live set per field, as the library demands
struct FieldUse {
	Field *f; Mem m;
	FieldUse() : f(nullptr) {}
	explicit FieldUse(Field *ff) : f(ff) { if (f && !f->users++) { m = alloc(f->size, 64, 0, "field tables"); Lib l; f->make(m.p); f->at = m.p; } }
	void free() { if (f && !--f->users) { Lib l; f->kill(f->at); f->at = nullptr; } f = nullptr; }
};
}
