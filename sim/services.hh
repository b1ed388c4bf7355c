// Every public operation of the library as a request with declared inputs, outputs and the bits it may write.
#pragma once
#include "codecs.hh"
namespace sim {
enum Role { IN, OUT, INOUT };
typedef std::vector<uint8_t> Bytes;
struct Arg {
	const char *name; Role role; int elem, align;
	size_t n;      // bytes
	Bytes init;    // contents before (IN, INOUT)
	Bytes may;     // bits that may change; empty: all of them (OUT, INOUT)
	Bytes def;     // bits whose value afterwards is specified; empty: the same as may
	bool writable(size_t i, uint8_t *m) const { *m = role == IN ? 0 : may.empty() ? 0xff : may[i]; return *m; }
	uint8_t defined(size_t i) const { return role == IN ? 0 : def.empty() ? (may.empty() ? 0xff : may[i]) : def[i]; }
};
struct Request {
	std::vector<Arg> args; std::vector<int64_t> par; std::string what;
	bool easy = true;  // the outcome does not depend on the width of the vectors
	size_t bytes() const { size_t t = 0; for (auto &a : args) t += a.n; return t; }
};
struct Result { int64_t ret = 0; Bytes out; bool operator==(const Result &o) const { return ret == o.ret && out == o.out; } };
struct Service {
	std::string name, isa; int family, heavy; Class cls; Field *field;
	std::function<void(Request &, Rng &)> make;
	std::function<int64_t(void *, uint8_t *const *, const int64_t *)> call;
	std::function<Result(const Request &, const Result &)> canon; // what all back ends agree on; empty: everything
	const void *key; // services with the same key work on the same class of objects (null: on their own)
	int group; // back ends with the same group agree on everything
};
const std::vector<Service> &services(const std::string &isa);
int families();
// a service of a randomly chosen family (parallel by index over the back ends); heavy ones are chosen less often
int pick_service(const std::vector<Service> &, int max_heavy = 2);
// compares only defined bits
Result collect(const Request &, int64_t ret, uint8_t *const *bufs);
std::string difference(const Request &, const Result &, const Result &);
// buffers for one request, placed in simulator memory
Mem put_one(const Arg &, int how);
struct Place {
	std::vector<Mem> mem; std::vector<uint8_t *> p;
	// how: 0 aligned, 1 at any alignment the element type allows, 2 also against inaccessible pages; shared inputs are used as they are
	void put(const Request &, int how, const std::vector<uint8_t *> *shared = nullptr);
	void free();
};
}
