#include "codecs.hh"
#include <memory>
namespace sim {
void register_all();
static std::vector<Backend *> all; static bool done;
Backend &backend(const std::string &isa) {
	for (auto b : all) if (b->isa == isa) return *b;
	all.push_back(new Backend); all.back()->isa = isa;
	return *all.back();
}
std::vector<Backend *> backends() { if (!done) { done = true; register_all(); } return all; }
// registered before any run forks, so that every run starts from the same image
static struct Init { Init() { backends(); } } init;
}
