// C15: servers with histories.  C16: threads.  C17: nodes of different builds.  C18: memory contracts.
#include "services.hh"
#include "vec_ref.hh"
#include <map>
#include <memory>
namespace sim {
namespace {
struct Want { bool have = false; Result r; };
struct Job { const Service *s; Request q; Want want; uint64_t edges = 0; int served = 0; };

const std::vector<Service> &some_build() { auto b = backends(); return services(b[draw(uint32_t(b.size()))]->isa); }
Job new_job(const Service &s) { Job j; j.s = &s; Rng r = rng(); s.make(j.q, r); return j; }
// other operations of the same class of objects
std::vector<const Service *> siblings(const std::vector<Service> &all, const Service &s) { std::vector<const Service *> v; if (s.key) for (auto &t : all) if (t.key == s.key) v.push_back(&t); if (v.empty()) v.push_back(&s); return v; }

Result once(const Job &j, void *obj, int how) {
	Place p; p.put(j.q, how);
	int64_t ret = j.s->call(obj, p.p.data(), j.q.par.data());
	Result r = collect(j.q, ret, p.p.data());
	p.free();
	return r;
}
// what each job gives on its own: new process, new objects, nothing ran before
void alone(std::vector<Job *> js) {
	for (Job *j : js) {
		size_t n = 0; for (auto &a : j->q.args) if (a.role != IN) n += a.n;
		uint8_t *out = (uint8_t *)shared_pages(n + 16); // result, edges, outputs
		// everything drawn happens here, so that the process may go its own way
		Place p; p.put(j->q, 0);
		FieldUse *f = nullptr; Mem fm, om = alloc(j->s->cls.size, std::max<size_t>(64, j->s->cls.align), 0, "object");
		if (j->s->field) { f = new FieldUse; fm = alloc(j->s->field->size, 64, 0, "field tables"); }
		in_child([&] {
			Lib l;
			if (f) j->s->field->make(fm.p);
			j->s->cls.make(om.p);
			uint64_t e = edges(); int64_t ret = j->s->call(om.p, p.p.data(), j->q.par.data()); e = edges() - e;
			Result r = collect(j->q, ret, p.p.data());
			memcpy(out, &r.ret, 8); memcpy(out + 8, &e, 8); memcpy(out + 16, r.out.data(), r.out.size());
		});
		j->want.have = true; memcpy(&j->want.r.ret, out, 8); memcpy(&j->edges, out + 8, 8); j->want.r.out.assign(out + 16, out + 16 + n);
		if (f) release(fm); delete f;
		release(om); p.free();
		count("results computed in processes of their own");
	}
}
void judge(Job &j, const Result &r, const char *when) {
	++j.served; count("results compared");
	shape(digest(j.s->name.data(), j.s->name.size()) ^ uint64_t(j.served));
	if (!j.want.have) { j.want.have = true; j.want.r = r; return; }
	if (!(r == j.want.r)) violate("differs", "%s (%s) %s: %s", j.s->name.c_str(), j.q.what.c_str(), when, difference(j.q, r, j.want.r).c_str());
}
}

WORLD(C15) {
	auto &all = some_build();
	struct Server { std::vector<const Service *> ops; std::vector<Job> jobs; FieldUse field; std::unique_ptr<Obj> obj; };
	std::vector<Server> sv(size_t(range(1, 3)));
	std::vector<Job *> mine;
	for (auto &s : sv) {
		Span sp;
		s.ops = siblings(all, all[pick_service(all)]);
		int n = range(2, 6); s.jobs.reserve(n);
		for (int i = 0; i < n; ++i) s.jobs.push_back(new_job(*s.ops[draw(uint32_t(s.ops.size()))]));
		for (auto &j : s.jobs) if (mine.size() < 4 && chance(1, 3)) mine.push_back(&j);
	}
	alone(mine);
	auto open = [&](Server &s) { if (s.jobs[0].s->field) s.field = FieldUse(s.jobs[0].s->field); s.obj.reset(new Obj(s.jobs[0].s->cls)); };
	for (auto &s : sv) open(s);
	auto serve = [&](Server &s, Job &j, const char *when) {
		uint64_t e = edges();
		Result r = once(j, (*s.obj)(), 1);
		if (!j.edges) j.edges = edges() - e;
		judge(j, r, when);
	};
	int steps = range(3, 24);
	for (int i = 0; i < steps; ++i) after(range(1, 1000), [&] {
		Span sp;
		Server &s = sv[draw(uint32_t(sv.size()))]; Job &j = s.jobs[draw(uint32_t(s.jobs.size()))];
		switch (weighted({ 8, 5, 2, 2, 1, 1 })) {
		case 0: log("%s: request %ld", j.s->name.c_str(), long(&j - s.jobs.data())); serve(s, j, "after other requests"); break;
		case 1: { // gives up in the middle
			uint64_t limit = 1 + draw(uint32_t(std::min<uint64_t>(j.edges ? j.edges : 3000, 1u << 30)));
			Place p; p.put(j.q, 1); int64_t ret = 0; void *o = (*s.obj)();
			bool gone = run_abortable([&] { ret = j.s->call(o, p.p.data(), j.q.par.data()); }, limit);
			if (gone) { fault("abandoned_call"); log("%s: request %ld abandoned after %llu edges", j.s->name.c_str(), long(&j - s.jobs.data()), (unsigned long long)limit); if (chance(1, 2)) { shape(limit); Job &k = s.jobs[draw(uint32_t(s.jobs.size()))]; serve(s, k, "after an abandoned request"); } }
			else judge(j, collect(j.q, ret, p.p.data()), "on a stack of its own");
			p.free();
			break; }
		case 2: fault("crash_restart"); log("%s: object lost", j.s->name.c_str()); s.obj->crash(); break;
		case 3: fault("orderly_restart"); s.obj->restart(); break;
		case 4: { // another object of the class joins and leaves
			fault("second_object"); Obj o(s.jobs[0].s->cls, "second object"); Result r = once(j, o(), 1); judge(j, r, "on a second object"); serve(s, s.jobs[draw(uint32_t(s.jobs.size()))], "beside a second object"); o.free(); break; }
		case 5: // the whole node: objects vanish, tables are rebuilt in other memory
			fault("node_crash"); log("node crash");
			for (auto &t : sv) { Mem m = t.obj->m; t.obj.reset(); release(m); }
			for (auto &t : sv) t.field.free();
			{ Mem junk = alloc(64 * draw(200), 64); for (auto &t : sv) open(t); (void)junk; }
			break;
		}
	});
	run_events(1000);
	for (auto &s : sv) for (auto &j : s.jobs) if (j.served < 2 && j.want.have && chance(1, 2)) serve(s, j, "at the end of the history");
	for (auto &s : sv) { // the same requests on objects without a history
		Job &j = s.jobs[draw(uint32_t(s.jobs.size()))]; if (!j.want.have) continue;
		Obj o(s.jobs[0].s->cls, "fresh object"); judge(j, once(j, o(), 0), "on a fresh object"); o.free();
	}
	sample("%s: %d steps over %zu servers, edges %llu", sv[0].jobs[0].s->name.c_str(), steps, sv.size(), (unsigned long long)edges());
}

WORLD(C16) {
	auto &all = some_build();
	int nt = weighted({ 5, 3, 2 }) + 2;
	struct Worker { std::vector<Job *> jobs; std::vector<const std::vector<uint8_t *> *> shared; int next = 0, runs = 0; std::vector<std::unique_ptr<Obj>> objs; std::string name; };
	std::vector<std::unique_ptr<Job>> jobs; std::vector<std::unique_ptr<Worker>> ws;
	std::vector<FieldUse> fields;
	std::vector<const Service *> kinds;
	bool rush = chance(1, 3); // everybody wants the same thing
	for (int i = 0; i < nt; ++i) {
		Span sp; ws.emplace_back(new Worker); Worker &w = *ws.back(); w.name = "thread " + std::to_string(i);
		int n = range(1, 3);
		// mostly the same operations, or those of the same kind, as another thread
		for (int k = 0; k < n; ++k) {
			int how = jobs.empty() ? 2 : rush ? int(coin()) : weighted({ 4, 4, 2 });
			if (how == 0) { w.jobs.push_back(jobs[draw(uint32_t(jobs.size()))].get()); continue; } // the very same request, inputs shared
			const Service *s;
			if (how == 1) { auto sib = siblings(all, *jobs[draw(uint32_t(jobs.size()))]->s); s = sib[draw(uint32_t(sib.size()))]; }
			else s = &all[pick_service(all)];
			jobs.emplace_back(new Job(new_job(*s))); w.jobs.push_back(jobs.back().get());
		}
	}
	std::vector<Job *> js; for (auto &j : jobs) js.push_back(j.get());
	alone(js);
	fields.reserve(64);
	for (auto &j : jobs) if (j->s->field) { FieldUse f(j->s->field); fields.push_back(f); }
	// read-only inputs exist once
	std::map<Job *, std::vector<uint8_t *>> inputs;
	for (auto &j : jobs) { auto &v = inputs[j.get()]; for (auto &a : j->q.args) v.push_back(a.role == IN ? put_one(a, 1).p : nullptr); }
	bool early = coin(); // objects exist before the threads, or come and go with them
	if (early) for (auto &w : ws) for (Job *j : w->jobs) w->objs.emplace_back(new Obj(j->s->cls));
	int kills = weighted({ 3, 2, 1 });
	std::function<void(Worker *)> start;
	std::map<Task *, Worker *> of;
	start = [&](Worker *w) {
		++w->runs;
		Task *t = spawn(w->name.c_str(), [w, early, &inputs] {
			while (w->next < int(w->jobs.size())) {
				Job &j = *w->jobs[w->next];
				std::unique_ptr<Obj> own; Obj *o;
				if (early) o = w->objs[w->next].get(); else { own.reset(new Obj(j.s->cls)); o = own.get(); }
				Place p; p.put(j.q, 1, &inputs[&j]);
				int64_t ret = j.s->call((*o)(), p.p.data(), j.q.par.data());
				judge(j, collect(j.q, ret, p.p.data()), w->runs > 1 ? "in a thread that was killed before" : "beside other threads");
				log("%s: %s done", w->name.c_str(), j.s->name.c_str());
				++w->next;
			}
		});
		of[t] = w;
		if (kills > 0 && coin()) { --kills; uint64_t e = 0; for (size_t k = w->next; k < w->jobs.size(); ++k) e += w->jobs[k]->edges; kill_task_at(t, 1 + draw(uint32_t(std::min<uint64_t>(e + e / 8 + 1, 1u << 31)))); }
	};
	on_killed([&](Task *t) { Worker *w = of[t]; log("%s killed", w->name.c_str()); if (coin()) return; if (early && w->next < int(w->jobs.size()) && coin()) w->objs[w->next]->crash(); start(w); });
	for (auto &w : ws) start(w.get());
	uint32_t mean = pick(std::vector<uint32_t>{ 3, 20, 200, 2000, 20000 });
	run_tasks(mean);
	nontrivial();
	// whoever was killed and did not come back left nothing behind
	for (auto &w : ws) for (Job *j : w->jobs) if (chance(1, 4)) { Obj o(j->s->cls, "fresh object"); judge(*j, once(*j, o(), 0), "after the threads ended"); o.free(); }
	sample("%d threads, %zu requests such as %s, slice about %u edges", nt, jobs.size(), jobs[0]->s->name.c_str(), mean);
}

namespace {
void define(const VecMachine &k, void *r, int op, int d, int a, int b, int c, int imm) {
	std::string t = k.type; int w = k.lanes;
	if (t == "int8_t") VecRef<int8_t>::step(r, w, op, d, a, b, c, imm);
	else if (t == "int16_t") VecRef<int16_t>::step(r, w, op, d, a, b, c, imm);
	else if (t == "int32_t") VecRef<int32_t>::step(r, w, op, d, a, b, c, imm);
	else if (t == "int64_t") VecRef<int64_t>::step(r, w, op, d, a, b, c, imm);
	else if (t == "float") VecRef<float>::step(r, w, op, d, a, b, c, imm);
	else VecRef<double>::step(r, w, op, d, a, b, c, imm);
}
// replicas of a register machine, fed from one log
void replicas() {
	auto bs = backends(); size_t which = draw(uint32_t(bs[0]->vec.size()));
	const VecMachine &k = bs[0]->vec[which];
	struct Op { int op, d, a, b, c, imm; };
	struct Node { const VecMachine *m; std::string isa; Mem regs; int applied = 0; Bytes snap; int snap_at = 0; };
	int n = range(4, 80); std::vector<Op> lg;
	Bytes start(k.size); { Rng r = rng(); Request q; for (auto &s : services(bs[0]->isa)) if (s.name.find(std::string(k.type) + " x " + std::to_string(k.lanes) + " ") == 0) { s.make(q, r); start = q.args[0].init; break; } }
	for (int i = 0; i < n; ++i) lg.push_back({ int(draw(uint32_t(k.nops))), int(draw(4)), int(draw(4)), int(draw(4)), int(draw(4)), int(draw(256)) - 128 });
	std::map<int, uint64_t> want; std::map<int, std::string> who; std::map<int, Bytes> state;
	int order = int(draw(uint32_t(bs.size())));
	std::vector<Node> nodes;
	for (size_t i = 0; i < bs.size(); ++i) { auto *b = bs[(i + order) % bs.size()]; Node x; x.m = &b->vec[which]; x.isa = b->isa; x.regs = alloc(k.size, 64, 0, "registers"); x.snap = start; memcpy(x.regs.p, start.data(), k.size); nodes.push_back(x); }
	{ Node x; x.m = &k; x.isa = "definition"; x.regs = alloc(k.size, 64, 0, "registers"); x.snap = start; memcpy(x.regs.p, start.data(), k.size); nodes.push_back(x); }
	auto apply = [&](Node &x) {
		Op o = lg[x.applied]; if (x.isa == "definition") define(k, x.regs.p, o.op, o.d, o.a, o.b, o.c, o.imm); else x.m->step(x.regs.p, o.op, o.d, o.a, o.b, o.c, o.imm); ++x.applied; count("vector operations");
		uint64_t h = digest(x.regs.p, k.size);
		if (!want.count(x.applied)) { want[x.applied] = h; who[x.applied] = x.isa; state[x.applied] = Bytes(x.regs.p, x.regs.p + k.size); }
		else if (want[x.applied] != h) { size_t at = 0; while (state[x.applied][at] == x.regs.p[at]) ++at; violate("diverged", "%s x %d after %s: byte %zu of the registers is %02x on %s and %02x on %s", k.type, k.lanes, k.op_name(o.op), at, x.regs.p[at], x.isa.c_str(), state[x.applied][at], who[x.applied].c_str()); }
		shape(uint64_t(o.op) * 64 + o.d);
	};
	for (int e = range(6, 40); e > 0; --e) after(range(1, 1000), [&] {
		Span sp; Node &x = nodes[draw(uint32_t(nodes.size()))];
		switch (weighted({ 10, 2, 2, 1 })) {
		case 0: for (int i = range(1, 12); i > 0 && x.applied < n; --i) apply(x); break;
		case 1: x.snap.assign(x.regs.p, x.regs.p + k.size); x.snap_at = x.applied; log("%s: snapshot at %d", x.isa.c_str(), x.applied); break;
		case 2: fault("crash_replay"); log("%s: crash at %d, back to %d", x.isa.c_str(), x.applied, x.snap_at); garbage(x.regs.p, k.size); memcpy(x.regs.p, x.snap.data(), k.size); x.applied = x.snap_at; break;
		case 3: { Node &y = nodes[draw(uint32_t(nodes.size()))]; fault("state_transfer"); memmove(x.regs.p, y.regs.p, k.size); x.applied = y.applied; break; }
		}
	});
	run_events(1000);
	for (auto &x : nodes) while (x.applied < n) apply(x);
	nontrivial();
	sample("replicas of %s x %d, %d operations", k.type, k.lanes, n);
}
void request_nodes() {
	auto bs = backends();
	struct Node { const std::vector<Service> *all; std::map<int, std::unique_ptr<Obj>> objs; std::string isa; };
	std::vector<Node> nodes(bs.size()); int order = int(draw(uint32_t(bs.size())));
	for (size_t i = 0; i < bs.size(); ++i) { nodes[i].isa = bs[(i + order) % bs.size()]->isa; nodes[i].all = &services(nodes[i].isa); }
	auto &lead = *nodes[0].all;
	struct Req { int svc; Request q; std::map<int, Result> full; bool canon_have = false; Result canon; std::string by, canon_by; int done = 0; };
	std::vector<Req> rs; int n = range(2, 8);
	std::vector<int> svc;
	for (int i = 0; i < n; ++i) {
		Span sp; Req r; r.svc = !svc.empty() && coin() ? svc[draw(uint32_t(svc.size()))] : pick_service(lead); svc.push_back(r.svc);
		Rng g = rng(); lead[r.svc].make(r.q, g); rs.push_back(r);
	}
	std::map<Field *, FieldUse> fields;
	auto perform = [&](Node &x, Req &r, const char *when) {
		auto &s = (*x.all)[r.svc];
		if (s.field && !fields.count(s.field)) fields[s.field] = FieldUse(s.field);
		auto &o = x.objs[r.svc]; if (!o) o.reset(new Obj(s.cls));
		Job j; j.s = &s; j.q = r.q; Result res = once(j, (*o)(), 1);
		count("results compared"); ++r.done; shape(digest(s.name.data(), s.name.size()) + r.done);
		auto bad = [&](const Result &a, const Result &b, const char *other) { violate("disagree", "%s (%s) %s disagrees with %s: %s", s.name.c_str(), r.q.what.c_str(), when, other, difference(r.q, a, b).c_str()); };
		auto it = r.full.find(s.group);
		if (it == r.full.end()) r.full[s.group] = res;
		else if (!(it->second == res)) bad(res, it->second, "another build");
		if (s.canon) res = s.canon(r.q, res);
		if (!r.canon_have) { r.canon_have = true; r.canon = res; r.canon_by = x.isa; }
		else if (!(r.canon == res)) bad(res, r.canon, r.canon_by.c_str());
	};
	int pending = 0;
	for (auto &x : nodes) for (auto &r : rs) {
		Span sp; int copies = 1 + (chance(1, 6) ? 1 : 0); if (copies > 1) fault("duplicate_request");
		for (int c = 0; c < copies; ++c, ++pending) after(range(1, 2000), [&] { perform(x, r, "in the course of requests"); });
	}
	for (int i = range(0, 4); i > 0; --i) after(range(1, 2000), [&] {
		Span sp; Node &x = nodes[draw(uint32_t(nodes.size()))]; fault("node_restart"); log("%s restarts", x.isa.c_str());
		for (auto &o : x.objs) { if (coin()) o.second->crash(); else o.second->restart(); }
	});
	run_events(1000);
	nontrivial();
	sample("%d requests such as %s on %zu builds", n, lead[rs[0].svc].name.c_str(), nodes.size());
}
}
WORLD(C17) { if (chance(1, 3)) replicas(); else request_nodes(); }

WORLD(C18) {
	auto &all = some_build();
	struct Server { std::vector<const Service *> ops; FieldUse field; std::unique_ptr<Obj> obj, bystander; };
	std::vector<Server> sv(size_t(range(1, 2)));
	auto check = [&](const Job &j, const char *what) { std::string w; if (bad_guard(&w)) violate("guard", "%s (%s), %s: %s", j.s->name.c_str(), j.q.what.c_str(), what, w.c_str()); };
	for (auto &s : sv) {
		Span sp;
		s.ops = siblings(all, all[pick_service(all)]);
		if (s.ops[0]->field) s.field = FieldUse(s.ops[0]->field);
		const Class &c = s.ops[0]->cls;
		s.obj.reset(new Obj); s.obj->c = c; s.obj->m = coin() ? alloc_edge(c.size, std::max<size_t>(c.align, 1), coin(), "object") : alloc(c.size, std::max<size_t>(c.align, 64), 0, "object"); s.obj->start();
		s.bystander.reset(new Obj(c, "bystander"));
		Job none; none.s = s.ops[0]; check(none, "construction");
	}
	int steps = range(2, 10);
	for (int i = 0; i < steps; ++i) after(range(1, 1000), [&] {
		Span sp; Server &s = sv[draw(uint32_t(sv.size()))];
		if (chance(1, 10)) { fault("restart"); Job none; none.s = s.ops[0]; if (coin()) s.obj->crash(); else s.obj->restart(); check(none, "restart"); return; }
		Job j = new_job(*s.ops[draw(uint32_t(s.ops.size()))]);
		Place p; p.put(j.q, 2);
		std::vector<Bytes> before; for (size_t k = 0; k < p.p.size(); ++k) before.push_back(Bytes(p.p[k], p.p[k] + j.q.args[k].n));
		auto others = [&] { uint64_t h = 0; for (auto &t : sv) { h ^= digest(t.bystander->m.p, t.bystander->m.n, h + 1); if (&t != &s) h ^= digest(t.obj->m.p, t.obj->m.n, h + 2); if (t.field.f) h ^= digest(t.field.f->at, t.field.f->size, h + 3); } return h; };
		uint64_t h = others();
		bool cut = instrumented() && chance(1, 6); int64_t ret = 0; void *o = (*s.obj)();
		if (cut) { if (run_abortable([&] { ret = j.s->call(o, p.p.data(), j.q.par.data()); }, 1 + draw(2000))) fault("abandoned_call"); }
		else ret = j.s->call(o, p.p.data(), j.q.par.data());
		check(j, "one call");
		if (others() != h) violate("bystander", "%s (%s) changed another object or the field tables", j.s->name.c_str(), j.q.what.c_str());
		for (size_t k = 0; k < p.p.size(); ++k) for (size_t b = 0; b < j.q.args[k].n; ++b) { uint8_t may; j.q.args[k].writable(b, &may); if ((p.p[k][b] ^ before[k][b]) & ~may) violate("outside", "%s (%s) changed %s: byte %zu from %02x to %02x, writable bits %02x", j.s->name.c_str(), j.q.what.c_str(), j.q.args[k].name, b, before[k][b], p.p[k][b], may); }
		count("calls checked"); shape(digest(j.s->name.data(), j.s->name.size()) + digest(j.q.what.data(), j.q.what.size()));
		for (auto &a : j.q.args) if (!a.n) probe("zero_length_buffer");
		log("%s %s", j.s->name.c_str(), j.q.what.c_str()); nontrivial();
		p.free();
	});
	run_events(1000);
	for (auto &s : sv) { Job none; none.s = s.ops[0]; s.obj->end(); s.bystander->end(); check(none, "destruction"); }
	sample("%s and %d calls", sv[0].ops[0]->name.c_str(), steps);
}
}
