// Generated classes used by several threads.  thread_driver SCRIPT OUT
//   cls NAME CONF N NEJ        declares a class
//   run own|shared THREADS STEPS SEED DIR CLS...     classes are given to the threads in turn
// Every thread runs a program drawn from its seed; the results are compared bit by bit with the same program on one thread.
#include <atomic>
#include <random>
#include <set>
#include <sched.h>
#include <thread>
#include <unistd.h>
#include "gen_iface.hpp"
using namespace drv;
std::map<std::string, Factory>& factories() { static std::map<std::string, Factory> f; return f; }

struct Spec { std::string name, conf; int n, e; std::vector<std::string> funs; };
struct Entry { std::string what; Eigen::MatrixXd v; };
typedef std::vector<Entry> Log;
static const char* PARS[] = {"par_DYN", "par_REG", "par_Dl", "par_DHtable", "par_gravity", "par_world2L0", "par_Ln2EE", "par_K", "par_D", "par_Dm", "par_Mm"};
static const int MAXT = 64;
static std::atomic<int> current[MAXT];		// what each thread is doing, only to see what overlaps (relaxed: adds no ordering)

static Eigen::VectorXd rnd(std::mt19937_64& g, int n) {
	Eigen::VectorXd v(n);
	for (int i = 0; i < n; i++) v(i) = (double)(g() % 2000001) / 500000.0 - 2;
	return v;
}

struct Ctx { int id; bool threaded; std::set<std::pair<int, int>> overlaps; long calls = 0, overlapping = 0; };

static void seen(Ctx& c, int what, std::mt19937_64& jit) {
	if (!c.threaded) return;
	c.calls++;
	bool any = false;
	for (int t = 0; t < MAXT; t++) {
		int o = current[t].load(std::memory_order_relaxed);
		if (t != c.id && o) { c.overlaps.insert({what, o}); any = true; }
	}
	c.overlapping += any;
	current[c.id].store(what, std::memory_order_relaxed);
	unsigned k = jit() % 16;
	if (k == 0) sched_yield();
	else if (k < 4) for (volatile int i = 0; i < (int)(jit() % 400); i++) {}
}
static void idle(Ctx& c) { if (c.threaded) current[c.id].store(0, std::memory_order_relaxed); }

static Eigen::MatrixXd hash_of(const std::string& p) {
	std::ifstream in(p);
	std::stringstream t;
	t << in.rdbuf();
	Eigen::MatrixXd h(1, 1);
	h(0) = (double)(std::hash<std::string>()(t.str()) >> 12);
	return h;
}

static void own(const Spec& s, unsigned long seed, int steps, const std::string& dir, Log& log, Ctx& c) {
	std::mt19937_64 g(seed), jit(seed * 77 + c.id);
	std::shared_ptr<Any> o = factories()[s.name]();
	seen(c, 1, jit);
	o->load(s.conf);
	Eigen::VectorXd none(0);
	const char* ST[] = {"q", "dq", "ddq", "d3q", "d4q", "dqr", "ddqr", "w", "x", "dx", "ddx", "ddxr"};
	for (int k = 0; k < steps; k++) {
		unsigned op = g() % 100;
		if (op < 60) {
			int f = g() % s.funs.size();
			seen(c, 100 + f, jit);
			log.push_back({s.funs[f], o->get(s.funs[f])});
		} else if (op < 84) {
			int a = g() % (s.e ? 12 : 8);
			seen(c, 10 + a, jit);
			o->set(ST[a], rnd(g, a < 7 ? s.n : a == 7 ? 6 : s.e));
		} else if (op < 88) {
			const char* p = PARS[g() % 11];
			seen(c, 30, jit);
			Eigen::MatrixXd v = o->act("par", p, none);
			log.push_back({p, v});
			if (std::string(p) == "par_DYN") { for (int i = 0; i < (int)v.size(); i++) v(i) = v(i) * 1.25 + .01; }
			else v = rnd(g, v.size());
			if (std::string(p) == "par_REG") for (int i = 0; i < (int)v.size(); i += 10) v(i) = 1.5;
			o->set(p, Eigen::Map<Eigen::VectorXd>(v.data(), v.size()));
		} else if (op < 90) { seen(c, 31, jit); o->set("q", rnd(g, s.n + 1)); }
		else if (op < 92) { seen(c, 32, jit); o->load(s.conf); }
		else if (op < 93) { seen(c, 33, jit); o = o->clone(); }
		else if (op < 94) { seen(c, 34, jit); o->act("resize", "", none); o->load(s.conf); }
		else if (op < 96) { seen(c, 35, jit); o->act("args", "", rnd(g, s.n)); }
		else {
			const char* w[] = {"savereg", "savedyn", "savepar"};
			int a = g() % 3;
			std::string p = dir + "/t" + std::to_string(c.id) + (c.threaded ? "t" : "s") + "_" + w[a] + ".yaml";
			seen(c, 40 + a, jit);
			o->act(w[a], p, none);
			if (a == 0) { seen(c, 45, jit); log.push_back({"loadreg", o->act("loadreg", p, none)}); }
			log.push_back({w[a], hash_of(p)});
		}
		idle(c);
	}
}

static void shared(Any& o, const Spec& s, unsigned long seed, int steps, const std::string& dir, Log& log, Ctx& c) {
	std::mt19937_64 g(seed), jit(seed * 77 + c.id);
	Eigen::VectorXd none(0);
	for (int k = 0; k < steps; k++) {
		unsigned op = g() % 100;
		if (op < 80) {
			int f = g() % s.funs.size();
			seen(c, 100 + f, jit);
			log.push_back({s.funs[f], o.get(s.funs[f])});
		} else if (op < 93) {
			const char* p = PARS[g() % (g() % 2 ? 2 : 11)];
			seen(c, 30, jit);
			log.push_back({p, o.act("par", p, none)});
		} else if (op < 95) {
			const char* w[] = {"savereg", "savedyn", "savepar"};
			int a = g() % 3;
			std::string p = dir + "/s" + std::to_string(c.id) + (c.threaded ? "t" : "s") + "_" + w[a] + ".yaml";
			seen(c, 40 + a, jit);
			o.act(w[a], p, none);
			log.push_back({w[a], hash_of(p)});
		} else {
			seen(c, 33, jit);
			auto x = o.clone();
			int f = g() % s.funs.size();
			x->set("q", rnd(g, s.n));
			log.push_back({s.funs[f], x->get(s.funs[f])});
		}
		idle(c);
	}
}

static bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
	return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0);
}

int main(int argc, char** argv) {
	std::ifstream in(argv[1]);
	out = fopen(argv[2], "w");
	if (!in || !out) return 99;
	std::map<std::string, Spec> specs;
	Line l;
	while (read_line(in, l)) {
		if (l.t.empty()) continue;
		std::string op = l.s();
		if (op == "cls") {
			Spec s;
			s.name = l.s(); s.conf = l.s(); s.n = l.i(); s.e = l.i();
			s.funs = factories()[s.name]()->names();
			specs[s.name] = s;
			rec_ok(1);
			continue;
		}
		std::string mode = l.s();
		int T = l.i(), steps = l.i();
		unsigned long seed = l.i();
		std::string dir = l.s();
		std::vector<std::string> cl;
		while (l.more()) cl.push_back(l.s());
		std::vector<Log> logs(T), ref(T);
		std::vector<Ctx> ctx(T);
		std::map<std::string, std::shared_ptr<Any>> fixed;
		if (mode == "shared") for (auto& n : cl) {
			auto o = factories()[n]();
			o->load(specs[n].conf);
			std::mt19937_64 g(seed);
			for (const char* a : {"q", "dq", "ddq", "d3q", "dqr", "ddqr"}) o->set(a, rnd(g, specs[n].n));
			o->set("w", rnd(g, 6));
			for (const char* a : {"x", "dx", "ddx", "ddxr"}) o->set(a, rnd(g, specs[n].e));
			// some parameters are set too, in different order; what depends on them may be brought up to date by the first who reads it
			Eigen::VectorXd none(0);
			for (int k = g() % 3; k >= 0; k--) {
				const char* p = k == 0 ? PARS[g() % 2] : PARS[g() % 11];
				Eigen::MatrixXd v = o->act("par", p, none);
				for (int i = 0; i < (int)v.size(); i++) v(i) = v(i) * 1.25 + .01;
				o->set(p, Eigen::Map<Eigen::VectorXd>(v.data(), v.size()));
			}
			if (g() % 4 == 0) o = o->clone();
			fixed[n] = o;
		}
		std::atomic<int> ready{0};
		std::vector<std::string> err(T);
		auto body = [&](int t, bool threaded, Log& log, Ctx& c) {
			const Spec& s = specs[cl[t % cl.size()]];
			c.id = t; c.threaded = threaded;
			try {
				if (mode == "own") own(s, seed * 1000 + t, steps, dir, log, c);
				else shared(*fixed[s.name], s, seed * 1000 + t, steps, dir, log, c);
			} catch (const std::exception& e) { err[t] = e.what(); }
		};
		std::vector<std::thread> th;
		for (int t = 0; t < T; t++) th.emplace_back([&, t]() {
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < T) sched_yield();
			body(t, true, logs[t], ctx[t]);
		});
		for (auto& x : th) x.join();
		std::vector<Ctx> c1(T);
		for (int t = 0; t < T; t++) body(t, false, ref[t], c1[t]);
		long n = 0, bad = 0, calls = 0, over = 0;
		std::set<std::pair<int, int>> pairs;
		std::string first;
		for (int t = 0; t < T; t++) {
			calls += ctx[t].calls; over += ctx[t].overlapping;
			pairs.insert(ctx[t].overlaps.begin(), ctx[t].overlaps.end());
			if (!err[t].empty() && first.empty()) first = "exception " + err[t];
			if (logs[t].size() != ref[t].size()) { bad++; if (first.empty()) first = "different number of results"; }
			for (size_t k = 0; k < std::min(logs[t].size(), ref[t].size()); k++) {
				n++;
				if (!same(logs[t][k].v, ref[t][k].v)) {
					bad++;
					if (first.empty()) {
						double d = logs[t][k].v.size() == ref[t][k].v.size() && logs[t][k].v.size() ? (logs[t][k].v - ref[t][k].v).cwiseAbs().maxCoeff() : -1;
						first = "thread " + std::to_string(t) + " result " + std::to_string(k) + " of " + logs[t][k].what + " in " + cl[t % cl.size()] + " differs by " + std::to_string(d);
					}
				}
			}
		}
		rec_json("{\"n\":" + std::to_string(n) + ",\"bad\":" + std::to_string(bad) + ",\"calls\":" + std::to_string(calls) + ",\"overlapping\":" + std::to_string(over) +
			",\"pairs\":" + std::to_string(pairs.size()) + ",\"first\":\"" + esc(first) + "\"}");
		fflush(out);
	}
	fprintf(out, "END\n");
	fclose(out);
	return 0;
}
