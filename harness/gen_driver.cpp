// Runs a script on generated classes.  gen_driver SCRIPT OUT
#include "gen_iface.hpp"
#include <thread>
using namespace drv;
std::map<std::string, Factory>& factories() { static std::map<std::string, Factory> f; return f; }
static std::map<std::string, std::shared_ptr<Any>> objs;
static Any& ob(Line& l) {
	std::string id = l.s();
	auto it = objs.find(id);
	if (it == objs.end()) throw std::logic_error("script: no object " + id);
	return *it->second;
}
int main(int argc, char** argv) {
	std::ifstream in(argv[1]);
	out = fopen(argv[2], "w");
	if (!in || !out) return 99;
	Line l;
	while (read_line(in, l)) {
		if (l.t.empty()) continue;
		try {
			if (l.t[0] == "new") { l.s(); std::string id = l.s(), n = l.s(); if (!factories().count(n)) throw std::logic_error("script: no class " + n); objs[id] = factories()[n](); rec_ok(1); }
			else if (l.t[0] == "copy") { l.s(); std::string id = l.s(); objs[id] = ob(l).clone(); rec_ok(1); }
			else if (l.t[0] == "del") { l.s(); objs.erase(l.s()); rec_ok(1); }
			else if (l.t[0] == "mem") rec_mem();
			else if (l.t[0] == "thread") {		// the rest of the line in a thread of its own
				l.s();
				std::exception_ptr e;
				std::thread t([&] { try { ob(l).call(l); } catch (...) { e = std::current_exception(); } });
				t.join();
				if (e) std::rethrow_exception(e);
			}
			else { ob(l).call(l); }
		}
		catch (const std::logic_error& e) { std::string w = e.what(); if (w.compare(0, 7, "script:") == 0) { fprintf(out, "BAD %s\n", w.c_str()); fflush(out); return 98; } rec_exc(w); }
		catch (const std::exception& e) { rec_exc(e.what()); }
		fflush(out);
	}
	fprintf(out, "END\n");
	fclose(out);
	return 0;
}
