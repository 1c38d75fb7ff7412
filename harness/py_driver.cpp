// Runs a script through the recorded python bindings.  py_driver SCRIPT OUT
#include "common.hpp"
#include "stub/pybind11/pybind11.h"
using namespace drv;
namespace py = pybind11;
struct Obj { const py::Cls* c; std::shared_ptr<void> p; };
static std::map<std::string, Obj> objs;
int main(int argc, char** argv) {
	std::ifstream in(argv[1]);
	out = fopen(argv[2], "w");
	if (!in || !out) return 99;
	Line l;
	while (read_line(in, l)) {
		if (l.t.empty()) continue;
		try {
			std::string op = l.s();
			if (op == "modules") {
				std::string s = "[";
				for (auto& m : py::modules()) {
					s += (s.size() > 1 ? "," : "") + std::string("[\"") + m.name + "\",[";
					bool f = true;
					for (auto& c : m.classes) {
						std::vector<std::string> n;
						for (auto& d : c.defs) n.push_back(d.name);
						s += (f ? "" : ",") + std::string("[\"") + c.name + "\"," + (c.make ? "1," : "0,") + jl(n) + "]";
						f = false;
					}
					s += "]]";
				}
				rec_json(s + "]");
			} else if (op == "new") {		// new id module class
				std::string id = l.s(), m = l.s(), c = l.s();
				objs.erase(id);
				for (auto& x : py::modules()) if (x.name == m) for (auto& y : x.classes) if (y.name == c && y.make) objs[id] = Obj{&y, y.make()};
				rec_ok(objs.count(id));
			} else if (op == "call") {		// call id method nvec vec... str flag
				std::string id = l.s(), f = l.s();
				py::Args a;
				long n = l.i();
				for (long k = 0; k < n; k++) a.vec.push_back(l.vec());
				a.str = l.s();
				a.flag = l.i();
				if (!objs.count(id)) throw std::runtime_error("no object");
				const py::Def* d = nullptr;
				for (auto& x : objs[id].c->defs) if (x.name == f) d = &x;
				if (!d) throw std::runtime_error("not bound: " + f);
				rec_val(d->call(objs[id].p.get(), a));
			} else throw std::logic_error("script: unknown op " + op);
		}
		catch (const std::logic_error& e) { std::string w = e.what(); if (w.compare(0, 7, "script:") == 0) { fprintf(out, "BAD %s\n", w.c_str()); fflush(out); return 98; } rec_exc(w); }
		catch (const std::exception& e) { rec_exc(e.what()); }
		fflush(out);
	}
	fprintf(out, "END\n");
	fclose(out);
	return 0;
}
