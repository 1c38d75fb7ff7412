// binds one generated class: -DCLS=thunder_X -DHDR="thunder_X.h" -DFUNS="X.inc" -DNAME="X"
#include "gen_iface.hpp"
#include HDR
using namespace drv;
namespace {
struct G : Any {
	CLS r;
	std::shared_ptr<Any> clone() const override { return std::shared_ptr<Any>(new G(*this)); }
	std::vector<std::string> names() const override {
		return {
#define F(f) #f,
#include FUNS
#undef F
		};
	}
	Eigen::MatrixXd get(const std::string& f) override {
		static const std::map<std::string, Eigen::MatrixXd (*)(CLS&)> tab = {
#define F(f) {#f, [](CLS& c) -> Eigen::MatrixXd { return c.get_##f(); }},
#include FUNS
#undef F
		};
		auto it = tab.find(f);
		if (it == tab.end()) throw std::logic_error("script: no getter " + f);
		return it->second(r);
	}
	void set(const std::string& w, const Eigen::VectorXd& v) override {
#define S(n) if (w == #n) { r.set_##n(v); return; }
		S(q) S(dq) S(ddq) S(d3q) S(d4q) S(dqr) S(ddqr) S(x) S(dx) S(ddx) S(ddxr) S(w)
		S(par_REG) S(par_DYN) S(par_K) S(par_D) S(par_Dm) S(par_Mm) S(par_Dl) S(par_DHtable) S(par_gravity) S(par_world2L0) S(par_Ln2EE)
#undef S
		throw std::logic_error("script: no setter " + w);
	}
	void load(const std::string& c) override { r.load_conf(c); }
	Eigen::MatrixXd par(const std::string& w) {
#define S(n) if (w == #n) return r.get_##n();
		S(par_REG) S(par_DYN) S(par_K) S(par_D) S(par_Dm) S(par_Mm) S(par_Dl) S(par_DHtable) S(par_gravity) S(par_world2L0) S(par_Ln2EE)
#undef S
		throw std::logic_error("script: no parameter " + w);
	}
	Eigen::MatrixXd act(const std::string& op, const std::string& arg, const Eigen::VectorXd& v) override {
		Eigen::MatrixXd none(0, 0);
		if (op == "par") return par(arg);
		if (op == "loadreg") return r.load_par_REG(arg);
		if (op == "savereg") r.save_par_REG(arg);
		else if (op == "savedyn") r.save_par_DYN(arg);
		else if (op == "savepar") r.save_par(arg);
		else if (op == "resize") r.resizeVariables();
		else if (op == "args") r.setArguments(v, v, v, v);
		else throw std::logic_error("script: unknown op " + op);
		return none;
	}
	void call(Line& l) override {
		std::string op = l.s();
		if (op == "get") rec_val(get(l.s()));
		else if (op == "set") { std::string w = l.s(); set(w, l.vec()); rec_ok(1); }
		else if (op == "setf") { std::string w = l.s(); auto v = l.vec(); bool u = l.i(); if (w == "par_DYN") r.set_par_DYN(v, u); else r.set_par_REG(v, u); rec_ok(1); }
		else if (op == "setDH") { r.set_par_DHtable(l.mat()); rec_ok(1); }
		else if (op == "setArguments") { auto a = l.vec(); auto b = l.vec(); auto c = l.vec(); auto d = l.vec(); r.setArguments(a, b, c, d); rec_ok(1); }
		else if (op == "par") rec_val(par(l.s()));
		else if (op == "loadconf") { std::string p = l.s(); if (l.more()) r.load_conf(p, l.i()); else r.load_conf(p); rec_ok(1); }
		else if (op == "loadreg") { std::string p = l.s(); Eigen::VectorXd v = l.more() ? r.load_par_REG(p, l.i()) : r.load_par_REG(p); rec_val(v); }
		else if (op == "savereg") { r.save_par_REG(l.s()); rec_ok(1); }
		else if (op == "savedyn") { r.save_par_DYN(l.s()); rec_ok(1); }
		else if (op == "savepar") rec_ok(r.save_par(l.s()));
		else if (op == "resize") { r.resizeVariables(); rec_ok(1); }
		else if (op == "info") {
			std::vector<int> e(r.isElasticJoint, r.isElasticJoint + sizeof(r.isElasticJoint) / sizeof(int));
			rec_json("{\"nj\":" + std::to_string(r.n_joints) + ",\"getnj\":" + std::to_string(r.get_numJoints()) +
				",\"ELASTIC\":" + std::to_string((int)r.ELASTIC) + ",\"nej\":" + std::to_string(r.numElasticJoints) + ",\"K\":" + std::to_string(r.K_order) +
				",\"D\":" + std::to_string(r.D_order) + ",\"Dl\":" + std::to_string(r.Dl_order) + ",\"Dm\":" + std::to_string(r.Dm_order) +
				",\"npD\":" + std::to_string(r.get_numParDYN()) + ",\"npR\":" + std::to_string(r.get_numParREG()) + ",\"npD2\":" + std::to_string(r.numParDYN) + ",\"npR2\":" + std::to_string(r.numParREG) +
				",\"isel\":" + jn(e) + "}");
		} else throw std::logic_error("script: unknown op " + op);
	}
};
Reg reg(NAME, []() { return std::shared_ptr<Any>(new G); });
}
