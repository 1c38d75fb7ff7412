// Runs a script of calls on thunder_ns::Robot and writes one record per call.
// engine_driver SCRIPT OUT
#include "common.hpp"
#include "robot.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include "userDefined.h"
#include "genYaml.h"
#include "utils.h"
#include "expr.hpp"

using namespace drv;
using thunder_ns::Robot;
typedef std::shared_ptr<Robot> R;

static std::map<std::string, R> robots;
static Robot& rb(Line& l) {
	std::string id = l.s();
	auto it = robots.find(id);
	if (it == robots.end() || !it->second) throw std::runtime_error("driver: no robot " + id);
	return *it->second;
}

static std::string info(Robot& r) {
	std::string s = "{\"nj\":" + std::to_string(r.get_numJoints()) + ",\"nej\":" + std::to_string(r.get_numElasticJoints());
	s += ",\"ELASTIC\":" + std::to_string((int)r.get_ELASTIC());
	s += ",\"K\":" + std::to_string(r.get_K_order()) + ",\"D\":" + std::to_string(r.get_D_order());
	s += ",\"Dl\":" + std::to_string(r.get_Dl_order()) + ",\"Dm\":" + std::to_string(r.get_Dm_order());
	s += ",\"npD\":" + std::to_string(r.get_numParDYN()) + ",\"npR\":" + std::to_string(r.get_numParREG());
	s += ",\"isel\":" + jn(r.get_isElasticJoint()) + ",\"types\":" + jl(r.get_jointsType()) + ",\"name\":\"" + esc(r.robotName) + "\"";
	s += ",\"funs\":[";
	bool first = true;
	for (auto& f : r.get_functions()) {
		s += (first ? "" : ",");
		first = false;
		s += "[\"" + esc(f.name) + "\"," + jl(f.args) + "," + jn(f.out_size) + ",\"" + esc(f.description) + "\"]";
	}
	s += "],\"model\":{";
	first = true;
	for (auto& m : r.model) {
		s += std::string(first ? "" : ",") + "\"" + esc(m.first) + "\":[" + std::to_string(m.second.size1()) + "," + std::to_string(m.second.size2()) + "]";
		first = false;
	}
	s += "},\"symb\":{";
	first = true;
	for (auto& m : r.symb) {
		s += std::string(first ? "" : ",") + "\"" + esc(m.first) + "\":" + jn(m.second);
		first = false;
	}
	return s + "}}";
}

static int step(Robot& r, Line& l) {
	std::string w = l.s();
	if (w == "init") return r.init_symb_parameters();
	if (w == "kin") return compute_kinematics(r, l.i());
	if (w == "dyn") return compute_dynamics(r, l.i());
	if (w == "reg") return thunder_ns::compute_regressors(r);
	if (w == "user") return thunder_ns::compute_userDefined(r);
	if (w == "example") return thunder_ns::compute_example_fun(r);
	if (w == "fin") return r.update_symb_parameters();
#ifdef FINE_STEPS
	if (w == "chain") return thunder_ns::compute_chain(r);
	if (w == "jac") return thunder_ns::compute_jacobians(r);
	if (w == "kinadv") return thunder_ns::compute_kin_adv(r);
	if (w == "mcg") return thunder_ns::compute_MCG(r);
	if (w == "friction") return thunder_ns::compute_Dl(r);
	if (w == "elastic") return thunder_ns::compute_elastic(r);
	if (w == "dynder") return thunder_ns::compute_dyn_derivatives(r);
	if (w == "Yr") return thunder_ns::compute_Yr(r);
	if (w == "regDl") return thunder_ns::compute_reg_Dl(r);
	if (w == "regela") return thunder_ns::compute_reg_elastic(r);
	if (w == "regJ") return thunder_ns::compute_reg_J(r);
#endif
	throw std::logic_error("script: unknown step " + w);
}

static void run(Line& l) {
	std::string op = l.s();
	if (op == "new") {
		std::string id = l.s(), name = l.s(), path = l.s();
		robots[id] = nullptr;
		robots[id] = R(new Robot(thunder_ns::robot_from_file(name, path, l.more() ? l.i() : 1)));
		rec_ok(1);
	} else if (op == "mem") {
		rec_mem();
	} else if (op == "newp") {
		std::string id = l.s(), path = l.s();
		robots[id] = nullptr;
		robots[id] = R(new Robot(path));
		rec_ok(1);
	} else if (op == "newyaml") {
		std::string id = l.s(), path = l.s();
		robots[id] = nullptr;
		YAML::Node y = YAML::LoadFile(path);
		robots[id] = R(new Robot(y));
		rec_ok(1);
	} else if (op == "del") {
		robots[l.s()] = nullptr;
		rec_ok(1);
	} else if (op == "copy") {
		std::string id = l.s();
		Robot& r = rb(l);
		robots[id] = R(new Robot(r));
		rec_ok(1);
	} else if (op == "assign") {
		Robot& a = rb(l);
		Robot& b = rb(l);
		a = b;
		rec_ok(1);
	} else if (op == "step") { Robot& r = rb(l); rec_ok(step(r, l)); }
	else if (op == "set") { Robot& r = rb(l); std::string a = l.s(); rec_ok(r.set_arg(a, l.vec())); }
	else if (op == "setn") {
		Robot& r = rb(l);
		std::string a = l.s();
		Eigen::VectorXd v = l.vec();
		int k = -1;
		if (a == "q") k = r.set_q(v);
		else if (a == "dq") k = r.set_dq(v);
		else if (a == "dqr") k = r.set_dqr(v);
		else if (a == "ddqr") k = r.set_ddqr(v);
		else if (a == "x") k = r.set_x(v);
		else if (a == "dx") k = r.set_dx(v);
		else if (a == "ddx") k = r.set_ddx(v);
		else if (a == "ddxr") k = r.set_ddxr(v);
		else if (a == "par_DYN") k = r.set_par_DYN(v);
		else if (a == "par_REG") k = r.set_par_REG(v);
		else throw std::logic_error("script: unknown setter " + a);
		rec_ok(k);
	} else if (op == "get") { Robot& r = rb(l); rec_val(r.get(l.s())); }
	else if (op == "arg") { Robot& r = rb(l); rec_val(r.get_arg(l.s())); }
	else if (op == "getdyn") rec_val(rb(l).get_par_DYN());
	else if (op == "getreg") rec_val(rb(l).get_par_REG());
	else if (op == "info") rec_json(info(rb(l)));
	else if (op == "saveconf") { Robot& r = rb(l); rec_ok(r.save_conf(l.s())); }
	else if (op == "savereg") { Robot& r = rb(l); rec_ok(r.save_par_REG(l.s())); }
	else if (op == "savepar") { Robot& r = rb(l); std::string p = l.s(); rec_ok(l.more() ? r.save_par(p, l.list()) : r.save_par(p)); }
	else if (op == "loadpar") { Robot& r = rb(l); std::string p = l.s(); rec_ok(l.more() ? r.load_par(p, l.list()) : r.load_par(p)); }
	else if (op == "loadreg") { Robot& r = rb(l); std::string p = l.s(); casadi::SX x = l.more() ? r.load_par_REG(p, l.i()) : r.load_par_REG(p);
		Eigen::VectorXd v(x.size1()); for (int i = 0; i < (int)x.size1(); i++) v(i) = (double)x(i); rec_val(v); }
	else if (op == "loadconf") { Robot& r = rb(l); std::string p = l.s(); rec_ok(l.more() ? r.load_conf_par(p, l.i()) : r.load_conf_par(p)); }
	else if (op == "updDYN") rec_ok(rb(l).update_inertial_DYN());
	else if (op == "updREG") rec_ok(rb(l).update_inertial_REG());
	else if (op == "gen") { Robot& r = rb(l); std::string d = l.s(), n = l.s(); r.generate_library(d, n, l.i()); rec_ok(1); }
	else if (op == "obtain") { Robot& r = rb(l); auto a = l.list(); auto b = l.list(); rec_json(jl(r.obtain_symb_parameters(a, b))); }
	else if (op == "addfun") {
		Robot& r = rb(l);
		std::string name = l.s();
		bool over = l.i();
		std::string descr = l.s();
		auto args = l.list();
		casadi::SX e = expr(r, l);
		rec_ok(r.add_function(name, e, args, descr, over));
	} else if (op == "cas") {		// evaluate a saved function file
		casadi::Function f = casadi::Function::load(l.s());
		long n = l.i();
		std::vector<casadi::DM> in;
		for (long k = 0; k < n; k++) in.push_back(casadi::DM(l.svec()));
		auto o = f(in);
		casadi::DM m = casadi::DM::densify(o.at(0));
		Eigen::MatrixXd v(m.size1(), m.size2());
		for (int i = 0; i < v.rows(); i++) for (int j = 0; j < v.cols(); j++) v(i, j) = (double)m(i, j);
		rec_val(v);
	} else if (op == "fobj") {		// evaluate the function object that the model hands out
		Robot& r = rb(l);
		std::string name = l.s();
		for (auto& f : r.get_functions(false)) if (f.name == name) {
			std::vector<casadi::DM> in;
			for (auto& a : f.args) { Eigen::VectorXd x = r.get_arg(a); in.push_back(casadi::DM(std::vector<double>(x.data(), x.data() + x.size()))); }
			casadi::DM m = casadi::DM::densify(f.fun(in).at(0));
			if (m.size1() != f.expr.size1() || m.size2() != f.expr.size2()) throw std::runtime_error("expression of another size");
			Eigen::MatrixXd v(m.size1(), m.size2());
			for (int i = 0; i < v.rows(); i++) for (int j = 0; j < v.cols(); j++) v(i, j) = (double)m(i, j);
			rec_val(v);
			return;
		}
		throw std::runtime_error("no function " + name);
	} else if (op == "inertial") {		// genInertial_files name nj conf dyn reg
		std::string a = l.s(); long n = l.i(); std::string b = l.s(), c = l.s(), d = l.s();
		rec_ok(thunder_ns::genInertial_files(a, n, b, c, d));
	} else throw std::logic_error("script: unknown op " + op);
}

int main(int argc, char** argv) {
	std::ifstream in(argv[1]);
	out = fopen(argv[2], "w");
	if (!in || !out) return 99;
	Line l;
	while (read_line(in, l)) {
		if (l.t.empty()) continue;
		try { run(l); }
		catch (const std::logic_error& e) { std::string w = e.what(); if (w.compare(0, 7, "script:") == 0) { fprintf(out, "BAD %s\n", w.c_str()); fflush(out); return 98; } rec_exc(w); }
		catch (const std::exception& e) { rec_exc(e.what()); }
		fflush(out);
	}
	fprintf(out, "END\n");
	fclose(out);
	return 0;
}
