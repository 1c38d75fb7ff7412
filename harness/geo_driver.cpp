// Calls the rotation and body helpers. -DURDF: those of the conversion program; -DCLS/-DHDR: those of a generated class; otherwise those of the library.
// geo_driver SCRIPT OUT
#include "common.hpp"
#include <functional>
#include <random>
#include <filesystem>
#ifdef URDF
#include "library/urdf2dh_inertial.h"
using namespace thunder_ns;
#elif defined(CLS)
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
#include HDR
#undef private
#undef protected
#else
#include "robot.h"
#include "kinematics.h"
#include "utils.h"
#include "FrameOffset.h"
using namespace thunder_ns;
#endif
using namespace drv;

#ifdef CLS
// helpers of the class, when it has them
template <class T> auto c_rpy(T& t, const std::vector<double>& v, int) -> decltype(Eigen::MatrixXd(t.rpyRot(v))) { return t.rpyRot(v); }
template <class T> Eigen::MatrixXd c_rpy(T&, const std::vector<double>&, long) { throw std::runtime_error("absent"); }
template <class T> auto c_inertia(T& t, const std::vector<double>& v, int) -> decltype(Eigen::MatrixXd(t.createI(v))) { return t.createI(v); }
template <class T> Eigen::MatrixXd c_inertia(T&, const std::vector<double>&, long) { throw std::runtime_error("absent"); }
template <class T> auto c_hat(T& t, const Eigen::Vector3d& v, int) -> decltype(Eigen::MatrixXd(t.hat(v))) { return t.hat(v); }
template <class T> Eigen::MatrixXd c_hat(T&, const Eigen::Vector3d&, long) { throw std::runtime_error("absent"); }
#else
static LinkProp body(Line& l) {
	LinkProp b;
	b.name = l.s();
	b.mass = l.d();
	b.parI = l.svec();
	b.xyz = l.svec();
	b.rpy = l.svec();
	return b;
}
static void rec_body(const LinkProp& b) {
	Eigen::VectorXd v(10);
	v(0) = b.mass;
	for (int i = 0; i < 3; i++) v(1 + i) = b.xyz.at(i);
	for (int i = 0; i < 6; i++) v(4 + i) = b.parI.at(i);
	rec_val(v);
}
#endif
#if !defined(URDF) && !defined(CLS)
static Eigen::MatrixXd num(const casadi::SX& e) {
	casadi::SX d = casadi::SX::densify(e);
	Eigen::MatrixXd m(d.size1(), d.size2());
	for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = (double)d(i, j).scalar();
	return m;
}
static casadi::SX sxv(const std::vector<double>& v) { casadi::SX e(v.size(), 1); for (size_t i = 0; i < v.size(); i++) e(i) = v[i]; return e; }
#endif

static void run(Line& l) {
	std::string op = l.s();
#ifdef CLS
	static CLS c;
	if (op == "rpy") rec_val(c_rpy(c, l.svec(), 0));
	else if (op == "inertia") rec_val(c_inertia(c, l.svec(), 0));
	else if (op == "hat") rec_val(c_hat(c, Eigen::Vector3d(l.vec()), 0));
#else
	if (op == "rpy") rec_val(rpyRot(l.svec()));
	else if (op == "inertia") rec_val(createI(l.svec()));
	else if (op == "hat") rec_val(hat(Eigen::Vector3d(l.vec())));
	else if (op == "move") {		// d rpy body
		auto d = l.svec(); auto r = l.svec();
		LinkProp o;
		transformBodyInertial(d, r, body(l), o);
		rec_body(o);
	} else if (op == "move2") {		// two moves in a row, with a new body for each
		auto d = l.svec(); auto r = l.svec(); auto d2 = l.svec(); auto r2 = l.svec();
		LinkProp o, o2;
		transformBodyInertial(d, r, body(l), o);
		transformBodyInertial(d2, r2, o, o2);
		rec_body(o2);
	} else if (op == "movename") {
		auto d = l.svec(); auto r = l.svec();
		LinkProp o;
		transformBodyInertial(d, r, body(l), o);
		rec_json("\"" + esc(o.name) + "\"");
	} else if (op == "merge") {
		LinkProp a = body(l), b = body(l), o;
		mergeBodyInertial(a, b, o);
		rec_body(o);
	} else if (op == "merge3") {	// (a+b)+c
		LinkProp a = body(l), b = body(l), c = body(l), o, o2;
		mergeBodyInertial(a, b, o);
		mergeBodyInertial(o, c, o2);
		rec_body(o2);
	}
#ifndef URDF
	else if (op == "hatsx") rec_val(num(thunder_ns::hat(sxv(l.svec()))));
	else if (op == "Rx") rec_val(num(R_x(casadi::SX(l.d()))));
	else if (op == "Ry") rec_val(num(R_y(casadi::SX(l.d()))));
	else if (op == "Rz") rec_val(num(R_z(casadi::SX(l.d()))));
	else if (op == "frame") rec_val(num(get_transform(sxv(l.svec()))));
	else if (op == "symframe") {	// built with symbols, then evaluated
		casadi::SX s = casadi::SX::sym("f", 6);
		casadi::Function f("f", {s}, {casadi::SX::densify(get_transform(s))});
		casadi::DM o = f(std::vector<casadi::DM>{casadi::DM(l.svec())}).at(0);
		rec_val(num(casadi::SX(o)));
	} else if (op == "offset" || op == "offsetset") {	// what ypr transl gravity
		std::string w = l.s();
		auto y = l.svec(), t = l.svec(), g = l.svec();
		FrameOffset f;
		if (op == "offset") f = g.empty() ? FrameOffset(y, t) : FrameOffset(y, t, g);
		else { f.set_ypr(y); f.set_translation(t); f.set_gravity(g); }
		if (w == "R") rec_val(num(f.get_rotation()));
		else if (w == "T") rec_val(num(f.get_transform()));
		else if (w == "t") rec_val(num(f.get_translation()));
		else if (w == "g") rec_val(num(f.get_gravity()));
		else if (w == "y") rec_val(num(sxv(f.get_ypr())));
		else if (w == "hat") rec_val(num(f.hat(y)));
		else throw std::logic_error("script: offset " + w);
	}
#endif
#endif
	else throw std::logic_error("script: unknown op " + op);
}

int main(int argc, char** argv) {
	std::ifstream in(argv[1]);
	out = fopen(argv[2], "w");
	if (!in || !out) return 99;
	Line l;
	while (read_line(in, l)) {
		if (l.t.empty()) continue;
		try { run(l); }
		catch (const std::logic_error& e) { std::string w = e.what(); if (w.compare(0, 7, "script:") == 0) { fprintf(out, "BAD %s\n", w.c_str()); fflush(out); return 98; } rec_exc(w); }
		catch (const std::exception& e) { rec_exc(e.what()); }
		fflush(out);
	}
	fprintf(out, "END\n");
	fclose(out);
	return 0;
}
