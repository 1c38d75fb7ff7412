// expressions in prefix notation over the model of a robot
#pragma once
#include "common.hpp"
#include "robot.h"

inline casadi::SX expr(thunder_ns::Robot& r, drv::Line& l) {
	std::string op = l.s();
	if (op == "mul") { auto a = expr(r, l); auto b = expr(r, l); return mtimes(a, b); }
	if (op == "add") { auto a = expr(r, l); auto b = expr(r, l); return a + b; }
	if (op == "sub") { auto a = expr(r, l); auto b = expr(r, l); return a - b; }
	if (op == "emul") { auto a = expr(r, l); auto b = expr(r, l); return a * b; }
	if (op == "vcat") { auto a = expr(r, l); auto b = expr(r, l); return vertcat(a, b); }
	if (op == "hcat") { auto a = expr(r, l); auto b = expr(r, l); return horzcat(a, b); }
	if (op == "T") return expr(r, l).T();
	if (op == "norm2") return norm_2(expr(r, l));
	if (op == "sumsqr") return sumsqr(expr(r, l));
	if (op == "sin") return sin(expr(r, l));
	if (op == "cos") return cos(expr(r, l));
	if (op == "neg") return -expr(r, l);
	if (op == "diag") return diag(expr(r, l));
	if (op == "el") { long a = l.i(), b = l.i(); auto e = expr(r, l); return e(a, b); }
	if (op == "const") { auto m = l.mat(); casadi::SX e(m.rows(), m.cols()); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) e(i, j) = m(i, j); return e; }
	if (op == "sparse") { long n = l.i(); casadi::SX e(n, n); auto a = expr(r, l); e(n - 1, 0) = a(0); return e; }
	if (op == "m") { std::string k = l.s(); if (!r.model.count(k)) throw std::runtime_error("driver: no model entry " + k); return r.model[k]; }
	throw std::logic_error("script: unknown expression " + op);
}

