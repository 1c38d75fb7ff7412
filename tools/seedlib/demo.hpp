// Small independent helpers for the demonstrations (no code of the checks is used here).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <eigen3/Eigen/Dense>
#include "robot.h"
#include "kinematics.h"
#include "dynamics.h"
#include "regressors.h"
#include "utils.h"
#include "genYaml.h"
using namespace thunder_ns;
using Eigen::MatrixXd;
using Eigen::VectorXd;

static std::mt19937 gen_(7);
inline double rnd(double a = -1, double b = 1) { return a + (b - a) * (gen_() / 4294967295.0); }
inline VectorXd rv(int n, double s = 1) { VectorXd v(n); for (int i = 0; i < n; i++) v(i) = rnd(-s, s); return v; }

struct Spec {
	std::vector<std::string> types;
	std::vector<double> DH, base, ee, grav = {0.3, -2, -9.81};
	bool gravity = true, elastic = false;
	std::vector<std::vector<double>> dyn, Dl, K, D, Dm;
	std::vector<double> Mm;
	int Dlo = 0, Ko = 0, Do = 0, Dmo = 0;
	std::vector<int> sDH, sbase, see, sgrav;
	std::vector<std::vector<int>> sdyn, sDl, sK, sD, sDm;
	std::vector<int> sMm;
	std::string extra;
	int n() const { return types.size(); }
	int nej() const { int e = 0; for (auto& t : types) e += t.size() > 1; return e; }
};

inline std::vector<double> rs(int n, double s = 1) { std::vector<double> v(n); for (auto& x : v) x = rnd(-s, s); return v; }

inline Spec spec(std::vector<std::string> types, int Dlo = 0, int Ko = 0, int Do = 0, int Dmo = 0) {
	Spec s;
	s.types = types;
	int n = s.n(), e = s.nej();
	s.DH = rs(4 * n); s.base = rs(6); s.ee = rs(6);
	for (int i = 0; i < n; i++) {
		std::vector<double> p = {rnd(.5, 3), rnd(), rnd(), rnd(), 2 + rnd(), rnd(-.3, .3), rnd(-.3, .3), 2 + rnd(), rnd(-.3, .3), 2 + rnd()};
		s.dyn.push_back(p);
		s.Dl.push_back(rs(Dlo));
	}
	for (int i = 0; i < e; i++) { s.K.push_back(rs(Ko)); s.D.push_back(rs(Do)); s.Dm.push_back(rs(Dmo)); s.Mm.push_back(rnd(.1, 1)); }
	s.Dlo = Dlo; s.Ko = Ko; s.Do = Do; s.Dmo = Dmo;
	s.elastic = e > 0;
	s.sDH.assign(4 * n, 0); s.sbase.assign(6, 0); s.see.assign(6, 0); s.sgrav.assign(3, 0);
	s.sdyn.assign(n, std::vector<int>(10, 0)); s.sDl.assign(n, std::vector<int>(Dlo, 0));
	s.sK.assign(e, std::vector<int>(Ko, 0)); s.sD.assign(e, std::vector<int>(Do, 0)); s.sDm.assign(e, std::vector<int>(Dmo, 0)); s.sMm.assign(e, 0);
	return s;
}

template <class T> std::string list(const std::vector<T>& v) {
	std::ostringstream o; o.precision(17); o << "[";
	for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i];
	o << "]"; return o.str();
}

inline std::string yaml(const Spec& s) {
	std::ostringstream o; o.precision(17);
	static const char* key[] = {"mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"};
	o << "num_joints: " << s.n() << "\ntype_joints: " << list(s.types) << "\nDl_order: " << s.Dlo << "\n";
	if (s.elastic) o << "ELASTIC_MODEL: true\n";
	o << "kinematics:\n  symb: " << list(s.sDH) << "\n  DH: " << list(s.DH) << "\n";
	if (s.gravity) o << "gravity:\n  symb: " << list(s.sgrav) << "\n  value: " << list(s.grav) << "\n";
	auto fr = [&](const char* k, const std::vector<double>& v, const std::vector<int>& sy) {
		o << k << ":\n  symb: " << list(sy) << "\n  tr: " << list(std::vector<double>(v.begin(), v.begin() + 3)) << "\n  ypr: " << list(std::vector<double>(v.begin() + 3, v.end())) << "\n";
	};
	fr("Base_to_L0", s.base, s.sbase); fr("Ln_to_EE", s.ee, s.see);
	o << "dynamics:\n";
	for (int i = 0; i < s.n(); i++) {
		o << "  link" << i + 1 << ":\n    inertial:\n      symb: " << list(s.sdyn[i]) << "\n";
		for (int k = 0; k < 10; k++) o << "      " << key[k] << ": " << s.dyn[i][k] << "\n";
		if (s.Dlo) o << "    friction:\n      symb: " << list(s.sDl[i]) << "\n      Dl: " << list(s.Dl[i]) << "\n";
	}
	if (s.elastic) {
		o << "elastic:\n  K_order: " << s.Ko << "\n  D_order: " << s.Do << "\n  Dm_order: " << s.Dmo << "\n  joints:\n";
		for (int i = 0; i < s.nej(); i++) {
			o << "    joint" << i + 1 << ":\n      K: " << list(s.K[i]) << "\n      K_symb: " << list(s.sK[i]) << "\n      D: " << list(s.D[i]) << "\n      D_symb: " << list(s.sD[i])
			  << "\n      Dm: " << list(s.Dm[i]) << "\n      Dm_symb: " << list(s.sDm[i]) << "\n      Mm: " << s.Mm[i] << "\n      Mm_symb: " << s.sMm[i] << "\n";
		}
	}
	o << s.extra;
	return o.str();
}

inline void put(const std::string& f, const std::string& t) { std::ofstream(f) << t; }
inline std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }
inline Robot make(const Spec& s, const std::string& f = "robot.yaml", const std::string& name = "demo") { put(f, yaml(s)); return robot_from_file(name, f, true); }

static int bad_ = 0;
inline void ok(bool c, const std::string& what) { if (!c) { bad_++; std::cerr << "FAIL: " << what << "\n"; } }
inline void near(const MatrixXd& a, const MatrixXd& b, const std::string& what, double tol = 1e-9) {
	if (a.rows() != b.rows() || a.cols() != b.cols()) { ok(false, what + " (dimensions)"); return; }
	double e = a.size() ? (a - b).cwiseAbs().maxCoeff() : 0, s = 1 + (b.size() ? b.cwiseAbs().maxCoeff() : 0);
	if (!(e <= tol * s)) { std::ostringstream o; o << what << "\n" << a << "\n--- expected\n" << b; ok(false, o.str()); }
}
// central difference of f at 0
inline MatrixXd diff(std::function<MatrixXd(double)> f, double h = 1e-4) { return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h); }
inline MatrixXd Rx(double a) { return Eigen::AngleAxisd(a, Eigen::Vector3d::UnitX()).toRotationMatrix(); }
inline MatrixXd Ry(double a) { return Eigen::AngleAxisd(a, Eigen::Vector3d::UnitY()).toRotationMatrix(); }
inline MatrixXd Rz(double a) { return Eigen::AngleAxisd(a, Eigen::Vector3d::UnitZ()).toRotationMatrix(); }
inline MatrixXd hom(const MatrixXd& R, const Eigen::Vector3d& p) { MatrixXd T = MatrixXd::Identity(4, 4); T.topLeftCorner(3, 3) = R; T.topRightCorner(3, 1) = p; return T; }
inline MatrixXd frame(const std::vector<double>& f) { return hom(Rz(f[3]) * Ry(f[4]) * Rx(f[5]), {f[0], f[1], f[2]}); }
inline MatrixXd link(const Spec& s, int i, double q) {
	bool P = s.types[i][0] == 'P';
	MatrixXd A = hom(Rx(s.DH[4 * i + 1]), {s.DH[4 * i], 0, 0});
	double d = s.DH[4 * i + 2] + (P ? q : 0), t = s.DH[4 * i + 3] + (P ? 0 : q);
	return A * hom(Rz(t), {0, 0, d});
}
inline MatrixXd fk(const Spec& s, const VectorXd& q, int upto) {       // frame upto (0: base), n+1: end effector
	MatrixXd T = frame(s.base);
	for (int i = 0; i < upto && i < s.n(); i++) T = T * link(s, i, q(i));
	if (upto > s.n()) T = T * frame(s.ee);
	return T;
}
inline Eigen::Vector3d com(const Spec& s, const VectorXd& q, int i) {
	MatrixXd T = fk(s, q, i + 1);
	return (T * Eigen::Vector4d(s.dyn[i][1], s.dyn[i][2], s.dyn[i][3], 1)).head(3);
}
inline Eigen::Matrix3d inertia(const std::vector<double>& d) { Eigen::Matrix3d I; I << d[4], d[5], d[6], d[5], d[7], d[8], d[6], d[8], d[9]; return I; }
// Jacobian of a point and of a frame by differences
inline MatrixXd jac(const Spec& s, const VectorXd& q, int frame_i, Eigen::Vector3d p = {0, 0, 0}) {
	MatrixXd J = MatrixXd::Zero(6, s.n());
	MatrixXd T0 = fk(s, q, frame_i);
	for (int k = 0; k < s.n(); k++) {
		MatrixXd d = diff([&](double h) { VectorXd x = q; x(k) += h; return MatrixXd(fk(s, x, frame_i)); });
		J.block(0, k, 3, 1) = (d * Eigen::Vector4d(p(0), p(1), p(2), 1)).head(3);
		MatrixXd W = d.topLeftCorner(3, 3) * T0.topLeftCorner(3, 3).transpose();
		J(3, k) = W(2, 1); J(4, k) = W(0, 2); J(5, k) = W(1, 0);
	}
	return J;
}
inline MatrixXd mass(const Spec& s, const VectorXd& q) {
	MatrixXd M = MatrixXd::Zero(s.n(), s.n());
	for (int i = 0; i < s.n(); i++) {
		MatrixXd J = jac(s, q, i + 1, {s.dyn[i][1], s.dyn[i][2], s.dyn[i][3]}), R = fk(s, q, i + 1).topLeftCorner(3, 3);
		M += s.dyn[i][0] * J.topRows(3).transpose() * J.topRows(3) + J.bottomRows(3).transpose() * R * inertia(s.dyn[i]) * R.transpose() * J.bottomRows(3);
	}
	return M;
}
inline MatrixXd grad_potential(const Spec& s, const VectorXd& q) {
	MatrixXd G = MatrixXd::Zero(s.n(), 1);
	for (int i = 0; i < s.n(); i++)
		G -= s.dyn[i][0] * jac(s, q, i + 1, {s.dyn[i][1], s.dyn[i][2], s.dyn[i][3]}).topRows(3).transpose() * Eigen::Vector3d(s.grav[0], s.grav[1], s.grav[2]);
	return G;
}
