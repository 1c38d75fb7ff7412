// script reading and record writing, shared by the driver programs
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
#include <dirent.h>
#include <malloc.h>

namespace drv {

inline FILE* out = nullptr;

struct Line {
	std::vector<std::string> t;
	size_t p = 0;
	std::string s() { if (p >= t.size()) throw std::logic_error("script: missing token"); return t[p++]; }
	long i() { return std::strtol(s().c_str(), nullptr, 10); }
	double d() { return std::strtod(s().c_str(), nullptr); }
	bool more() const { return p < t.size(); }
	Eigen::VectorXd vec() { long n = i(); Eigen::VectorXd v(n); for (long k = 0; k < n; k++) v(k) = d(); return v; }
	std::vector<double> svec() { long n = i(); std::vector<double> v(n); for (long k = 0; k < n; k++) v[k] = d(); return v; }
	Eigen::MatrixXd mat() { long r = i(), c = i(); Eigen::MatrixXd m(r, c); for (long a = 0; a < r; a++) for (long b = 0; b < c; b++) m(a, b) = d(); return m; }
	std::vector<std::string> list() { long n = i(); std::vector<std::string> v; for (long k = 0; k < n; k++) v.push_back(s()); return v; }
};

// tokens are separated by blanks; %20 in a token stands for a blank, %0A for a new line, %e for nothing
inline std::string decode(const std::string& x) {
	if (x == "%e") return "";
	std::string r;
	for (size_t i = 0; i < x.size(); i++) {
		if (x[i] == '%' && x.compare(i, 3, "%20") == 0) { r += ' '; i += 2; }
		else if (x[i] == '%' && x.compare(i, 3, "%0A") == 0) { r += '\n'; i += 2; }
		else r += x[i];
	}
	return r;
}

inline bool read_line(std::istream& in, Line& l) {
	std::string s;
	if (!std::getline(in, s)) return false;
	l = Line();
	std::istringstream is(s);
	std::string w;
	while (is >> w) l.t.push_back(decode(w));
	return true;
}

inline void rec_ok(long r) { fprintf(out, "OK %ld\n", r); }

template <class M> void rec_val(const M& m) {
	fprintf(out, "V %ld %ld", (long)m.rows(), (long)m.cols());
	for (long a = 0; a < (long)m.rows(); a++) for (long b = 0; b < (long)m.cols(); b++) fprintf(out, " %.17g", (double)m(a, b));
	fputc('\n', out);
}

inline std::string esc(const std::string& s) {
	std::string r;
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

inline void rec_exc(const std::string& s) {
	std::string e = esc(s).substr(0, 300);
	for (char& c : e) if (c == '\n') c = ' ';
	fprintf(out, "EXC %s\n", e.c_str());
}

inline void rec_json(const std::string& s) { fprintf(out, "J %s\n", s.c_str()); }

// memory in use and open files
inline void rec_mem() {
	struct mallinfo2 m = mallinfo2();
	long n = 0;
	if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
	rec_json("{\"heap\":" + std::to_string(m.uordblks + m.hblkhd) + ",\"files\":" + std::to_string(n) + "}");
}

inline std::string jl(const std::vector<std::string>& v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); i++) r += (i ? ",\"" : "\"") + esc(v[i]) + "\"";
	return r + "]";
}
template <class V> std::string jn(const V& v) {
	std::string r = "[";
	for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]);
	return r + "]";
}

}
