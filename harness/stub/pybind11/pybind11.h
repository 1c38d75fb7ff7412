// stands in for pybind11: records the module and its classes so that bound methods can be called by name
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#include <Eigen/Dense>
namespace pybind11 {
struct arg {
	std::string name;
	bool has = false, value = false;
	explicit arg(const char* n) : name(n) {}
	template <class T> arg operator=(T v) const { arg a = *this; a.has = true; a.value = (bool)v; return a; }
};
namespace literals { inline arg operator"" _a(const char* n, size_t) { return arg(n); } }
// loosely typed arguments of a call
struct Args {
	std::vector<Eigen::VectorXd> vec;
	std::string str;
	int flag = -1;
	size_t nv = 0;
	int dflt = -1;
};
template <class D, class E = void> struct Get;
template <class D> struct Get<D, std::enable_if_t<std::is_base_of<Eigen::EigenBase<D>, D>::value>> { static D from(Args& a) { return D(a.vec.at(a.nv++)); } };
template <> struct Get<std::string> { static std::string from(Args& a) { return a.str; } };
template <> struct Get<bool> { static bool from(Args& a) { return a.flag < 0 ? a.dflt != 0 : a.flag != 0; } };
template <class D> struct Get<D, std::enable_if_t<std::is_arithmetic<D>::value && !std::is_same<D, bool>::value>> { static D from(Args& a) { return (D)a.flag; } };
inline Eigen::MatrixXd ret(int v) { return Eigen::MatrixXd::Constant(1, 1, v); }
template <class M, class = std::enable_if_t<std::is_base_of<Eigen::EigenBase<M>, M>::value>> Eigen::MatrixXd ret(const M& m) { return m; }
struct Def {
	std::string name, doc;
	std::vector<arg> args;
	size_t nargs;
	std::function<Eigen::MatrixXd(void*, Args&)> call;
};
struct Cls {
	std::string name;
	std::function<std::shared_ptr<void>()> make;
	std::vector<Def> defs;
};
struct Mod { std::string name; std::vector<Cls> classes; };
inline std::vector<Mod>& modules() { static std::vector<Mod> m; return m; }
typedef Mod module_;
template <class... A> struct Init {};
template <class... A> Init<A...> init() { return {}; }
template <class T, class... X> struct class_ {
	Mod& m;
	size_t k;
	class_(Mod& mod, const char* n, const char* = "") : m(mod), k(mod.classes.size()) { m.classes.push_back(Cls{n, nullptr, {}}); }
	template <class... A, class... Y> class_& def(Init<A...>, const Y&...) { if constexpr (sizeof...(A) == 0) m.classes[k].make = []() { return std::static_pointer_cast<void>(std::make_shared<T>()); }; return *this; }
	static void take(Def& d, const char* t) { d.doc = t; }
	static void take(Def& d, const arg& a) { d.args.push_back(a); }
	template <class O> static void take(Def&, const O&) {}
	template <class R, class C, class... A, class... Y> class_& bind(const char* n, R (C::*f)(A...), const Y&... extra) {
		Def d;
		d.name = n;
		d.nargs = sizeof...(A);
		(take(d, extra), ...);
		int dflt = -1;
		for (auto& a : d.args) if (a.has) dflt = a.value;
		d.call = [f, dflt](void* o, Args& a) -> Eigen::MatrixXd {
			a.dflt = dflt;
			std::tuple<std::decay_t<A>...> t{Get<std::decay_t<A>>::from(a)...};		// braces: in order
			auto go = [&](auto&... x) -> R { return (((T*)o)->*f)(x...); };
			if constexpr (std::is_void<R>::value) { std::apply(go, t); return Eigen::MatrixXd(0, 0); }
			else return ret(std::apply(go, t));
		};
		m.classes[k].defs.push_back(d);
		return *this;
	}
	template <class R, class C, class... A, class... Y> class_& def(const char* n, R (C::*f)(A...), const Y&... extra) { return bind(n, f, extra...); }
	template <class R, class C, class... A, class... Y> class_& def(const char* n, R (C::*f)(A...) const, const Y&... extra) { return bind(n, (R (C::*)(A...))f, extra...); }
	template <class F, class... Y> class_& def_readonly(const char*, F, const Y&...) { return *this; }
	template <class F, class... Y> class_& def_readwrite(const char*, F, const Y&...) { return *this; }
};
struct Add { Add(const char* n, void (*f)(Mod&)) { modules().push_back(Mod{n, {}}); f(modules().back()); } };
}
#define PYBIND11_STR2(x) #x
#define PYBIND11_STR(x) PYBIND11_STR2(x)
#define PYBIND11_MODULE(n, v) static void pyinit_##n(pybind11::module_&); static pybind11::Add pyadd_##n(PYBIND11_STR(n), pyinit_##n); static void pyinit_##n(pybind11::module_& v)
