#pragma once
#include <pybind11/pybind11.h>
namespace vtcb {
inline void ev(char const *kind, std::string const &cpp, std::string const &scope, std::vector<std::string> const &a, char const *f) { pybind11::mk::Ev("user").str("kind", kind).str("cpp", cpp).str("scope", scope).list("args", a).str("file", f); }
inline void cls(pybind11::module_ &m, char const *f = __builtin_FILE()) { ev("cls", "", m.path, {}, f); }
template <class... T, class... N> void cls_t(pybind11::module_ &m, N const &...n)
{
	std::string s;
	std::vector<std::string> v{pybind11::mk::tn<T>()...};
	for( auto &x : v ) s += (s.empty() ? "" : ", ") + x;
	ev("cls_t", s, m.path, {n...}, "");
}
template <class C> void addon(C &cl, char const *f = __builtin_FILE()) { ev("addon", cl.cname, cl.path, {}, f); }
inline void ns(pybind11::module_ &m, char const *f = __builtin_FILE()) { ev("ns", "", m.path, {}, f); }
inline void nsadd(pybind11::module_ &m, char const *f = __builtin_FILE()) { ev("nsadd", "", m.path, {}, f); }
} // namespace vtcb
