#pragma once
#include <vt_trace.hpp>
namespace vtcb {
struct any_value { template <class T> operator T() const { return T(); } };
template <class C, class Tr, class S, class... A> any_value tramp(S *self, char const *cls, char const *fn, A const &...a)
{
	Tr const *t = self; // the object is passed as what the function was told it is
	(void)t;
	vt::hit((std::string("tramp ") + cls + "." + fn).c_str(), a...);
	return any_value();
}
} // namespace vtcb
