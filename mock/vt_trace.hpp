// what the C++ side of a generated case reports when one of its functions runs
#pragma once
#include <string>
#include <type_traits>
#include <vector>

namespace vt {
inline std::vector<std::string> &hits()
{
	static std::vector<std::string> h;
	return h;
}
template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value, long>::type num(T const &t) { return (long)t; }
inline long num(std::string const &s) { return s.empty() ? -3 : (long)std::stol(s.substr(1)); }
template <class T> long num(T *p);
template <class T> typename std::enable_if<!std::is_arithmetic<T>::value && !std::is_enum<T>::value && !std::is_pointer<T>::value, long>::type num(T const &) { return -1; }
template <class T> struct NumPtr { static long get(T *p) { return p ? -1 : -2; } };
template <> struct NumPtr<int> { static long get(int *p) { return p ? *p : -2; } };
template <> struct NumPtr<int const> { static long get(int const *p) { return p ? *p : -2; } };
template <class T> long num(T *p) { return NumPtr<T>::get(p); }

template <class... A> void hit(char const *id, A const &...a)
{
	std::string r = id;
	std::vector<std::string> v{std::to_string(num(a))...};
	for( auto &x : v ) r += " " + x;
	hits().push_back(r);
}
inline void *any() // zero filled storage that stands for an object of some class
{
	alignas(16) static unsigned char b[4096] = {};
	return b;
}
inline int &anyint() { static int i = 0; return i; }
template <class T> T make() { return T(); }
} // namespace vt
