// Recording stand-in for pybind11: same surface as the part of pybind11 that generated bindings use, but instead of
// creating Python objects it writes one JSON event per registration, and calls every registered callable once to
// record what it does. The events are the implementation trace that the TLA+ specification is checked against.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include <cxxabi.h>
#include <vt_trace.hpp>

#define PYBIND11_DECLARE_HOLDER_TYPE(type, holder_type, ...)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_TYPE_CASTER_BASE_HOLDER(...) ::pybind11::mk::smart_holder<__VA_ARGS__>();
#define PYBIND11_VERSION_MAJOR 2

namespace pybind11 {

namespace mk {

inline std::string esc(std::string const &s)
{
	std::string r = "\"";
	for( unsigned char c : s ) {
		if( c == '"' || c == '\\' ) { r += '\\'; r += char(c); }
		else if( c < 32 || c > 126 ) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}

template <class T> struct tag {};

inline std::string demangle(char const *n)
{
	int st = 0;
	char *p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
	std::string r = p ? p : n;
	std::free(p);
	for( std::string::size_type i; (i = r.find("iv1::")) != std::string::npos; ) r.erase(i, 5); // inline namespaces are not part of names
	return r;
}

// name of T with references and cv kept
template <class T> std::string tn()
{
	static std::string const s = [] {
		std::string r = demangle(typeid(tag<T>).name()), p = "pybind11::mk::tag<";
		r = r.substr(p.size(), r.size() - p.size() - 1);
		while( !r.empty() && r.back() == ' ' ) r.pop_back();
		return r;
	}();
	return s;
}

inline FILE *out()
{
	static FILE *f = [] { char const *n = std::getenv("MK_OUT"); FILE *f = n ? std::fopen(n, "a") : stdout; return f; }();
	return f;
}

struct Ev // one event
{
	std::string s = "{";
	Ev(char const *e) { s += "\"e\":"; s += esc(e); }
	Ev &str(char const *k, std::string const &v) { s += ",\"" + std::string(k) + "\":" + esc(v); return *this; }
	Ev &raw(char const *k, std::string const &v) { s += ",\"" + std::string(k) + "\":" + v; return *this; }
	Ev &num(char const *k, long v) { return raw(k, std::to_string(v)); }
	Ev &list(char const *k, std::vector<std::string> const &v) { return raw(k, arr(v)); }
	static std::string arr(std::vector<std::string> const &v)
	{
		std::string r = "[";
		for( auto &x : v ) r += (r.size() > 1 ? "," : "") + esc(x);
		return r + "]";
	}
	~Ev() { s += "}\n"; std::fputs(s.c_str(), out()); std::fflush(out()); }
};

inline std::string base(char const *f) { return f ? f : ""; }

// ---------------------------------------------------------------------------------------------------------- storage
template <class T> T *&instance() { static T *p = nullptr; return p; } // object made by a registered constructor
template <class T> T *&alias_instance() { static T *p = nullptr; return p; }

template <class T> T *raw_object() // zero filled storage, for types that no registered constructor made
{
	alignas(16) static unsigned char b[sizeof(T) + 64] = {};
	return reinterpret_cast<T *>(b);
}

// classes for which zero filled storage is not good enough (virtual bases), listed in the file $MK_VB
inline std::set<std::string> const &special()
{
	static std::set<std::string> const s = [] {
		std::set<std::string> r;
		if( char const *n = std::getenv("MK_VB") )
			if( FILE *f = std::fopen(n, "r") ) {
				char b[4096];
				while( std::fgets(b, sizeof b, f) ) { std::string l = b; while( !l.empty() && l.back() == '\n' ) l.pop_back(); r.insert(l); }
				std::fclose(f);
			}
		return r;
	}();
	return s;
}

template <class T, bool complete_class> struct Obj { static T *get() { return raw_object<T>(); } static bool ok() { return true; } };
template <class T> struct Obj<T, true> {
	static T *get() { return instance<T>() ? instance<T>() : raw_object<T>(); }
	static bool ok() { return instance<T>() || (!std::is_polymorphic<T>::value && !special().count(tn<T>())); }
};

inline int &counter() { static int c = 100; return c; }

template <class T, class = void> struct Make { // object of class type
	static T *ptr() { return Obj<T, std::is_class<T>::value>::get(); }
};
template <class T> struct Make<T, typename std::enable_if<std::is_same<T, bool>::value>::type> {
	static T *ptr() { static T v; ++counter(); v = true; return &v; }
};
template <class T> struct Make<T, typename std::enable_if<(std::is_integral<T>::value && !std::is_same<T, bool>::value) || std::is_floating_point<T>::value>::type> {
	static T *ptr() { T *v = new T; *v = T(++counter()); return v; }
};
template <class T> struct Make<T, typename std::enable_if<std::is_enum<T>::value>::type> {
	static T *ptr() { T *v = new T; *v = T(++counter()); return v; }
};
template <> struct Make<std::string, void> {
	static std::string *ptr() { return new std::string("s" + std::to_string(++counter())); }
};
template <class T> struct Make<T *, void> {
	static T **ptr() { T **p = new T *; *p = const_cast<T *>(Make<typename std::remove_cv<T>::type>::ptr()); return p; }
};
template <> struct Make<void *, void> { static void **ptr() { return new void *(nullptr); } };
template <> struct Make<void const *, void> { static void const **ptr() { return new void const *(nullptr); } };
template <class R, class... A> struct Make<R (*)(A...), void> { using F = R (*)(A...); static F *ptr() { return new F(nullptr); } };
template <> struct Make<char *, void> { static char **ptr() { static char b[8] = "c"; return new char *(b); } };
template <> struct Make<char const *, void> { static char const **ptr() { return new char const *("c"); } };

template <class A> struct Arg {
	using V = typename std::remove_cv<typename std::remove_reference<A>::type>::type;
	static A get() { return static_cast<A>(*Make<V>::ptr()); }
};
template <class A> struct Arg<A &&> {
	using V = typename std::remove_cv<A>::type;
	static A &&get() { return static_cast<A &&>(*Make<V>::ptr()); }
};

// ---------------------------------------------------------------------------------------------------------- callables
template <class F, class = void> struct Sig;
template <class R, class... A> struct Sig<R (*)(A...)> { using ret = R; using args = std::tuple<tag<A>...>; static constexpr bool member = false, cst = false; using self = void; };
template <class R, class... A> struct Sig<R(A...)> : Sig<R (*)(A...)> {};
template <class R, class C, class... A> struct Sig<R (C::*)(A...)> { using ret = R; using args = std::tuple<tag<A>...>; static constexpr bool member = true, cst = false; using self = C; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...) const> { using ret = R; using args = std::tuple<tag<A>...>; static constexpr bool member = true, cst = true; using self = C; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...) &> : Sig<R (C::*)(A...)> {};
template <class R, class C, class... A> struct Sig<R (C::*)(A...) const &> : Sig<R (C::*)(A...) const> {};
#if __cplusplus >= 201703L
template <class R, class... A> struct Sig<R (*)(A...) noexcept> : Sig<R (*)(A...)> {};
template <class R, class C, class... A> struct Sig<R (C::*)(A...) noexcept> : Sig<R (C::*)(A...)> {};
template <class R, class C, class... A> struct Sig<R (C::*)(A...) const noexcept> : Sig<R (C::*)(A...) const> {};
#endif
template <class L> struct LSig; // signature of call operator
template <class R, class C, class... A> struct LSig<R (C::*)(A...) const> { using ret = R; using args = std::tuple<tag<A>...>; };
template <class R, class C, class... A> struct LSig<R (C::*)(A...)> { using ret = R; using args = std::tuple<tag<A>...>; };
template <class F> struct Sig<F, decltype(void(&F::operator()))> {
	using L = LSig<decltype(&F::operator())>;
	using ret = typename L::ret;
	using args = typename L::args;
	static constexpr bool member = false, cst = false;
	using self = void;
};

template <class Tup> struct Names;
template <class... A> struct Names<std::tuple<tag<A>...> > {
	static std::vector<std::string> get() { return {tn<A>()...}; }
};

// describe the value that a call returned
template <class R> struct Desc {
	template <class T, typename std::enable_if<std::is_arithmetic<T>::value, int>::type = 0> static std::string v(T const &x) { return std::to_string((long)x); }
	template <class T, typename std::enable_if<std::is_enum<T>::value, int>::type = 0> static std::string v(T const &x) { return std::to_string((long)x); }
	template <class T, typename std::enable_if<std::is_same<T, std::string>::value, int>::type = 0> static std::string v(T const &x) { return x; }
	template <class T, typename std::enable_if<!std::is_arithmetic<T>::value && !std::is_enum<T>::value && !std::is_same<T, std::string>::value, int>::type = 0> static std::string v(T const &) { return "obj"; }
};

template <class F, class R, class Tup> struct Call;
template <class F, class R, class... A> struct Call<F, R, std::tuple<tag<A>...> > {
	template <class G> static std::string run(G &&g)
	{
		counter() = 100;
		vt::hits().clear();
		std::string r;
		try {
			std::tuple<A...> a{Arg<A>::get()...};
			r = go(g, a, std::index_sequence_for<A...>{}, std::is_void<R>{});
		}
		catch( std::exception &e ) { r = std::string("throw ") + e.what(); }
		std::string h = "{\"ret\":" + esc(r) + ",\"hits\":" + Ev::arr(vt::hits()) + "}";
		vt::hits().clear();
		return h;
	}
	template <class G, std::size_t... I> static std::string go(G &g, std::tuple<A...> &a, std::index_sequence<I...>, std::true_type) { g(static_cast<A>(std::get<I>(a))...); return "void"; }
	template <class G, std::size_t... I> static std::string go(G &g, std::tuple<A...> &a, std::index_sequence<I...>, std::false_type)
	{
		R r = g(static_cast<A>(std::get<I>(a))...);
		return Desc<R>::v(r);
	}
};

// is every object that call would use good enough to make the call?
template <class A> struct Usable {
	using V = typename std::remove_cv<typename std::remove_pointer<typename std::remove_cv<typename std::remove_reference<A>::type>::type>::type>::type;
	template <class T, typename std::enable_if<std::is_class<T>::value && !std::is_same<T, std::string>::value, int>::type = 0> static bool ok() { return Obj<T, true>::ok(); }
	template <class T, typename std::enable_if<!(std::is_class<T>::value && !std::is_same<T, std::string>::value), int>::type = 0> static bool ok() { return true; }
	static bool get() { return ok<V>(); }
};
template <class Tup> struct AllUsable;
template <class... A> struct AllUsable<std::tuple<tag<A>...> > {
	static bool get() { bool r = true; int u[] = {0, (r = r && Usable<A>::get(), 0)...}; (void)u; return r; }
};

template <class T, class Tup, bool member> struct SelfOf { using type = T; };
template <class T, class A, class... R> struct SelfOf<T, std::tuple<tag<A>, tag<R>...>, false> {
	using V = typename std::remove_cv<typename std::remove_pointer<typename std::remove_cv<typename std::remove_reference<A>::type>::type>::type>::type;
	using type = typename std::conditional<std::is_class<V>::value && std::is_convertible<T *, V *>::value, V, T>::type;
};

inline bool &overriding() { static bool b = false; return b; }

template <class A, bool = std::is_class<A>::value && !std::is_same<A, std::string>::value> struct Copyable { static constexpr bool value = true; };
template <class A> struct Copyable<A, true> { static constexpr bool value = std::is_copy_constructible<A>::value; };
template <class Tup> struct AllCopyable;
template <> struct AllCopyable<std::tuple<> > { static constexpr bool value = true; };
template <class A, class... R> struct AllCopyable<std::tuple<tag<A>, tag<R>...> > { static constexpr bool value = Copyable<A>::value && AllCopyable<std::tuple<tag<R>...> >::value; };

template <bool> struct Run { template <class S, class F, class G> static std::string go(G &&) { return "null"; } };
template <> struct Run<true> {
	template <class S, class F, class G> static std::string go(G &&g) { return Call<F, typename S::ret, typename S::args>::run(std::forward<G>(g)); }
};

template <class T, class F> typename std::enable_if<Sig<F>::member, std::string>::type invoke(F f, T *o)
{
	using S = Sig<F>;
	if( !o || !AllUsable<typename S::args>::get() ) return "null";
	return Run<AllCopyable<typename S::args>::value>::template go<S, F>([&](auto &&...a) -> typename S::ret { return (o->*f)(std::forward<decltype(a)>(a)...); });
}
template <class T, class F> typename std::enable_if<!Sig<F>::member, std::string>::type invoke(F f, T *)
{
	using S = Sig<F>;
	if( !AllUsable<typename S::args>::get() ) return "null";
	return Run<AllCopyable<typename S::args>::value>::template go<S, F>(f);
}

// ---------------------------------------------------------------------------------------------------------- smart holder
template <class T, class H> void smart_holder() { Ev("smart_holder").str("cpp", tn<T>()).str("holder", tn<H>()); }

struct nm // name argument that remembers source file of the call
{
	std::string s;
	char const *file;
	nm(char const *s_, char const *f = __builtin_FILE()) : s(s_), file(f) {}
	nm(std::string const &s_, char const *f = __builtin_FILE()) : s(s_), file(f) {}
};

} // namespace mk

// -------------------------------------------------------------------------------------------------------------- extras
enum class return_value_policy : uint8_t { automatic = 0, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct arg_v;
struct arg { std::string name; bool nonone = false, nocv = false, dflt = false; explicit arg(char const *n = nullptr) : name(n ? n : "") {} arg &none(bool = true) { return *this; } arg &noconvert(bool = true) { nocv = true; return *this; } template <class T> arg operator=(T &&) const { arg a = *this; a.dflt = true; return a; } };
struct arithmetic {};
struct module_local { bool v; explicit constexpr module_local(bool b = true) : v(b) {} };
struct buffer_protocol {};
struct dynamic_attr {};
struct multiple_inheritance {};
struct is_final {};
struct prepend {};
struct is_operator {};
struct doc_ {};
template <int a, int b> struct keep_alive {};
template <class... T> struct call_guard {};
struct gil_scoped_release {};
struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };

namespace mk {
struct Extras
{
	std::vector<std::string> args, argflags, guards, keep, docs;
	std::string policy = "none";
	bool module_local = false, buffer = false, arithmetic = false, dynamic = false, other = false;
	void add(::pybind11::arg const &a) { args.push_back(a.name); if( a.nocv || a.dflt ) argflags.push_back(a.name); }
	void add(::pybind11::return_value_policy p)
	{
		static char const *n[] = {"automatic", "automatic_reference", "take_ownership", "copy", "move", "reference", "reference_internal"};
		policy = n[int(p)];
	}
	void add(::pybind11::arithmetic) { arithmetic = true; }
	void add(::pybind11::module_local m) { module_local = m.v; }
	void add(::pybind11::buffer_protocol) { buffer = true; }
	void add(::pybind11::dynamic_attr) { dynamic = true; }
	void add(char const *d) { docs.push_back(d); }
	void add(std::string const &d) { docs.push_back(d); }
	template <int a, int b> void add(::pybind11::keep_alive<a, b>) { keep.push_back(std::to_string(a) + "," + std::to_string(b)); }
	template <class... T> void add(::pybind11::call_guard<T...>) { std::vector<std::string> n{tn<T>()...}; for( auto &x : n ) guards.push_back(x); }
	template <class T> void add(T const &) { other = true; }
	Extras() {}
	template <class... E> void all(E const &...e) { int u[] = {0, (add(e), 0)...}; (void)u; }
	void write(Ev &v)
	{
		v.list("args", args).list("guards", guards).list("docs", docs).str("policy", policy);
		v.num("module_local", module_local).num("buffer", buffer).num("arithmetic", arithmetic);
		if( keep.size() ) v.list("keep", keep);
	}
};
} // namespace mk

// -------------------------------------------------------------------------------------------------------------- objects
struct handle
{
	std::string path; // Python path
	handle() {}
	explicit operator bool() const { return !path.empty(); }
};
struct object : handle { };
struct none : object {};
struct str : object {};
struct bytes : object {};
struct int_ : object {};
struct float_ : object {};
struct dict : object {};
struct list : object {};
struct tuple : object {};
struct args : tuple {};
struct kwargs : dict {};
struct buffer : object {};
struct slice : object {};
struct iterator : object {};
struct iterable : object {};
struct type : object {};
struct capsule : object {};
struct cpp_function : object {};

struct function : object
{
	std::string name;
	template <return_value_policy p = return_value_policy::automatic_reference, class... A> object operator()(A &&...a) const
	{
		std::string r = "override " + name;
		std::vector<std::string> v{std::to_string((long)vt::num(a))...};
		for( auto &x : v ) r += " " + x;
		vt::hits().push_back(r);
		return object();
	}
};

template <class T> function get_overload(T const *self, char const *name)
{
	function f;
	if( mk::overriding() ) { f.path = "override"; f.name = mk::tn<T>() + "." + name; }
	(void)self;
	return f;
}
template <class T> function get_override(T const *self, char const *name) { return get_overload(self, name); }
[[noreturn]] inline void pybind11_fail(std::string const &s) { throw std::runtime_error(s); }

namespace detail {
template <class T> struct cast_is_temporary_value_reference { static constexpr bool value = false; };
struct override_unused {};
template <class T> using override_caster_t = override_unused;
template <class T> using overload_caster_t = override_unused;
template <class T> typename std::enable_if<std::is_void<T>::value, T>::type cast_any() {}
template <class T> typename std::enable_if<!std::is_void<T>::value, T>::type cast_any() { return mk::Arg<T>::get(); }
template <class T> T cast_ref(object &&, override_unused &) { return cast_any<T>(); }
template <class T> T cast_safe(object &&) { return cast_any<T>(); }
} // namespace detail

struct module_ : object
{
	std::string doc_;
	struct Doc { module_ *m; Doc &operator=(std::string const &s) { m->doc_ = s; return *this; } };
	Doc doc() { return Doc{this}; }
	module_ def_submodule(char const *name, char const *doc = "")
	{
		module_ m;
		m.path = path.empty() ? name : path + "." + name;
		mk::Ev("submodule").str("path", m.path).str("parent", path).str("name", name).str("doc", doc ? doc : "");
		return m;
	}
	module_ def_submodule(std::string const &n, std::string const &d = "") { return def_submodule(n.c_str(), d.c_str()); }
	template <class F, class... E> module_ &def(mk::nm const &n, F &&f, E const &...e)
	{
		using D = typename std::decay<F>::type;
		using S = mk::Sig<D>;
		mk::Extras x;
		x.all(e...);
		std::string call = mk::invoke<void>(D(f), (void *)nullptr);
		mk::Ev v("fun");
		v.str("scope", path).str("name", n.s).str("file", mk::base(n.file)).list("types", mk::Names<typename S::args>::get()).str("ret", mk::tn<typename S::ret>()).raw("call", call);
		v.num("us", mk::AllUsable<typename S::args>::get() && mk::AllCopyable<typename S::args>::value);
		x.write(v);
		return *this;
	}
};
using module = module_;

// -------------------------------------------------------------------------------------------------------------- classes
namespace mk {
template <class... A> struct InitTypes {};
template <class F, class G> struct InitFact { F f; G g; };
template <class F> struct InitFact1 { F f; };
} // namespace mk

template <class... A> mk::InitTypes<A...> init() { return {}; }
template <class F> mk::InitFact1<typename std::decay<F>::type> init(F &&f) { return {f}; }
template <class F, class G> mk::InitFact<typename std::decay<F>::type, typename std::decay<G>::type> init(F &&f, G &&g) { return {f, g}; }

namespace mk {
template <class T> struct is_ptr_holder { static constexpr bool value = false; };

// classify options of class_: alias derives from T; base is a base of T; anything else is holder
template <class T, class O, bool = std::is_class<O>::value> struct Kind { static constexpr bool alias = false, base = false; };
template <class T, class O> struct Kind<T, O, true> {
	static constexpr bool alias = std::is_base_of<T, O>::value && !std::is_same<T, O>::value;
	static constexpr bool base = std::is_base_of<O, T>::value && !std::is_same<T, O>::value;
};
template <class T, class... O> struct AliasOf { using type = T; static constexpr bool has = false; };
template <class T, class O, class... R> struct AliasOf<T, O, R...> {
	static constexpr bool here = Kind<T, O>::alias;
	using type = typename std::conditional<here, O, typename AliasOf<T, R...>::type>::type;
	static constexpr bool has = here || AliasOf<T, R...>::has;
};

template <class V, class T, class... A> struct CanNew_ { static constexpr bool value = false; };
template <class T, class... A> struct CanNew_<decltype(void(new T(std::declval<A>()...))), T, A...> { static constexpr bool value = true; };
template <class T, class... A> struct CanNew { static constexpr bool value = CanNew_<void, T, A...>::value; };

template <class X> struct Unwrap { static std::string get(X const &) { return ""; } };
} // namespace mk

template <class T, class... Options> class class_ : public object
{
public:
	using type = T;
	using Alias = typename mk::AliasOf<T, Options...>::type;
	static constexpr bool has_alias = mk::AliasOf<T, Options...>::has;
	std::string cname, file;

	template <class... E> class_(handle const &scope, mk::nm const &n, E const &...e) : cname(mk::tn<T>()), file(mk::base(n.file))
	{
		path = scope.path.empty() ? n.s : scope.path + "." + n.s;
		std::vector<std::string> bases, holders, alias;
		int u[] = {0, (mk::Kind<T, Options>::alias ? alias.push_back(mk::tn<Options>()) : mk::Kind<T, Options>::base ? bases.push_back(mk::tn<Options>()) : holders.push_back(mk::tn<Options>()), 0)...};
		(void)u;
		mk::Extras x;
		x.all(e...);
		mk::Ev v("class");
		v.str("cpp", cname).str("scope", scope.path).str("name", n.s).str("file", file).list("bases", bases).list("holders", holders).list("alias", alias);
		x.write(v);
	}

	template <class F, class... E> class_ &def(mk::nm const &n, F &&f, E const &...e) { return def_(n, f, "def", e...); }
	template <class F, class... E> class_ &def_static(mk::nm const &n, F &&f, E const &...e) { return def_(n, f, "static", e...); }
	template <class F> class_ &def_buffer(F &&) { mk::Ev("def_buffer").str("cls", cname); return *this; }

	template <class... A, class... E> class_ &def(mk::InitTypes<A...> const &, E const &...e)
	{
		bool ok = mine() && mk::AllUsable<std::tuple<mk::tag<A>...> >::get();
		std::string call = "null", acall = "null";
		if( ok ) call = ctor<T, A...>(std::integral_constant<bool, mk::CanNew<T, A...>::value && mk::AllCopyable<std::tuple<mk::tag<A>...> >::value>{}, mk::instance<T>());
		if( ok && has_alias ) acall = ctor<Alias, A...>(std::integral_constant<bool, has_alias && mk::CanNew<Alias, A...>::value && mk::AllCopyable<std::tuple<mk::tag<A>...> >::value>{}, mk::alias_instance<Alias>());
		if( !mk::instance<T>() ) mk::instance<T>() = mk::alias_instance<Alias>();
		static_assert(mk::CanNew<T, A...>::value || (has_alias && mk::CanNew<Alias, A...>::value), "constructor is not available");
		rec("types", ok && mk::AllCopyable<std::tuple<mk::tag<A>...> >::value, {mk::tn<A>()...}, call, acall, e...);
		return *this;
	}
	template <class F, class... E> class_ &def(mk::InitFact1<F> const &i, E const &...e)
	{
		using S = mk::Sig<F>;
		using P = typename std::remove_pointer<typename S::ret>::type;
		bool us = mine() && mk::AllUsable<typename S::args>::get() && mk::AllCopyable<typename S::args>::value;
		std::string call = factory<P>(i.f, mk::instance<P>());
		constexpr bool is_alias = !std::is_same<P, T>::value;
		if( is_alias ) { if( !mk::alias_instance<Alias>() ) mk::alias_instance<Alias>() = conv<Alias>(mk::instance<P>()); }
		if( !mk::instance<T>() ) mk::instance<T>() = conv<T>(mk::instance<P>());
		rec(is_alias ? "alias_factory" : "factory", us, mk::Names<typename S::args>::get(), is_alias ? "null" : call, is_alias ? call : "null", e...);
		return *this;
	}
	template <class F, class G, class... E> class_ &def(mk::InitFact<F, G> const &i, E const &...e)
	{
		using S = mk::Sig<F>;
		using P = typename std::remove_pointer<typename S::ret>::type;
		using Q = typename std::remove_pointer<typename mk::Sig<G>::ret>::type;
		bool us = mine() && mk::AllUsable<typename S::args>::get() && mk::AllCopyable<typename S::args>::value;
		std::string call = factory<P>(i.f, mk::instance<P>()), acall = factory<Q>(i.g, mk::alias_instance<Q>());
		if( !mk::instance<T>() ) mk::instance<T>() = conv<T>(mk::instance<P>());
		rec("two_factories", us, mk::Names<typename S::args>::get(), call, acall, e...);
		return *this;
	}

	template <class C, class D, class... E> class_ &def_readwrite(mk::nm const &n, D C::*m, E const &...e)
	{
		static_assert(std::is_same<C, T>::value || std::is_base_of<C, T>::value, "def_readwrite() requires a class member (or base class member)");
		static_assert(std::is_function<D>::value || std::is_assignable<D &, D const &>::value, "def_readwrite() of a member that can not be assigned");
		return field(n, m, "readwrite");
	}
	template <class C, class D, class... E> class_ &def_readonly(mk::nm const &n, D C::*m, E const &...e)
	{
		static_assert(std::is_same<C, T>::value || std::is_base_of<C, T>::value, "def_readonly() requires a class member (or base class member)");
		return field(n, m, "readonly");
	}
	template <class D, class... E> class_ &def_readwrite_static(mk::nm const &n, D *, E const &...) { mk::Ev("field").str("cls", cname).str("name", n.s).str("access", "static_readwrite").str("type", mk::tn<D>()).num("off", -1); return *this; }
	template <class D, class... E> class_ &def_readonly_static(mk::nm const &n, D *, E const &...) { mk::Ev("field").str("cls", cname).str("name", n.s).str("access", "static_readonly").str("type", mk::tn<D>()).num("off", -1); return *this; }
	template <class G, class S, class... E> class_ &def_property(mk::nm const &n, G const &g, S const &, E const &...) { return prop(n, g, "readwrite"); }
	template <class G, class... E> class_ &def_property_readonly(mk::nm const &n, G const &g, E const &...) { return prop(n, g, "readonly"); }

private:
	static bool mine() { return mk::tn<T>().compare(0, 5, "std::") != 0; } // members of standard classes are registered but never called
	template <class X, class Y> static X *conv(Y *y, typename std::enable_if<std::is_convertible<Y *, X *>::value>::type * = nullptr) { return y; }
	template <class X, class Y> static X *conv(Y *, typename std::enable_if<!std::is_convertible<Y *, X *>::value>::type * = nullptr) { return nullptr; }

	template <class G> class_ &prop(mk::nm const &n, G const &g, char const *access)
	{
		using S = mk::Sig<typename std::decay<G>::type>;
		using R = typename S::ret;
		long off = -1;
		T *o = mk::Obj<T, true>::ok() ? mk::Obj<T, true>::get() : nullptr;
		if( o ) off = propoff<R>(g, o, std::is_reference<R>{});
		mk::Ev("field").str("cls", cname).str("scope", path).str("name", n.s).str("access", access).str("type", mk::tn<typename std::remove_const<typename std::remove_reference<R>::type>::type>()).num("off", off).str("file", mk::base(n.file));
		return *this;
	}
	template <class R, class G> static long propoff(G const &g, T *o, std::true_type) { return long(reinterpret_cast<char const *>(std::addressof(g(*o))) - reinterpret_cast<char const *>(o)); }
	template <class R, class G> static long propoff(G const &, T *, std::false_type) { return -1; }

	template <class D, class C> class_ &field(mk::nm const &n, D C::*m, char const *access)
	{
		T *o = mk::raw_object<T>();
		long off = -1;
		off = long(reinterpret_cast<char const volatile *>(std::addressof(o->*static_cast<D T::*>(m))) - reinterpret_cast<char const volatile *>(o));
		mk::Ev("field").str("cls", cname).str("scope", path).str("name", n.s).str("access", access).str("type", mk::tn<D>()).num("off", off).str("file", mk::base(n.file));
		return *this;
	}

	template <class... E> void rec(char const *kind, bool us, std::vector<std::string> const &types, std::string const &call, std::string const &acall, E const &...e)
	{
		mk::Extras x;
		x.all(e...);
		mk::Ev v("init");
		v.str("cls", cname).str("scope", path).str("kind", kind).list("types", types).raw("call", call).raw("acall", acall).num("us", us);
		x.write(v);
	}

	template <class X, class... A> static std::string ctor(std::true_type, X *&keep)
	{
		return mk::Call<void, int, std::tuple<mk::tag<A>...> >::run([&](auto &&...a) { X *p = new X(std::forward<decltype(a)>(a)...); if( !keep ) keep = p; return 0; });
	}
	template <class X, class... A> static std::string ctor(std::false_type, X *&) { return "null"; }

	template <class P, class F> static std::string factory(F f, P *&keep)
	{
		using S = mk::Sig<F>;
		if( !mine() || !mk::AllUsable<typename S::args>::get() ) return "null";
		return mk::Run<mk::AllCopyable<typename S::args>::value>::template go<FS<S>, F>([&](auto &&...a) { P *p = f(std::forward<decltype(a)>(a)...); if( !keep ) keep = p; return 0; });
	}
	template <class S> struct FS { using ret = int; using args = typename S::args; };

	template <class F, class... E> class_ &def_(mk::nm const &n, F &&f, char const *kind, E const &...e)
	{
		using D = typename std::decay<F>::type;
		using S = mk::Sig<D>;
		mk::Extras x;
		x.all(e...);
		T *o = mk::Obj<T, true>::ok() ? mk::Obj<T, true>::get() : nullptr;
		using Slf = typename mk::SelfOf<T, typename S::args, S::member>::type; // a function of a base that takes the object as first argument gets this object
		Slf *bkeep = mk::instance<Slf>();
		bool const up = kind[0] == 'd' && !std::is_same<Slf, T>::value;
		if( up && o ) mk::instance<Slf>() = o;
		std::string call = mine() ? mk::invoke<T>(D(f), o) : "null", ocall = "null";
		if( has_alias && mk::alias_instance<Alias>() ) {
			T *keep = mk::instance<T>();
			mk::instance<T>() = mk::alias_instance<Alias>();
			if( up ) mk::instance<Slf>() = mk::instance<T>();
			mk::overriding() = true;
			ocall = mk::invoke<T>(D(f), static_cast<T *>(mk::alias_instance<Alias>()));
			mk::overriding() = false;
			mk::instance<T>() = keep;
		}
		if( up ) mk::instance<Slf>() = bkeep;
		mk::Ev v("method");
		v.str("cls", cname).str("scope", path).str("kind", kind).str("name", n.s).str("file", mk::base(n.file)).list("types", mk::Names<typename S::args>::get());
		v.str("ret", mk::tn<typename S::ret>()).num("ptr", S::member).num("const", S::cst).raw("call", call).raw("ocall", ocall);
		v.num("us", mine() && (!S::member || o) && mk::AllUsable<typename S::args>::get() && mk::AllCopyable<typename S::args>::value);
		x.write(v);
		return *this;
	}
};

// ---------------------------------------------------------------------------------------------------------------- enums
template <class T> class enum_ : public object
{
public:
	std::string cname;
	template <class... E> enum_(handle const &scope, mk::nm const &n, E const &...e) : cname(mk::tn<T>())
	{
		static_assert(std::is_enum<T>::value, "enum_ of a type that is not enum");
		path = scope.path.empty() ? n.s : scope.path + "." + n.s;
		mk::Extras x;
		x.all(e...);
		mk::Ev v("enum");
		v.str("cpp", cname).str("scope", scope.path).str("name", n.s).str("file", mk::base(n.file));
		x.write(v);
	}
	enum_ &value(char const *name, T v, char const *doc = nullptr) { mk::Ev("value").str("cls", cname).str("name", name).str("val", std::to_string(+static_cast<typename std::underlying_type<T>::type>(v))); return *this; }
	enum_ &export_values() { mk::Ev("export").str("cls", cname); return *this; }
	template <class... A> enum_ &def(A &&...) { mk::Ev("enumdef").str("cls", cname); return *this; }
};

} // namespace pybind11

namespace py_mock_ns {}

#define PYBIND11_MODULE(name, variable)                                      \
	static void mk_init_##name(::pybind11::module_ &);                       \
	int main()                                                               \
	{                                                                        \
		::pybind11::module_ m;                                               \
		try {                                                                \
			::pybind11::mk::Ev("module").str("name", #name);                 \
			mk_init_##name(m);                                               \
			::pybind11::mk::Ev("end").str("status", "ok");                   \
		}                                                                    \
		catch( std::exception & e ) {                                        \
			::pybind11::mk::Ev("end").str("status", std::string("throw ") + e.what()); \
			return 0;                                                        \
		}                                                                    \
		return 0;                                                            \
	}                                                                        \
	void mk_init_##name(::pybind11::module_ &variable)
