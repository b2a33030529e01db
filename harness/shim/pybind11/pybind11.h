// A stand-in for pybind11 (which is not installed here): it keeps the registrations a binding makes in tables and models
// what Python would do with them -- dynamic values, overload resolution in two passes, default arguments, conversions of
// registered classes and enumerations, and, only in a file that includes pybind11/stl.h, of containers.
#pragma once
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>
namespace pybind11 {
class module_;
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
// a Python value
struct object {
    enum Kind { None, Bool, Int, Float, Str, List, Tuple, Dict, Inst, Enum } k = None;
    long long i = 0; double d = 0; std::string s; std::vector<object> items; std::shared_ptr<void> p; std::type_index t{typeid(void)};
    static object of(Kind k) { object o; o.k = k; return o; }
};
using tuple = object; using list = object; using dict = object; using handle = object; using none = object;
using Args = std::vector<object>;
struct overload { size_t nargs = 0; std::vector<std::optional<object>> defaults; std::vector<std::string> names; std::function<bool(Args&, bool, object&)> call; };
struct class_info { std::string name; std::type_index type{typeid(void)}; bool isEnum = false; std::map<std::string, std::vector<overload>> statics, methods; std::map<std::string, overload> getters, setters; std::map<std::string, long long> values; };
class module_ {
public:
    std::map<std::string, std::shared_ptr<class_info>> classes; std::map<std::type_index, std::shared_ptr<class_info>> types; std::map<std::string, std::vector<overload>> functions;
    static module_*& current() { static module_* m = nullptr; return m; }
    static bool known(std::type_index t) { return current() && current()->types.count(t); }
    std::shared_ptr<class_info> add(const std::string& n, std::type_index t, bool isEnum) { if (types.count(t)) throw std::runtime_error("generic_type: type \"" + n + "\" is already registered!"); auto c = std::make_shared<class_info>(); c->name = n; c->type = t; c->isEnum = isEnum; classes[n] = c; types[t] = c; return c; }
    template <class F, class... X> module_& def(const char* n, F&& f, const X&... x);
    module_& attr(const char*) { return *this; }
    template <class T> module_& operator=(const T&) { return *this; }
    module_() = default; module_(const module_&) = default;
    const char* doc_ = ""; module_& doc() { return *this; }
};
// overload resolution as Python sees it: every overload without conversions first, then with them
inline object dispatch(const std::vector<overload>& os, const std::string& what, const Args& given) {
    for (int pass = 0; pass < 2; pass++)
        for (const overload& o : os) {
            if (given.size() > o.nargs) continue;
            Args a = given; bool ok = true;
            for (size_t i = a.size(); i < o.nargs; i++) { if (i < o.defaults.size() && o.defaults[i]) a.push_back(*o.defaults[i]); else { ok = false; break; } }
            object r; if (ok && o.call(a, pass == 1, r)) return r;
        }
    throw type_error(what + "(): incompatible function arguments");
}
enum class return_value_policy : uint8_t { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct module_local { explicit module_local(bool = true) {} };
struct dynamic_attr {}; struct is_method {}; struct kw_only {}; struct pos_only {}; struct arithmetic {}; struct buffer_protocol {}; struct is_operator {}; struct is_final {}; struct multiple_inheritance {};
template <class...> struct call_guard {}; struct gil_scoped_release {}; struct gil_scoped_acquire {};
template <size_t, size_t> struct keep_alive {};
struct arg_v { std::string name; std::optional<object> value; };
// The conversions of this file only: another file may have included other headers.
namespace {
template <class T, class = void> struct caster {   // a registered class or enumeration
    static bool load(object& o, bool, T*& out, std::shared_ptr<void>&) { if ((o.k != object::Inst && o.k != object::Enum) || o.t != std::type_index(typeid(T)) || !module_::known(o.t)) return false; out = static_cast<T*>(o.p.get()); return true; }
    static object cast(const T& v) { std::type_index t(typeid(T)); if (!module_::known(t)) throw type_error(std::string("Unable to convert function return value to a Python type: ") + typeid(T).name()); object o; o.t = t; o.p = std::make_shared<T>(v); if constexpr (std::is_enum_v<T>) { o.k = object::Enum; o.i = static_cast<long long>(v); } else o.k = object::Inst; return o; }
};
template <class T, class S> bool hold(T v, T*& out, std::shared_ptr<S>& keep) { auto p = std::make_shared<T>(std::move(v)); out = p.get(); keep = p; return true; }
template <> struct caster<bool> { static bool load(object& o, bool, bool*& out, std::shared_ptr<void>& keep) { return o.k == object::Bool && hold<bool>(o.i != 0, out, keep); } static object cast(bool v) { object o = object::of(object::Bool); o.i = v; return o; } };
template <class T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static bool load(object& o, bool, T*& out, std::shared_ptr<void>& keep) { if (o.k != object::Int && o.k != object::Bool) return false; if (o.i < (long long)std::numeric_limits<T>::lowest() || (o.i > 0 && (unsigned long long)o.i > (unsigned long long)std::numeric_limits<T>::max())) return false; return hold<T>((T)o.i, out, keep); }
    static object cast(T v) { object o = object::of(object::Int); o.i = (long long)v; return o; } };
template <class T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static bool load(object& o, bool convert, T*& out, std::shared_ptr<void>& keep) { if (o.k == object::Float) return hold<T>((T)o.d, out, keep); return convert && (o.k == object::Int || o.k == object::Bool) && hold<T>((T)o.i, out, keep); }
    static object cast(T v) { object o = object::of(object::Float); o.d = v; return o; } };
template <> struct caster<std::string> { static bool load(object& o, bool, std::string*& out, std::shared_ptr<void>& keep) { return o.k == object::Str && hold<std::string>(o.s, out, keep); } static object cast(const std::string& v) { object o = object::of(object::Str); o.s = v; return o; } };
template <> struct caster<object> { static bool load(object& o, bool, object*& out, std::shared_ptr<void>& keep) { return hold<object>(o, out, keep); } static object cast(const object& v) { return v; } };
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T, class = void> struct is_container : std::false_type {};
template <class T> object to_py(T&& v) { using B = bare<T>; if constexpr (std::is_same_v<std::decay_t<T>, const char*> || std::is_same_v<std::decay_t<T>, char*>) return caster<std::string>::cast(v); else if constexpr (std::is_pointer_v<B>) { if (!v) return object(); return caster<bare<std::remove_pointer_t<B>>>::cast(*v); } else return caster<B>::cast(v); }
template <class... T> object pack(T&&... v) { object o = object::of(object::Tuple); (o.items.push_back(to_py(std::forward<T>(v))), ...); return o; }
template <class A, class B> struct caster<std::pair<A, B>> {
    static bool load(object& o, bool c, std::pair<A, B>*& out, std::shared_ptr<void>& keep) { if ((o.k != object::Tuple && o.k != object::List) || o.items.size() != 2) return false; A* a; B* b; std::shared_ptr<void> ka, kb; return caster<A>::load(o.items[0], c, a, ka) && caster<B>::load(o.items[1], c, b, kb) && hold<std::pair<A, B>>({*a, *b}, out, keep); }
    static object cast(const std::pair<A, B>& v) { return pack(v.first, v.second); } };
template <class... T> struct caster<std::tuple<T...>> {
    template <size_t... I> static bool load2(object& o, bool c, std::tuple<T...>*& out, std::shared_ptr<void>& keep, std::index_sequence<I...>) { std::tuple<bare<T>*...> p; std::shared_ptr<void> k[sizeof...(T) + 1]; return (caster<bare<T>>::load(o.items[I], c, std::get<I>(p), k[I]) && ...) && hold<std::tuple<T...>>(std::tuple<T...>(*std::get<I>(p)...), out, keep); }
    static bool load(object& o, bool c, std::tuple<T...>*& out, std::shared_ptr<void>& keep) { return (o.k == object::Tuple || o.k == object::List) && o.items.size() == sizeof...(T) && load2(o, c, out, keep, std::index_sequence_for<T...>()); }
    static object cast(const std::tuple<T...>& v) { return std::apply([](auto&... x) { return pack(x...); }, v); } };
template <class A> decltype(auto) pass(bare<std::remove_pointer_t<bare<A>>>* p) { if constexpr (std::is_pointer_v<bare<A>>) return p; else if constexpr (std::is_rvalue_reference_v<A>) return std::move(*p); else return *p; }
template <class R, class... A, class F, size_t... I> bool invoke(F& f, Args& a, bool convert, object& out, std::index_sequence<I...>) {
    std::tuple<bare<std::remove_pointer_t<bare<A>>>*...> p; std::shared_ptr<void> keep[sizeof...(A) + 1]; (void)keep; (void)convert; (void)a;
    if (!(caster<bare<std::remove_pointer_t<bare<A>>>>::load(a[I], convert, std::get<I>(p), keep[I]) && ...)) return false;
    if constexpr (std::is_void_v<R>) { f(pass<A>(std::get<I>(p))...); out = object(); } else out = to_py(f(pass<A>(std::get<I>(p))...));
    return true;
}
template <class R, class... A, class F> overload make(F f) { overload o; o.nargs = sizeof...(A); o.call = [f](Args& a, bool c, object& out) mutable { return invoke<R, A...>(f, a, c, out, std::index_sequence_for<A...>()); }; return o; }
template <class F> struct lambda_sig : lambda_sig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct lambda_sig<R (C::*)(A...) const> { template <class F> static overload wrap(F f) { return make<R, A...>(f); } };
template <class C, class R, class... A> struct lambda_sig<R (C::*)(A...)> { template <class F> static overload wrap(F f) { return make<R, A...>(f); } };
template <class C, class R, class... A> struct lambda_sig<R (C::*)(A...) const noexcept> : lambda_sig<R (C::*)(A...) const> {};
template <class T, class R, class... A> overload wrap(R (*f)(A...)) { return make<R, A...>(f); }
template <class T, class R, class C, class... A> overload wrap(R (C::*f)(A...)) { return make<R, T&, A...>([f](T& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }); }
template <class T, class R, class C, class... A> overload wrap(R (C::*f)(A...) const) { return make<R, const T&, A...>([f](const T& s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); }); }
template <class T, class F, class = std::enable_if_t<std::is_class_v<bare<F>>>> overload wrap(F&& f) { return lambda_sig<bare<F>>::wrap(f); }
struct arg { std::string n; explicit arg(const char* s = "") : n(s) {} arg& noconvert(bool = true) { return *this; } arg& none(bool = true) { return *this; } template <class V> arg_v operator=(V&& v) const { arg_v r{n, {}}; try { r.value = to_py(std::forward<V>(v)); } catch (const type_error&) { throw std::runtime_error("arg(): could not convert default argument '" + n + "' into a Python object (type not registered yet?)"); } return r; } };
inline void extra(overload& o, const arg& a, size_t& at) { o.names.push_back(a.n); o.defaults.resize(std::max(o.defaults.size(), at + 1)); at++; }
inline void extra(overload& o, const arg_v& a, size_t& at) { o.names.push_back(a.name); o.defaults.resize(std::max(o.defaults.size(), at + 1)); o.defaults[at++] = a.value; }
template <class X> void extra(overload&, const X&, size_t&) {}
template <class... X> overload with(overload o, size_t first, const X&... x) { size_t at = first; (void)at; (extra(o, x, at), ...); return o; }
template <class... A> struct init_t {}; template <class... A> init_t<A...> init() { return {}; }
template <class F> struct factory_t { F f; }; template <class F> factory_t<F> init(F f) { return {f}; }
template <class... A> struct overload_cast_t { template <class R> constexpr auto operator()(R (*p)(A...)) const { return p; } template <class R, class C> constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const { return p; } template <class R, class C> constexpr auto operator()(R (C::*p)(A...) const, std::true_type) const { return p; } };
template <class... A> constexpr overload_cast_t<A...> overload_cast{};
static constexpr std::true_type const_{};
template <class... T> object make_tuple(T&&... v) { return pack(std::forward<T>(v)...); }
template <class T> object cast(T&& v) { return to_py(std::forward<T>(v)); }
template <class T, class... Options> class class_ {
public:
    std::shared_ptr<class_info> c;
    template <class... X> class_(module_& m, const char* n, const X&...) : c(m.add(n, typeid(T), false)) { module_::current() = &m; }
    template <class F, class... X> class_& def(const char* n, F&& f, const X&... x) { c->methods[n].push_back(with(wrap<T>(std::forward<F>(f)), 1, x...)); return *this; }
    template <class F, class... X> class_& def_static(const char* n, F&& f, const X&... x) { c->statics[n].push_back(with(wrap<T>(std::forward<F>(f)), 0, x...)); return *this; }
    template <class... A, class... X> class_& def(const init_t<A...>&, const X&... x) { c->statics["__init__"].push_back(with(make<T, A...>([](A... a) { return T(std::forward<A>(a)...); }), 0, x...)); return *this; }
    template <class F, class... X> class_& def(const factory_t<F>& f, const X&... x) { c->statics["__init__"].push_back(with(wrap<T>(f.f), 0, x...)); return *this; }
    template <class O, class = typename O::is_op, class... X> class_& def(const O&, const X&...) { O::template add<T>(*c); return *this; }
    template <class C, class D> class_& def_readwrite(const char* n, D C::*p) { def_readonly(n, p); c->setters[n] = make<void, T&, const D&>([p](T& s, const D& v) { s.*p = v; }); return *this; }
    template <class C, class D, class... X> class_& def_readonly(const char* n, D C::*p, const X&...) {
        // a member which is a registered class is handed out by reference
        overload o; o.nargs = 1; o.call = [p](Args& a, bool cv, object& out) { T* s; std::shared_ptr<void> keep; if (!caster<T>::load(a[0], cv, s, keep)) return false; out = to_py(s->*p); if (out.k == object::Inst) out.p = std::shared_ptr<void>(a[0].p, const_cast<void*>(static_cast<const void*>(&(s->*p)))); return true; };
        c->getters[n] = o; return *this; }
    template <class G, class S, class... X> class_& def_property(const char* n, G&& g, S&& s, const X&...) { c->getters[n] = wrap<T>(std::forward<G>(g)); c->setters[n] = wrap<T>(std::forward<S>(s)); return *this; }
    template <class G, class... X> class_& def_property_readonly(const char* n, G&& g, const X&...) { c->getters[n] = wrap<T>(std::forward<G>(g)); return *this; }
    template <class... X> class_& doc(const X&...) { return *this; }
};
template <class E> class enum_ {
public:
    std::shared_ptr<class_info> c;
    template <class... X> enum_(module_& m, const char* n, const X&...) : c(m.add(n, typeid(E), true)) { module_::current() = &m; }
    template <class... X> enum_& value(const char* n, E v, const X&...) { if (c->values.count(n)) throw std::runtime_error(std::string("enum: element \"") + n + "\" already exists!"); c->values[n] = static_cast<long long>(v); return *this; }
    enum_& export_values() { return *this; }
};
}  // namespace
template <class F, class... X> module_& module_::def(const char* n, F&& f, const X&... x) { functions[n].push_back(with(wrap<void>(std::forward<F>(f)), 0, x...)); return *this; }
}  // namespace pybind11
#define PYBIND11_MODULE(name, var, ...) void pybind11_module_##name(::pybind11::module_& var)
#define PYBIND11_MAKE_OPAQUE(...)
