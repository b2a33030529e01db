// container conversions, for the files that include this header only
#pragma once
#include "pybind11.h"
#include <array>
namespace pybind11 { namespace {
template <class T, class A> struct caster<std::vector<T, A>> {
    using V = std::vector<T, A>;
    static bool load(object& o, bool c, V*& out, std::shared_ptr<void>& keep) { if (o.k != object::List && o.k != object::Tuple) return false; V v; for (auto& x : o.items) { T* p; std::shared_ptr<void> k; if (!caster<T>::load(x, c, p, k)) return false; v.push_back(*p); } return hold<V>(std::move(v), out, keep); }
    static object cast(const V& v) { object o = object::of(object::List); for (const auto& x : v) o.items.push_back(to_py(static_cast<const T&>(x))); return o; }
};
template <class T, size_t N> struct caster<std::array<T, N>> {
    using V = std::array<T, N>;
    static bool load(object& o, bool c, V*& out, std::shared_ptr<void>& keep) { if ((o.k != object::List && o.k != object::Tuple) || o.items.size() != N) return false; V v; for (size_t i = 0; i < N; i++) { T* p; std::shared_ptr<void> k; if (!caster<T>::load(o.items[i], c, p, k)) return false; v[i] = *p; } return hold<V>(std::move(v), out, keep); }
    static object cast(const V& v) { object o = object::of(object::List); for (const auto& x : v) o.items.push_back(to_py(x)); return o; }
};
template <class K, class T, class C, class A> struct caster<std::map<K, T, C, A>> {
    using V = std::map<K, T, C, A>;
    static bool load(object& o, bool c, V*& out, std::shared_ptr<void>& keep) { if (o.k != object::Dict) return false; V v; for (size_t i = 0; i + 1 < o.items.size(); i += 2) { K* a; T* b; std::shared_ptr<void> ka, kb; if (!caster<K>::load(o.items[i], c, a, ka) || !caster<T>::load(o.items[i + 1], c, b, kb)) return false; v.emplace(*a, *b); } return hold<V>(std::move(v), out, keep); }
    static object cast(const V& v) { object o = object::of(object::Dict); for (const auto& x : v) { o.items.push_back(to_py(x.first)); o.items.push_back(to_py(x.second)); } return o; }
};
template <class T> struct caster<std::optional<T>> {
    using V = std::optional<T>;
    static bool load(object& o, bool c, V*& out, std::shared_ptr<void>& keep) { if (o.k == object::None) return hold<V>(V(), out, keep); T* p; std::shared_ptr<void> k; return caster<T>::load(o, c, p, k) && hold<V>(V(*p), out, keep); }
    static object cast(const V& v) { return v ? to_py(*v) : object(); }
};
} }
