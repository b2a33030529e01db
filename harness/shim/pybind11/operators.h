// operators of bound classes
#pragma once
#include "pybind11.h"
namespace pybind11 { namespace {
struct self_t {}; static const self_t self{};
#define PB_BIN(OP, NAME, RNAME) \
struct OP##_f {}; template <class L, class R> struct OP##_op { using is_op = void; template <class T> static void add(class_info& c) { \
    using A = std::conditional_t<std::is_same_v<L, self_t>, T, L>; using B = std::conditional_t<std::is_same_v<R, self_t>, T, R>; \
    if constexpr (std::is_same_v<L, self_t>) c.methods[NAME].push_back(lambda_sig<decltype(&OP##_op::template fwd<A, B>)>::template wrap<>(&OP##_op::template fwd<A, B>)); \
    else c.methods[RNAME].push_back(lambda_sig<decltype(&OP##_op::template bwd<B, A>)>::template wrap<>(&OP##_op::template bwd<B, A>)); } \
    template <class A, class B> static auto fwd(const A& a, const B& b) { return a PB_##OP b; } template <class B, class A> static auto bwd(const B& b, const A& a) { return a PB_##OP b; } };
#define PB_add +
#define PB_sub -
#define PB_mul *
#define PB_div /
#define PB_xor ^
#define PB_eq ==
#define PB_ne !=
template <class R, class... A> struct lambda_sig<R (*)(A...)> { template <class F> static overload wrap(F f) { return make<R, A...>(f); } };
PB_BIN(add, "__add__", "__radd__") PB_BIN(sub, "__sub__", "__rsub__") PB_BIN(mul, "__mul__", "__rmul__") PB_BIN(div, "__truediv__", "__rtruediv__") PB_BIN(xor, "__xor__", "__rxor__") PB_BIN(eq, "__eq__", "__eq__") PB_BIN(ne, "__ne__", "__ne__")
struct neg_op { using is_op = void; template <class T> static void add(class_info& c) { c.methods["__neg__"].push_back(make<decltype(-std::declval<const T&>()), const T&>([](const T& a) { return -a; })); } };
inline neg_op operator-(const self_t&) { return {}; }
#define PB_OPS(SYM, OP) inline OP##_op<self_t, self_t> operator SYM(const self_t&, const self_t&) { return {}; } template <class R> OP##_op<self_t, R> operator SYM(const self_t&, const R&) { return {}; } template <class L> OP##_op<L, self_t> operator SYM(const L&, const self_t&) { return {}; }
PB_OPS(+, add) PB_OPS(-, sub) PB_OPS(*, mul) PB_OPS(/, div) PB_OPS(^, xor) PB_OPS(==, eq) PB_OPS(!=, ne)
template <class OP> struct inplace { using is_op = void; template <class T> static void add(class_info&) {} };
} }
