#pragma once
#include "pybind11.h"
namespace pybind11
{
namespace detail
{
enum { OP_L, OP_R, OP_U };
struct self_t {};
struct undefined_t {};
template <int Id, int Ot, typename B, typename L, typename R> struct op_impl;
template <int Id, int Ot, typename L, typename R> struct op_
{
    template <typename T, typename... O, typename... E> void execute(class_<T, O...> &cl, const E &...e) const
    {
        using LT = std::conditional_t<std::is_same_v<L, self_t>, T, L>;
        using RT = std::conditional_t<std::is_same_v<R, self_t>, T, R>;
        using op = op_impl<Id, Ot, T, LT, RT>;
        cl.def(op::name(), &op::execute, is_operator(), e...);
    }
};
static const self_t self = self_t();
#define HJ_STUB_BINARY(num, id, rid, op, expr)                                                                                          \
    template <typename B, typename L, typename R> struct op_impl<num, OP_L, B, L, R>                                                    \
    { static const char *name() { return "__" #id "__"; } static auto execute(const L &l, const R &r) -> decltype(expr) { return (expr); } }; \
    template <typename B, typename L, typename R> struct op_impl<num, OP_R, B, L, R>                                                    \
    { static const char *name() { return "__" #rid "__"; } static auto execute(const R &r, const L &l) -> decltype(expr) { return (expr); } }; \
    inline op_<num, OP_L, self_t, self_t> op(const self_t &, const self_t &) { return {}; }                                             \
    template <typename T> op_<num, OP_L, self_t, T> op(const self_t &, const T &) { return {}; }                                        \
    template <typename T> op_<num, OP_R, T, self_t> op(const T &, const self_t &) { return {}; }
#define HJ_STUB_INPLACE(num, id, op, expr)                                                                                              \
    template <typename B, typename L, typename R> struct op_impl<num, OP_L, B, L, R>                                                    \
    { static const char *name() { return "__" #id "__"; } static auto execute(L &l, const R &r) -> decltype(expr) { return expr; } };   \
    template <typename T> op_<num, OP_L, self_t, T> op(const self_t &, const T &) { return {}; }
#define HJ_STUB_UNARY(num, id, op, expr)                                                                                                \
    template <typename B, typename L> struct op_impl<num, OP_U, B, L, undefined_t>                                                      \
    { static const char *name() { return "__" #id "__"; } static auto execute(const L &l) -> decltype(expr) { return expr; } };         \
    inline op_<num, OP_U, self_t, undefined_t> op(const self_t &) { return {}; }
HJ_STUB_BINARY(0, sub, rsub, operator-, l - r)
HJ_STUB_BINARY(1, add, radd, operator+, l + r)
HJ_STUB_BINARY(2, mul, rmul, operator*, l *r)
HJ_STUB_BINARY(3, truediv, rtruediv, operator/, l / r)
HJ_STUB_BINARY(4, eq, eq, operator==, l == r)
HJ_STUB_BINARY(5, ne, ne, operator!=, l != r)
HJ_STUB_BINARY(6, gt, lt, operator>, l > r)
HJ_STUB_BINARY(7, ge, le, operator>=, l >= r)
HJ_STUB_BINARY(8, lt, gt, operator<, l < r)
HJ_STUB_BINARY(9, le, ge, operator<=, l <= r)
HJ_STUB_INPLACE(10, iadd, operator+=, l += r)
HJ_STUB_INPLACE(11, isub, operator-=, l -= r)
HJ_STUB_INPLACE(12, imul, operator*=, l *= r)
HJ_STUB_INPLACE(13, itruediv, operator/=, l /= r)
HJ_STUB_UNARY(14, neg, operator-, -l)
HJ_STUB_UNARY(15, pos, operator+, +l)
HJ_STUB_UNARY(16, abs, abs, abs(l))
} // namespace detail
using detail::self;
} // namespace pybind11
