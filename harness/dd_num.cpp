// Arithmetic, compound assignment and functions of one DDScalar type. in: a at 0, b at STRIDE, c at 2*STRIDE, scalar s at
// 3*STRIDE; ii: sizes of a, b, c, index, index. out: result at 0, a, b, c after the call at STRIDE.. ; oo likewise by 2.
#include "hj.h"
#ifndef HJ_SHARED
#define A T a = ld(in, ii[0]);
#define AL A
#define B T b = ld(in + STRIDE, ii[1]);
#define C T c = ld(in + 2 * STRIDE, ii[2]);
#endif
#define S const HJ_SCALAR s = in[3 * STRIDE];
#define PA put(a, out + STRIDE, oo + 2);
#define PB put(b, out + 2 * STRIDE, oo + 4);
#define PC put(c, out + 3 * STRIDE, oo + 6);
#define U1(name, expr) ENTRY(name) { A const T &ca = a; (void)ca; { const T r = (expr); put(r, out, oo); } PA }
#define US(name, expr) ENTRY(name) { A S { const T r = (expr); put(r, out, oo); } PA }
#define B2(name, expr) ENTRY(name) { A B { const T r = (expr); put(r, out, oo); } PA PB }
#define B3(name, expr) ENTRY(name) { A B C { const T r = (expr); put(r, out, oo); } PA PB PC }

#ifdef HJ_ARITH
U1(neg, -a)
B2(add, a + b)
B2(sub, a - b)
B2(mul, a *b)
B2(div, a / b)
US(add_ts, a + s)
US(sub_ts, a - s)
US(mul_ts, a *s)
US(div_ts, a / s)
US(add_st, s + a)
US(sub_st, s - a)
US(mul_st, s *a)
US(div_st, s / a)
// both operands the same object
U1(add_aa, a + a)
U1(sub_aa, a - a)
U1(mul_aa, a *a)
U1(div_aa, a / a)
#endif
#ifdef HJ_COMP
#define I2(name, op) ENTRY(name) { AL B T &r = (a op b); oo[8] = &r == &a; put(a, out, oo); PB }
I2(iadd, +=)
I2(isub, -=)
I2(imul, *=)
I2(idiv, /=)
#define IS(name, op) ENTRY(name) { AL HJ_SCALAR s = in[3 * STRIDE]; T &r = (a op s); oo[8] = &r == &a; put(a, out, oo); out[STRIDE] = s; }
IS(iadd_s, +=)
IS(isub_s, -=)
IS(imul_s, *=)
IS(idiv_s, /=)
// the right-hand side is the number itself, or a reference to one of its entries (index ii[3])
#define IX(name, op) ENTRY(name) { AL T &r = (a op a); oo[8] = &r == &a; put(a, out, oo); }
IX(iadd_x, +=)
IX(isub_x, -=)
IX(imul_x, *=)
IX(idiv_x, /=)
#define IE(name, op) ENTRY(name) { AL T &r = (a op a.ptr()[ii[3]]); oo[8] = &r == &a; put(a, out, oo); }
IE(iadd_e, +=)
IE(isub_e, -=)
IE(imul_e, *=)
IE(idiv_e, /=)
#endif
#ifdef HJ_FUNC
#define F1(name) U1(name, ca.name()) U1(name##_f, name(ca))
F1(sqrt) F1(cbrt) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh)
F1(atanh) F1(exp) F1(log) F1(log2) F1(log10) F1(abs)
U1(reciprocal, ca.reciprocal())
US(pow, a.pow(s))
US(pow_f, pow(a, (double)s))
ENTRY(pow_i) { A { const T r = pow(a, (hj::index)ii[3]); put(r, out, oo); } PA }
US(log_b, a.log(s))
B2(atan2, a.atan2(b))
B2(atan2_f, atan2(a, b))
B2(hypot, T::hypot(a, b))
B2(hypot_f, hypot(a, b))
B3(hypot3, T::hypot(a, b, c))
B3(hypot3_f, hypot(a, b, c))
U1(atan2_aa, ca.atan2(ca))
U1(hypot_aa, T::hypot(ca, ca))
U1(hypot3_aaa, T::hypot(ca, ca, ca))
B2(hypot3_aab, T::hypot(a, a, b))
B2(hypot3_aba, T::hypot(a, b, a))
B2(hypot3_abb, T::hypot(a, b, b))
ENTRY(cmp)
{
    A B
    oo[0] = a == b; oo[1] = a != b; oo[2] = a < b; oo[3] = a > b; oo[4] = a <= b; oo[5] = a >= b;
}
ENTRY(cmp_ts)
{
    A S
    oo[0] = a == s; oo[1] = a != s; oo[2] = a < s; oo[3] = a > s; oo[4] = a <= s; oo[5] = a >= s;
}
ENTRY(cmp_st)
{
    A S
    oo[0] = s == a; oo[1] = s != a; oo[2] = s < a; oo[3] = s > a; oo[4] = s <= a; oo[5] = s >= a;
}
#endif
