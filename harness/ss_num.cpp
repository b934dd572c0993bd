// The sparse scalar. in: a at 0, b at STRIDE, c at 2*STRIDE, scalar at 3*STRIDE; ii: name masks of a, b, c, index, mask of names to
// report. out: result at 0, operands after the call at STRIDE..; oo: sizes.
#include "ss.h"
#ifndef HJ_SHARED
#define A T a = ld(in, ii[0]);
#define AL A
#define B T b = ld(in + STRIDE, ii[1]);
#define C T c = ld(in + 2 * STRIDE, ii[2]);
#endif
#define S const HJ_SCALAR s = in[3 * STRIDE];
#define PA put(a, out + STRIDE, oo + 1, ii[4]);
#define PB put(b, out + 2 * STRIDE, oo + 2, ii[4]);
#define PC put(c, out + 3 * STRIDE, oo + 3, ii[4]);
#define R put(r, out, oo, ii[4]);
#define U1(name, expr) ENTRY(name) { A const T &ca = a; (void)ca; { const T r = (expr); R } PA }
#define US(name, expr) ENTRY(name) { A S { const T r = (expr); R } PA }
#define B2(name, expr) ENTRY(name) { A B { const T r = (expr); R } PA PB }
#define B3(name, expr) ENTRY(name) { A B C { const T r = (expr); R } PA PB PC }
#ifdef HJ_ARITH
U1(neg, -a)
B2(add, a + b)
B2(sub, a - b)
B2(mul, a *b)
B2(div, a / b)
US(add_ts, a + s)
US(sub_ts, a - s)
US(mul_ts, a *s)
US(div_ts, a / s)
US(add_st, s + a)
US(sub_st, s - a)
US(mul_st, s *a)
US(div_st, s / a)
U1(add_aa, a + a)
U1(sub_aa, a - a)
U1(mul_aa, a *a)
U1(div_aa, a / a)
#define I2(name, op) ENTRY(name) { AL B T &r = (a op b); oo[8] = &r == &a; put(a, out, oo, ii[4]); PB }
I2(iadd, +=)
I2(isub, -=)
I2(imul, *=)
I2(idiv, /=)
#define IS(name, op) ENTRY(name) { AL S T &r = (a op s); oo[8] = &r == &a; put(a, out, oo, ii[4]); }
IS(iadd_s, +=)
IS(isub_s, -=)
IS(imul_s, *=)
IS(idiv_s, /=)
#define IX(name, op) ENTRY(name) { AL T &r = (a op a); oo[8] = &r == &a; put(a, out, oo, ii[4]); }
IX(iadd_x, +=)
IX(isub_x, -=)
IX(imul_x, *=)
IX(idiv_x, /=)
#endif
#ifdef HJ_MAKE
ENTRY(constant) { const T r = T::constant(in[0]); R }
ENTRY(value) { const T r = in[0]; R }
ENTRY(variable) { const T r = T::variable(NAMES[ii[3]], in[0]); R }
ENTRY(fromdata) { A const T r = a; R PA }
ENTRY(dfl) { const T r = T(); R }
// copies: later changes to one do not show in the other; assignment over an existing number; self-assignment; move
ENTRY(copy) { A B { T r = a; r += b; R } PA PB }
ENTRY(assign) { A B { T r = b; r = a; r *= b; R } PA PB }
ENTRY(selfassign) { A T &q = a; a = q; put(a, out, oo, ii[4]); }
ENTRY(move) { A B { T r = b; T t = a; r = std::move(t); R } PA PB }
#endif
#ifdef HJ_FUNC
#define F1(name) U1(name, ca.name()) U1(name##_f, name(ca))
F1(sqrt) F1(cbrt) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh)
F1(atanh) F1(exp) F1(log) F1(log2) F1(log10) F1(abs)
U1(reciprocal, ca.reciprocal())
US(pow, a.pow(s))
US(pow_f, pow(a, s))
ENTRY(pow_i) { A { const T r = pow(a, (hj::index)ii[3]); R } PA }
US(log_b, a.log(s))
B2(atan2, a.atan2(b))
B2(atan2_f, atan2(a, b))
B2(hypot, T::hypot(a, b))
B2(hypot_f, hypot(a, b))
B3(hypot3, T::hypot(a, b, c))
B3(hypot3_f, hypot(a, b, c))
U1(atan2_aa, ca.atan2(ca))
U1(hypot_aa, T::hypot(ca, ca))
U1(hypot3_aaa, T::hypot(ca, ca, ca))
B2(hypot3_aab, T::hypot(a, a, b))
B2(hypot3_aba, T::hypot(a, b, a))
B2(hypot3_abb, T::hypot(a, b, b))
#endif
#ifdef HJ_MISC
ENTRY(cmp) { A B oo[0] = a == b; oo[1] = a != b; oo[2] = a < b; oo[3] = a > b; oo[4] = a <= b; oo[5] = a >= b; }
ENTRY(cmp_ts) { A S oo[0] = a == s; oo[1] = a != s; oo[2] = a < s; oo[3] = a > s; oo[4] = a <= s; oo[5] = a >= s; }
ENTRY(cmp_st) { A S oo[0] = s == a; oo[1] = s != a; oo[2] = s < a; oo[3] = s > a; oo[4] = s <= a; oo[5] = s >= a; }
ENTRY(eval)
{
    A
    T::Data d;
    for (L k = 0; k < NN; k++)
        if (ii[1] >> k & 1)
            d[NAMES[k]] = in[STRIDE + 1 + k];
    const T &ca = a;
    out[0] = ca.eval(d);
    PA
}
#endif
