// Shared by the sparse-scalar entry points. Names are picked from a fixed table by a bit mask.
#pragma once
#ifdef HJ_EIGEN
#include <Eigen/Core>
#endif
#include <stdexcept>
#include <hyperjet/hyperjet.h>
namespace hj = hyperjet;
#ifndef HJ_SCALAR
#define HJ_SCALAR double
#endif
typedef hj::SScalar<HJ_SCALAR> T;
typedef long L;
#define NN 24
#define STRIDE 40
#define ENTRY(name) extern "C" __attribute__((noinline, used)) void hjx_##name(const double *in, double *out, const L *ii, L *oo)
static const char *const NAMES[NN] = {"x", "y", "a_rather_long_variable_name", "", "a_rather_long_variable_namf", "xy", "yx", "x1",
                                      "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "n10", "n11", "n12", "n13", "n14", "n15", "n16",
                                      "an_even_longer_variable_name_that_needs_the_heap"};
static inline T ld(const double *p, L mask)
{
    T::Data d;
    for (L k = 0; k < NN; k++)
        if (mask >> k & 1)
            d[NAMES[k]] = p[1 + k];
    return T(p[0], d);
}
static inline void put(const T &x, double *out, L *oo, L all)
{
    oo[0] = x.size();
    out[0] = x.f();
    for (L k = 0; k < NN; k++)
        if (all >> k & 1)
            out[1 + k] = x.d(NAMES[k]);
}
#ifdef HJ_SHARED
// Operands that several threads read: built once by hjx_share, used by every later call.
static T *shared[3];
extern "C" __attribute__((noinline, used)) void hjx_share(const double *in, double *, const L *ii, L *)
{
    for (L q = 0; q < 3; q++)
        shared[q] = new T(ld(in + STRIDE * q, ii[q]));
}
#define A T &a = *shared[0];
#define B T &b = *shared[1];
#define C T &c = *shared[2];
#define AL T a = *shared[0];
#endif
