// Shared by the harness entry points: one number type T per translation unit.
#pragma once
#ifdef HJ_EIGEN
#include <Eigen/Core>
#ifdef HJ_GEOM
#include <Eigen/Geometry>
#endif
#endif
#include <algorithm>
#include <stdexcept>
#include <hyperjet/hyperjet.h>
#include <cstddef>
namespace hj = hyperjet;
#ifndef HJ_SCALAR
#define HJ_SCALAR double
#endif
typedef hj::DDScalar<HJ_ORDER, HJ_SCALAR, HJ_SIZE> T;
typedef long L;
#define STRIDE 2500
#define ENTRY(name) extern "C" __attribute__((noinline, used)) void hjx_##name(const double *in, double *out, const L *ii, L *oo)
// The number of size n whose packed data is p[0..len).
static inline L len_of(L n) { return HJ_ORDER == 1 ? 1 + n : (n + 1) * (n + 2) / 2; }
static inline T ld(const double *p, L n)
{
#if HJ_SIZE < 0
    T::Data d(p, p + len_of(n));
    return T(d, n);
#else
    T::Data d;
    for (L k = 0; k < len_of(n); k++)
        d[k] = p[k];
    return T(d);
#endif
}
static inline void put(const T &x, double *out, L *oo)
{
    oo[0] = x.size();
    oo[1] = x.data_length();
    const HJ_SCALAR *p = x.ptr();
    for (L k = 0; k < x.data_length() && k < STRIDE; k++)
        out[k] = p[k];
}
#ifdef HJ_SHARED
// Operands that several threads read: built once by hjx_share, used by every later call.
static T *shared[3];
extern "C" __attribute__((noinline, used)) void hjx_share(const double *in, double *, const L *ii, L *)
{
    for (L q = 0; q < 3; q++)
        shared[q] = new T(ld(in + STRIDE * q, ii[q]));
}
#define A T &a = *shared[0];
#define B T &b = *shared[1];
#define C T &c = *shared[2];
#define AL T a = *shared[0];
#endif
