// Eigen's entry-wise functions, reductions by comparison, constants and linear solvers over numbers. Layout as in eig.cpp.
#define HJ_EIGEN
#define EIGEN_NO_CPUID
#define HJ_GEOM
#include <Eigen/Dense>
#include "hj.h"
#define NS 30
#define HJ_COMMA ,
#if HJ_DIM > 0
typedef Eigen::Matrix<T, HJ_DIM, HJ_DIM> M;
typedef Eigen::Matrix<T, HJ_DIM, 1> V;
#else
typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> M;
typedef Eigen::Matrix<T, Eigen::Dynamic, 1> V;
#endif
static inline V getv(const double *in, L q, L n, L r) { V x(r); for (L i = 0; i < r; i++) x(i) = ld(in + NS * (q + i), n); return x; }
static inline M getm(const double *in, L q, L n, L r) { M x(r, r); for (L i = 0; i < r; i++) for (L j = 0; j < r; j++) x(i, j) = ld(in + NS * (q + i * r + j), n); return x; }
static inline void put1(const T &x, double *out, L *oo, L q)
{
    oo[q] = x.size();
    for (L k = 0; k < x.data_length() && k < NS; k++)
        out[NS * q + k] = x.ptr()[k];
}
template <typename X> static inline void putm(const X &x, double *out, L *oo)
{
    for (L i = 0; i < x.rows(); i++)
        for (L j = 0; j < x.cols(); j++)
            put1(x(i, j), out, oo, i * x.cols() + j);
}
#define VV const V a = getv(in, 0, ii[0], ii[1]), b = getv(in, 100, ii[0], ii[1]); const double s = in[NS * 200]; (void)s;
#define VE(name, expr) ENTRY(name) { VV const V r = expr; putm(r, out, oo); }
#define SE(name, expr) ENTRY(name) { VV const T r = expr; put1(r, out, oo, 0); }
#define IE(name, expr) ENTRY(name) { VV oo[0] = (expr); }
#define FE(name) VE(f_##name, a.array().name().matrix())
#if HJ_PART == 0
FE(abs) FE(sqrt) FE(sin) FE(cos) FE(tan) FE(asin) FE(acos) FE(atan) FE(sinh) FE(cosh) FE(tanh) FE(exp) FE(log) FE(log10)
FE(inverse) FE(square) FE(cube) FE(abs2)
VE(m_abs, a.cwiseAbs())
VE(m_sqrt, a.cwiseSqrt())
VE(m_inverse, a.cwiseInverse())
VE(m_abs2, a.cwiseAbs2())
VE(amul, (a.array() * b.array()).matrix())
VE(adiv, (a.array() / b.array()).matrix())
VE(quot, a.cwiseQuotient(b))
VE(vmul_t, a *b(0))
VE(vdiv_t, a / b(0))
SE(maxc, a.maxCoeff())
SE(minc, a.minCoeff())
SE(norm1, a.template lpNorm<1>())
SE(norminf, a.template lpNorm<Eigen::Infinity>())
SE(mean, a.mean())
VE(cmax, a.cwiseMax(b))
VE(cmin, a.cwiseMin(b))
IE(argmax, ({ L k = -1; a.maxCoeff(&k); k; }))
IE(argmin, ({ L k = -1; a.minCoeff(&k); k; }))
IE(clt, (a.array() < b.array()).count())
IE(cge, (a.array() >= b.array()).count())
IE(veq, a == b)
IE(vne, a != b)
VE(constant, V::Constant(ii[1], b(0)))
VE(assign, ({ V r(a); r(0) = b(0); r.tail(ii[1] - 1) = b.tail(ii[1] - 1); r; }))
VE(reversed, a.reverse())
VE(swapped, ({ V r(a), t(b); r.swap(t); r; }))
VE(normalize, ({ V r(a); r.normalize(); r; }))
VE(unary, a.unaryExpr([](const T &x) { return x * x; }))
VE(select, (a.array() < b.array()).select(a, b))
#endif
#if HJ_PART == 1
VE(zero, V::Zero(ii[1]))
VE(ones, V::Ones(ii[1]))
VE(onesadd, a + V::Ones(ii[1]))
VE(setzero, ({ V r(a); r.setZero(); r; }))
VE(casted, Eigen::Matrix<double HJ_COMMA V::RowsAtCompileTime HJ_COMMA 1>(Eigen::Matrix<double HJ_COMMA V::RowsAtCompileTime HJ_COMMA 1>::Constant(ii[1], s)).template cast<T>())
ENTRY(identity) { const M r = M::Identity(ii[1], ii[1]); putm(r, out, oo); }
SE(eps, T(Eigen::NumTraits<T>::epsilon()))
SE(highest, T(Eigen::NumTraits<T>::highest()))
SE(lowest, T(Eigen::NumTraits<T>::lowest()))
SE(lmin, T((std::numeric_limits<T>::min)()))
SE(lmax, T((std::numeric_limits<T>::max)()))
SE(leps, T(std::numeric_limits<T>::epsilon()))
SE(linf, T(std::numeric_limits<T>::infinity()))
SE(prec, T(Eigen::NumTraits<T>::dummy_precision()))
#endif
#if HJ_PART >= 2
#define MV const M m = getm(in, 0, ii[0], ii[1]); const V b = getv(in, 100, ii[0], ii[1]);
#define LS(name, expr) ENTRY(name) { MV const V r = expr; putm(r, out, oo); }
#if HJ_PART == 3
LS(llt, m.llt().solve(b))
LS(ldlt, m.ldlt().solve(b))
LS(hqr, m.householderQr().solve(b))
#else
LS(plu, m.partialPivLu().solve(b))
LS(upper, m.template triangularView<Eigen::Upper>().solve(b))
LS(lower, m.template triangularView<Eigen::Lower>().solve(b))
LS(unitlower, m.template triangularView<Eigen::UnitLower>().solve(b))
LS(inv, m.inverse() * b)
ENTRY(pludet) { MV const T r = m.partialPivLu().determinant(); put1(r, out, oo, 0); }
ENTRY(dettr) { MV const T r = m.transpose().determinant(); put1(r, out, oo, 0); }
#endif
#endif
