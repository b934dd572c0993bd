// Eigen expressions over numbers. Numbers are in[NS*q .. ]: first operand at q = 0.., second at q = 100.., scalar s at in[NS*200].
// ii: size of every number, rows, depth, cols. out: results at NS*q.
#define HJ_EIGEN
#define EIGEN_NO_CPUID
#define HJ_GEOM
#include <Eigen/LU>
#include "hj.h"
#define NS 30
#if HJ_DIM > 0
typedef Eigen::Matrix<T, HJ_DIM, HJ_DIM> M;
typedef Eigen::Matrix<T, HJ_DIM, 1> V;
#else
typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> M;
typedef Eigen::Matrix<T, Eigen::Dynamic, 1> V;
#endif
template <typename X> static inline X get(const double *in, L q, L n, L r, L c)
{
    X x(r, c);
    for (L i = 0; i < r; i++)
        for (L j = 0; j < c; j++)
            x(i, j) = ld(in + NS * (q + i * c + j), n);
    return x;
}
static inline V getv(const double *in, L q, L n, L r) { V x(r); for (L i = 0; i < r; i++) x(i) = ld(in + NS * (q + i), n); return x; }
static inline void put1(const T &x, double *out, L *oo, L q)
{
    oo[q] = x.size();
    for (L k = 0; k < x.data_length() && k < NS; k++)
        out[NS * q + k] = x.ptr()[k];
}
template <typename X> static inline void putm(const X &x, double *out, L *oo)
{
    for (L i = 0; i < x.rows(); i++)
        for (L j = 0; j < x.cols(); j++)
            put1(x(i, j), out, oo, i * x.cols() + j);
}
#define VV const V a = getv(in, 0, ii[0], ii[1]), b = getv(in, 100, ii[0], ii[1]); const double s = in[NS * 200]; (void)s;
#define VE(name, expr) ENTRY(name) { VV const V r = expr; putm(r, out, oo); }
#define VC(name, stmt) ENTRY(name) { VV V r = a; stmt; putm(r, out, oo); }
#define SE(name, expr) ENTRY(name) { VV const T r = expr; put1(r, out, oo, 0); }
VE(vadd, a + b)
VE(vsub, a - b)
VE(vneg, -a)
VE(vmul_s, a *s)
VE(vmul_st, s *a)
VE(vdiv_s, a / s)
VC(viadd, r += b)
VC(visub, r -= b)
VC(vimul_s, r *= s)
VC(vidiv_s, r /= s)
VE(vlin, a * s + b - a / s)
VE(vcw, a.cwiseProduct(b))
SE(vsum, a.sum())
SE(vprod, a.prod())
SE(dot, a.dot(b))
SE(dot_aa, a.dot(a))
SE(sqnorm, a.squaredNorm())
SE(norm, a.norm())
SE(distsq, (a - b).squaredNorm())
#if HJ_DIM == 3 && HJ_SIZE != 100
ENTRY(cross) { VV const V r = a.cross(b); putm(r, out, oo); }
ENTRY(triple) { VV const T r = a.dot(a.cross(b)); put1(r, out, oo, 0); }
#endif
VE(vnormalized, a.normalized())
ENTRY(outer) { VV const M r = a * b.transpose(); putm(r, out, oo); }
ENTRY(mtrace) { const M a = get<M>(in, 0, ii[0], ii[1], ii[1]); const T r = a.trace(); put1(r, out, oo, 0); }
#if HJ_DIM == 2 || HJ_DIM == 3
ENTRY(mdet) { const M a = get<M>(in, 0, ii[0], ii[1], ii[1]); const T r = a.determinant(); put1(r, out, oo, 0); }
ENTRY(minv) { const M a = get<M>(in, 0, ii[0], ii[1], ii[1]); const M r = a.inverse(); putm(r, out, oo); }
#endif
// plain-number vectors and matrices mixed with numbers
typedef Eigen::Matrix<double, V::RowsAtCompileTime, 1> P;
typedef Eigen::Matrix<double, M::RowsAtCompileTime, M::ColsAtCompileTime> PM;
static inline P getp(const double *in, L r) { P x(r); for (L i = 0; i < r; i++) x(i) = in[NS * (100 + i)]; return x; }
static inline PM getpm(const double *in, L r, L c) { PM x(r, c); for (L i = 0; i < r; i++) for (L j = 0; j < c; j++) x(i, j) = in[NS * (100 + i * c + j)]; return x; }
#define VP const V a = getv(in, 0, ii[0], ii[1]); const P p = getp(in, ii[1]);
ENTRY(pcw) { VP const V r = a.cwiseProduct(p); putm(r, out, oo); }
ENTRY(pcw_r) { VP const V r = p.cwiseProduct(a); putm(r, out, oo); }
ENTRY(pquot) { VP const V r = a.cwiseQuotient(p); putm(r, out, oo); }
ENTRY(psum) { VP const V r = a + p; putm(r, out, oo); }
ENTRY(pdiff) { VP const V r = p - a; putm(r, out, oo); }
ENTRY(pdot) { VP const T r = a.dot(p); put1(r, out, oo, 0); }
ENTRY(pdot_r) { VP const T r = p.dot(a); put1(r, out, oo, 0); }
ENTRY(pmv) { const V a = getv(in, 0, ii[0], ii[2]); const PM m = getpm(in, ii[1], ii[2]); const V r = m * a; putm(r, out, oo); }
ENTRY(pmvl) { const V a = getv(in, 0, ii[0], ii[2]); const PM m = getpm(in, ii[1], ii[2]); const V r = m.lazyProduct(a); putm(r, out, oo); }
#define MM const M a = get<M>(in, 0, ii[0], ii[1], ii[2]), b = get<M>(in, 100, ii[0], ii[2], ii[3]); const double s = in[NS * 200]; (void)s;
ENTRY(madd) { const M a = get<M>(in, 0, ii[0], ii[1], ii[2]), b = get<M>(in, 100, ii[0], ii[1], ii[2]); const M r = a + b; putm(r, out, oo); }
ENTRY(msub) { const M a = get<M>(in, 0, ii[0], ii[1], ii[2]), b = get<M>(in, 100, ii[0], ii[1], ii[2]); const M r = a - b; putm(r, out, oo); }
ENTRY(mscale) { MM const M r = s * a; putm(r, out, oo); }
ENTRY(mdiv) { MM const M r = a / s; putm(r, out, oo); }
ENTRY(mtr) { MM const M r = a.transpose(); putm(r, out, oo); }
ENTRY(mm) { MM const M r = a * b; putm(r, out, oo); }
ENTRY(mml) { MM const M r = a.lazyProduct(b); putm(r, out, oo); }
ENTRY(mtm) { const M a = get<M>(in, 0, ii[0], ii[2], ii[1]), b = get<M>(in, 100, ii[0], ii[2], ii[3]); const M r = a.transpose() * b; putm(r, out, oo); }
ENTRY(mv) { const M a = get<M>(in, 0, ii[0], ii[1], ii[2]); const V b = getv(in, 100, ii[0], ii[2]); const V r = a * b; putm(r, out, oo); }
ENTRY(mtv) { const M a = get<M>(in, 0, ii[0], ii[2], ii[1]); const V b = getv(in, 100, ii[0], ii[2]); const V r = a.transpose() * b; putm(r, out, oo); }
