// Accessors, constructors, factories, padding, evaluation and rejected calls of one DDScalar type.
// in: a at 0, b at STRIDE, c at 2*STRIDE, scalar at 3*STRIDE; ii: sizes of a, b, c, then indices.
#include "hj.h"
#include <utility>
#define BLK 1100
#ifndef HJ_SHARED
#define A T a = ld(in, ii[0]);
#define AL A
#define B T b = ld(in + STRIDE, ii[1]);
#define C T c = ld(in + 2 * STRIDE, ii[2]);
#endif
#define S const double s = in[3 * STRIDE];
#define PA put(a, out + STRIDE, oo + 2);
#define PB put(b, out + 2 * STRIDE, oo + 4);
#define PC put(c, out + 3 * STRIDE, oo + 6);
#define R put(r, out, oo);
#if HJ_SIZE < 0
typedef std::vector<double> Vec;
static inline Vec vec(const double *p, L n) { return Vec(p, p + n); }
#else
typedef std::array<double, HJ_SIZE> Vec;
static inline Vec vec(const double *p, L n)
{
    Vec v;
    for (L k = 0; k < HJ_SIZE; k++)
        v[k] = p[k];
    return v;
}
#endif
#ifdef HJ_EIGEN
static inline T::Matrix mat(const double *p, L r, L c)
{
    T::Matrix m(r, c);
    for (L i = 0; i < r; i++)
        for (L j = 0; j < c; j++)
            m(i, j) = p[i * c + j];
    return m;
}
static inline T::Vector evec(const double *p, L n)
{
    T::Vector v(n);
    for (L i = 0; i < n; i++)
        v(i) = p[i];
    return v;
}
template <typename M> static inline void putm(const M &m, double *out)
{
    for (L i = 0; i < m.rows(); i++)
        for (L j = 0; j < m.cols(); j++)
            out[i * m.cols() + j] = m(i, j);
}
#endif

#ifdef HJ_READ
ENTRY(read)
{
    A
    const T &c = a;
    const L n = c.size();
    oo[0] = n;
    oo[1] = c.data_length();
    oo[2] = T::order();
    oo[3] = T::is_dynamic();
    oo[4] = T::static_size();
    oo[5] = (L)c.data().size();
    oo[6] = c.ptr() == c.data().data();
    oo[7] = a.ptr() == c.ptr();
    oo[8] = T::data_length_from_size(n);
    oo[9] = T::size_from_data_length(c.data_length());
    for (L k = 0; k < c.data_length(); k++)
    {
        out[k] = c.data()[k];
        out[BLK + k] = a.data()[k];
    }
    out[2 * BLK] = c.f();
    out[2 * BLK + 1] = a.f();
    for (L i = 0; i < n; i++)
    {
        out[3 * BLK + i] = c.g(i);
        out[4 * BLK + i] = a.g(i);
    }
#if HJ_ORDER == 2
    for (L i = 0; i < n * (n + 1) / 2; i++)
    {
        out[5 * BLK + i] = c.h(i);
        out[6 * BLK + i] = a.h(i);
    }
    for (L i = 0; i < n; i++)
        for (L j = 0; j < n; j++)
        {
            out[7 * BLK + i * n + j] = c.h(i, j);
            out[8 * BLK + i * n + j] = a.h(i, j);
        }
#endif
}
#define SET(name, stmt) ENTRY(name) { A S const L i = ii[3], j = ii[4]; (void)i; (void)j; stmt; put(a, out, oo); }
SET(set_f, a.set_f(s))
SET(f_ref, a.f() = s)
SET(set_g, a.set_g(i, s))
SET(g_ref, a.g(i) = s)
SET(d_ref, a.data()[i] = s)
SET(p_ref, a.ptr()[i] = s)
SET(set_zero, a.set_zero())
#if HJ_ORDER == 2
SET(set_h1, a.set_h(i, s))
SET(h1_ref, a.h(i) = s)
SET(set_h2, a.set_h(i, j, s))
SET(h2_ref, a.h(i, j) = s)
#endif
#ifdef HJ_EIGEN
ENTRY(eread)
{
    A
    const T &c = a;
    const L n = c.size();
    oo[0] = a.ag().size();
    oo[1] = a.adata().size();
    for (L i = 0; i < n; i++)
        out[i] = a.ag()(i);
    for (L k = 0; k < c.data_length(); k++)
        out[BLK + k] = a.adata()(k);
#if HJ_ORDER == 2
    const T::Matrix f = c.hm("full"), z = c.hm("zeros");
    oo[2] = f.rows();
    oo[3] = f.cols();
    putm(f, out + 2 * BLK);
    putm(z, out + 3 * BLK);
    T::Matrix m = T::Matrix::Constant(n, n, in[3 * STRIDE]);
    c.hm("full", m);
    putm(m, out + 4 * BLK);
    m.setConstant(in[3 * STRIDE]);
    c.hm("zeros", m);
    putm(m, out + 5 * BLK);
#endif
}
ENTRY(set_ag) { A a.ag() = evec(in + STRIDE, ii[0]); put(a, out, oo); }
SET(ag_ref, a.ag()(i) = s)
SET(ad_ref, a.adata()(i) = s)
ENTRY(set_ad) { A const T b = ld(in + STRIDE, ii[0]); T t = b; a.adata() = t.adata(); put(a, out, oo); }
ENTRY(set_adata) { A T b = ld(in + STRIDE, ii[0]); a.set_adata(b.adata()); put(a, out, oo); PB }
#if HJ_ORDER == 2
ENTRY(set_hm) { A a.set_hm(mat(in + STRIDE, ii[0], ii[0])); put(a, out, oo); }
ENTRY(hm_bad)
{
    static const char *const bad[] = {"", "Full", "zero", "full ", "zerosx", "upper", "fulL", "lower"};
    A
    try { a.hm(bad[ii[3]]); oo[8] = 0; } catch (...) { oo[8] = 1; }
    put(a, out, oo);
}
#endif
#endif
#endif

#ifdef HJ_MAKE
template <size_t... K> static inline T list(const double *p, std::index_sequence<K...>) { return T{p[K]...}; }
ENTRY(ctor_f) { S T r(s); R }
ENTRY(ctor_conv) { S T r = s; R }
ENTRY(ctor_copy) { A { T r(a); R } PA }
ENTRY(assign) { A B { T r(b); r = a; R } PA PB }
ENTRY(move) { A B { T r(b), t(a); r = std::move(t); T q(std::move(r)); put(q, out, oo); } PA PB }
ENTRY(selfassign) { A T &q = a; a = q; put(a, out, oo); }
// a copy is independent: writing the copy leaves the original, and the other way round
ENTRY(copy_write) { A S { T r(a); r.f() = s; r.ptr()[ii[3]] = s; R } PA }
ENTRY(copy_written) { A S { T r(a); a.ptr()[ii[3]] = s; R } PA }
ENTRY(assign_write) { A B S { T r(b); r = a; a.ptr()[ii[3]] = s; R } PA PB }
ENTRY(zero0) { T r = T::zero(); R }
ENTRY(zero_n) { T r = T::zero(ii[0]); R }
ENTRY(constant) { S T r = T::constant(s); R }
ENTRY(constant_n) { S T r = T::constant(s, ii[0]); R }
ENTRY(variable_n) { S T r = T::variable(ii[3], s, ii[0]); R }
ENTRY(empty0) { T r = T::empty(); oo[0] = r.size(); oo[1] = r.data_length(); }
ENTRY(empty_n) { T r = T::empty(ii[0]); oo[0] = r.size(); oo[1] = r.data_length(); }
ENTRY(variables)
{
    const std::vector<double> v(in, in + ii[0]);
    const std::vector<T> r = T::variables(v);
    oo[0] = (L)r.size();
    for (L k = 0; k < (L)r.size(); k++)
    {
        oo[1 + 2 * k] = r[k].size();
        oo[2 + 2 * k] = r[k].data_length();
        for (L i = 0; i < r[k].data_length(); i++)
            out[350 * k + i] = r[k].ptr()[i];
    }
}
template <size_t N> static inline void vars_array(const double *in, double *out, L *oo)
{
    std::array<double, N> v;
    for (size_t k = 0; k < N; k++)
        v[k] = in[k];
    const auto r = T::template variables<(hj::index)N>(v);
    oo[0] = (L)r.size();
    for (L k = 0; k < (L)r.size(); k++)
    {
        oo[1 + 2 * k] = r[k].size();
        oo[2 + 2 * k] = r[k].data_length();
        for (L i = 0; i < r[k].data_length(); i++)
            out[350 * k + i] = r[k].ptr()[i];
    }
}
ENTRY(create) { T::Data d; { A d = a.data(); } T r = T::create(d); R }
#if HJ_SIZE < 0
ENTRY(dfl) { T r; R }
ENTRY(ctor_data) { A T r(a.data(), ii[0]); R }
ENTRY(list)
{
#define CASE(n) case n: { T r = list(in, std::make_index_sequence<n>()); R } break;
    switch (ii[3])
    {
        CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7) CASE(8) CASE(9) CASE(10) CASE(15) CASE(21) CASE(28)
    }
}
ENTRY(vars_array)
{
    switch (ii[0])
    {
    case 1: vars_array<1>(in, out, oo); break;
    case 2: vars_array<2>(in, out, oo); break;
    case 3: vars_array<3>(in, out, oo); break;
    case 5: vars_array<5>(in, out, oo); break;
    }
}
#else
ENTRY(ctor_data) { T::Data d; { A d = a.data(); } T r(d); R }
ENTRY(list) { T r = list(in, std::make_index_sequence<(HJ_ORDER == 1 ? 1 + HJ_SIZE : (HJ_SIZE + 1) * (HJ_SIZE + 2) / 2)>()); R }
#if HJ_SIZE > 0
ENTRY(variable) { S T r = T::variable(ii[3], s); R }
ENTRY(vars_array) { vars_array<HJ_SIZE>(in, out, oo); }
#endif
#endif
#ifdef HJ_EIGEN
#if HJ_ORDER == 1
ENTRY(from_gradient) { S T r = T::from_gradient(s, evec(in + STRIDE, ii[0])); R }
#else
ENTRY(from_arrays) { S T r = T::from_arrays(s, evec(in + STRIDE, ii[0]), mat(in + 2 * STRIDE, ii[0], ii[0])); R }
#endif
#endif
#endif

#ifdef HJ_PAD
ENTRY(pad_left) { A { T r = a.pad_left(ii[3]); R } PA }
ENTRY(pad_right) { A { T r = a.pad_right(ii[3]); R } PA }
ENTRY(resize) { A a.resize(ii[3]); oo[0] = a.size(); oo[1] = a.data_length(); out[0] = a.f(); for (L k = 1; k < a.data_length() && k < STRIDE; k++) a.ptr()[k] = 1; out[1] = a.f(); }
#endif

#ifdef HJ_EVAL
ENTRY(eval) { A { const T &ca = a; out[0] = ca.eval(vec(in + STRIDE, ii[0])); } PA }
#endif

#ifdef HJ_BAD
// oo[8]: 0 nothing thrown, 1 std::runtime_error, 2 something else
#define TRY(stmt) try { stmt; oo[8] = 0; } catch (const std::runtime_error &) { oo[8] = 1; } catch (...) { oo[8] = 2; }
#define BAD1(name, stmt) ENTRY(bad_##name) { A S (void)s; TRY(stmt) PA }
#define BAD2(name, stmt) ENTRY(bad_##name) { A B TRY(stmt) PA PB }
#define BAD3(name, stmt) ENTRY(bad_##name) { A B C TRY(stmt) PA PB PC }
#if HJ_SIZE < 0
BAD2(add, a + b)
BAD2(sub, a - b)
BAD2(mul, a *b)
BAD2(div, a / b)
BAD2(iadd, a += b)
BAD2(isub, a -= b)
BAD2(imul, a *= b)
BAD2(idiv, a /= b)
BAD2(atan2, a.atan2(b))
BAD2(atan2_f, atan2(a, b))
BAD2(hypot, T::hypot(a, b))
BAD2(hypot_f, hypot(a, b))
BAD3(hypot3, T::hypot(a, b, c))
BAD3(hypot3_f, hypot(a, b, c))
BAD1(pad_left, a.pad_left(ii[3]))
BAD1(pad_right, a.pad_right(ii[3]))
BAD1(resize, a.resize(ii[3]))
ENTRY(bad_create) { const std::vector<double> v(in, in + ii[3]); TRY(T::create(v)) }
template <size_t... K> static inline T list(const double *p, std::index_sequence<K...>) { return T{p[K]...}; }
#undef CASE
#define CASE(n) case n: TRY(list(in, std::make_index_sequence<n>())) break;
ENTRY(bad_list) { switch (ii[3]) { CASE(2) CASE(4) CASE(5) CASE(7) CASE(8) CASE(9) CASE(11) CASE(14) CASE(16) } }
#ifdef HJ_EIGEN
ENTRY(bad_eval) { A { const std::vector<double> d(in + STRIDE, in + STRIDE + ii[3]); TRY(out[0] = a.eval(d)) } PA }
ENTRY(bad_set_adata) { A T b = ld(in + STRIDE, ii[1]); TRY(a.set_adata(b.adata())) PA PB }
#if HJ_ORDER == 2
ENTRY(bad_set_hm) { A { const T::Matrix m = mat(in + STRIDE, ii[3], ii[4]); TRY(a.set_hm(m)) } PA }
ENTRY(bad_hm) { A T::Matrix m = mat(in + STRIDE, ii[3], ii[4]); TRY(a.hm("full", m)) PA }
ENTRY(bad_from_arrays) { const T::Vector g = evec(in, ii[0]); const T::Matrix m = mat(in + STRIDE, ii[3], ii[4]); TRY(T::from_arrays(1.0, g, m)) }
#endif
#endif
#else
template <size_t... K> static inline T list(const double *p, std::index_sequence<K...>) { return T{p[K]...}; }
#define CASE(n) case n: TRY(list(in, std::make_index_sequence<n>())) break;
ENTRY(bad_list) { switch (ii[3]) { CASE(1) CASE(2) CASE(3) CASE(4) CASE(5) CASE(6) CASE(7) CASE(8) CASE(10) CASE(11) CASE(15) CASE(21) CASE(28) } }
ENTRY(bad_variables) { const std::vector<double> v(in, in + ii[3]); TRY(T::variables(v)) }
#endif
ENTRY(bad_zero) { TRY(T::zero(ii[3])) }
ENTRY(bad_empty) { TRY(T::empty(ii[3])) }
ENTRY(bad_constant) { S TRY(T::constant(s, ii[3])) }
ENTRY(bad_variable) { S TRY(T::variable(0, s, ii[3])) }
#endif

#ifdef HJ_SYMSIZE
// Symbolic sizes: _s entries only set the size field (used by the solver), _n entries build the number in full (used for replay).
static inline T ms(L n) { T a = T::zero(); a.m_size = n; return a; }
static inline T mn(L n) { return T::zero(n); }
#define PAIR(name, body) ENTRY(name##_s) { auto mk = ms; body } ENTRY(name##_n) { auto mk = mn; body }
PAIR(g_c, { const T a = mk(ii[0]); T &b = const_cast<T &>(a); oo[0] = &b.g(ii[1]) - a.ptr(); })
#if HJ_ORDER == 2
PAIR(h1, { T a = mk(ii[0]); oo[0] = &a.h(ii[1]) - a.ptr(); })
PAIR(h2, { T a = mk(ii[0]); oo[0] = &a.h(ii[1], ii[2]) - a.ptr(); })
#endif
ENTRY(len) { oo[0] = T::data_length_from_size(ii[0]); }
ENTRY(size_of) { oo[0] = T::size_from_data_length(ii[0]); }
ENTRY(size_rt) { oo[0] = T::size_from_data_length(T::data_length_from_size(ii[0])); }
ENTRY(size_back) { oo[0] = T::data_length_from_size(T::size_from_data_length(ii[0])) - ii[0]; }
#define MM(name, expr) PAIR(mm_##name, { T a = mk(ii[0]); T b = mk(ii[1]); expr; })
MM(add, a + b) MM(sub, a - b) MM(mul, a *b) MM(div, a / b) MM(iadd, a += b) MM(isub, a -= b) MM(imul, a *= b) MM(idiv, a /= b)
MM(atan2, a.atan2(b)) MM(hypot, T::hypot(a, b))
PAIR(mm_hypot3, { T a = mk(ii[0]); T b = mk(ii[1]); T c = mk(ii[2]); T::hypot(a, b, c); })
PAIR(mm_pad_left, { T a = mk(ii[0]); a.pad_left(ii[1]); })
PAIR(mm_pad_right, { T a = mk(ii[0]); a.pad_right(ii[1]); })
ENTRY(neg_zero) { T::zero(ii[0]); }
ENTRY(neg_empty) { T::empty(ii[0]); }
ENTRY(neg_constant) { T::constant(1.0, ii[0]); }
ENTRY(neg_variable) { T::variable(0, 1.0, ii[0]); }
ENTRY(neg_resize) { T a = T::zero(2); a.resize(ii[0]); }
#endif
