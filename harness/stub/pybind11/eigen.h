#pragma once
#include <Eigen/Core>
#include "pybind11.h"
namespace pybind11
{
namespace stub
{
template <typename T> struct ref_of {};
template <typename M, int O, typename S> struct ref_of<Eigen::Ref<M, O, S>> { using type = M; };
template <typename T, typename = void> struct is_eref : std::false_type {};
template <typename T> struct is_eref<T, std::void_t<typename ref_of<T>::type>> : std::true_type {};
// Reads a numeric array of fitting shape into m.
template <typename M> inline bool fill(M &m, const Val &v)
{
    long r = v.rows, c = v.cols;
    if (v.k == SEQ) { r = M::RowsAtCompileTime == 1 ? 1 : v.n; c = M::RowsAtCompileTime == 1 ? v.n : 1; }
    else if (v.k != MAT && v.k != VIEW) return false;
    if (M::RowsAtCompileTime >= 0 && r != M::RowsAtCompileTime) return false;
    if (M::ColsAtCompileTime >= 0 && c != M::ColsAtCompileTime) return false;
    m.resize(r, c);
    for (long i = 0; i < r; i++)
        for (long j = 0; j < c; j++)
            m(i, j) = v.v[i * c + j];
    return true;
}
template <typename A> struct In<A, std::enable_if_t<is_eref<base_t<A>>::value>>
{
    using M = std::remove_const_t<typename ref_of<base_t<A>>::type>;
    M m;
    alignas(base_t<A>) char st[sizeof(base_t<A>)];
    base_t<A> *r;
    bool load(const Val &v, bool)
    {
        if (!fill(m, v)) return false;
        r = new (st) base_t<A>(m);
        return true;
    }
    base_t<A> &get() { return *r; }
};
template <typename A> struct In<A, std::enable_if_t<is_eigen<base_t<A>>::value && !is_eref<base_t<A>>::value>>
{
    base_t<A> m;
    bool load(const Val &v, bool) { return fill(m, v); }
    base_t<A> &get() { return m; }
};
template <typename R> struct Out<R, std::enable_if_t<is_eref<base_t<R>>::value>>
{
    template <typename X> static Val make(X &&x, Val *, int)
    {
        Val v = none();
        v.k = VIEW; v.rows = x.rows(); v.cols = x.cols(); v.n = v.rows * v.cols; v.v = (double *)x.data();
        return v;
    }
};
template <typename R> struct Out<R, std::enable_if_t<is_eigen<base_t<R>>::value && !is_eref<base_t<R>>::value>>
{
    template <typename X> static Val make(X &&x, Val *, int)
    {
        Val v = none();
        // a type that is a vector at compile time (1x1 included) becomes a one-dimensional array
        v.k = base_t<R>::IsVectorAtCompileTime ? SEQ : MAT; v.i = 1;
        v.rows = x.rows(); v.cols = x.cols(); v.n = v.rows * v.cols; v.v = new double[v.n + 1];
        for (long i = 0; i < v.rows; i++)
            for (long j = 0; j < v.cols; j++)
                v.v[i * v.cols + j] = x(i, j);
        return v;
    }
};
} // namespace stub
} // namespace pybind11
