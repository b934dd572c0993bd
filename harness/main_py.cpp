// The module function variables() of the Python package: the repository's main.cpp against stub/pybind11; the bind_* functions it
// calls are stand-ins that register the classes by type only. ii: 0 count, 1 order, 2 form (0 both positional, 1 order=, 2 both
// keywords, 3 keywords swapped, 4 default order, 5 default order with values=).
// oo: 0 kind, 1 count, 10*(i+1): kind, order, declared size, size, length of entry i; its data at 400*i of out.
#include <Eigen/Core>
#include <algorithm>
#include <stdexcept>
#include <pybind11/pybind11.h>
#include <pybind11/eval.h>
#include <pybind11/eigen.h>
#include <pybind11/operators.h>
#define HYPERJET_VERSION "0"
#include HJ_MAIN
typedef long L;
using namespace pybind11::stub;
#define ENTRY(name) extern "C" __attribute__((noinline, used)) void hjx_##name(const double *in, double *out, const L *ii, L *oo)
#define REG(N, D) void __attribute__((weak)) bind_ddscalar_##N##d(pybind11::module &m)                                                  \
{ pybind11::class_<hj::DDScalar<1, double, D>> a(m, "D"); pybind11::class_<hj::DDScalar<2, double, D>> b(m, "DD"); }
REG(x, -1) REG(0, 0) REG(1, 1) REG(2, 2) REG(3, 3) REG(4, 4) REG(5, 5) REG(6, 6) REG(7, 7) REG(8, 8) REG(9, 9) REG(10, 10) REG(11, 11)
REG(12, 12) REG(13, 13) REG(14, 14) REG(15, 15) REG(16, 16)
void __attribute__((weak)) bind_sscalar(pybind11::module &m) { pybind11::class_<hj::SScalar<double>> a(m, "S"); }
static bool hjx_ready = false;
static inline void init()
{
    if (hjx_ready) return;
    pybind11::module_ m;
    hj_stub_module(m);
    hjx_ready = true;
}
static bool known(const void *t)
{
    Registry &g = registry();
    for (int k = 0; k < g.n; k++)
        if (g.tags[k] == t) return true;
    return false;
}
template <int O, int S> static inline bool item(const Val &v, double *out, L *oo)
{
    typedef hj::DDScalar<O, double, S> T;
    if (v.t != &Tag<T>::id) return false;
    const T &x = *(const T *)v.p;
    oo[1] = O; oo[2] = S; oo[3] = x.size(); oo[4] = x.data_length();
    for (L k = 0; k < x.data_length() && k < 400; k++) out[k] = x.ptr()[k];
    return true;
}
template <int O, int... S> static inline void items(const Val &v, double *out, L *oo, std::integer_sequence<int, S...>)
{ (void)(item<O, S - 1>(v, out, oo) || ...); }
ENTRY(setup) { (void)in; (void)out; (void)ii; (void)oo; init(); }
ENTRY(variables)
{
    init();
    Val a[2] = {none(), none()};
    a[0].k = SEQ; a[0].n = ii[0]; a[0].v = (double *)in;
    a[1].k = INT; a[1].i = ii[1];
    const char *k0[2] = {"values", "order"}, *k1[2] = {"order", "values"};
    const Val b[2] = {a[1], a[0]};
    static const int npos[] = {2, 1, 0, 0, 1, 0}, num[] = {2, 2, 2, 2, 1, 1};
    const Val v = dispatch("", "variables", 'f', ii[2] == 3 ? b : a, npos[ii[2]], num[ii[2]], ii[2] == 3 ? k1 : k0);
    oo[0] = v.k;
    oo[1] = v.n;
    for (L i = 0; i < v.n && i < 64; i++)
    {
        const Val &x = v.items[i];
        L *o = oo + 10 * (i + 1);
        o[0] = x.k;
        if (x.k == FLT) out[400 * i] = x.d;
        if (x.k != OBJ) continue;
        o[5] = known(x.t);      // Python can hold it
        items<1>(x, out + 400 * i, o, std::make_integer_sequence<int, 18>());
        items<2>(x, out + 400 * i, o, std::make_integer_sequence<int, 18>());
    }
}
// assignments recorded while the module was set up: oo 0 count; for assignment ii[0]: 1 owner, 2 kind, 3 length of name, 4 length of text
// (-1 none), name at 10, text at 100
ENTRY(notes)
{
    init();
    (void)in; (void)out;
    Registry &g = registry();
    oo[0] = g.noted;
    if (ii[0] >= g.noted) return;
    const Note &t = g.notes[ii[0]];
    oo[1] = t.owner; oo[2] = t.kind; oo[3] = std::strlen(t.name); oo[4] = t.text ? (L)std::strlen(t.text) : -1;
    for (L k = 0; k < oo[3] && k < 80; k++) oo[10 + k] = t.name[k];
    for (L k = 0; k < oo[4] && k < 1500; k++) oo[100 + k] = t.text[k];
}
