// Calls through the Python bindings: the repository's binding source HJ_BIND is compiled unmodified against stub/pybind11 and run,
// then one Python-visible name is called with pybind11's overload selection and, for operators, Python's reflection rules.
// ii: 0 nargs, 1 positional args, 2 what (see below), 3..6 name, 7..10 class, then 8 words per argument:
//     kind, n, input offset, integer, keyword (4 words).
// out: result at 0, argument q after the call at STRIDE*(q+1). oo: size and length likewise, 100 kind, 101 tag ok, 102.. shape.
#include <Eigen/Core>
#include <algorithm>
#include <stdexcept>
#include <pybind11/pybind11.h>
#include HJ_BIND
#include <pybind11/eval.h>
#include <pybind11/eigen.h>
#include <pybind11/operators.h>
typedef long L;
using namespace pybind11::stub;
#define STRIDE 2500
#define ENTRY(name) extern "C" __attribute__((noinline, used)) void hjx_##name(const double *in, double *out, const L *ii, L *oo)
#ifdef HJ_SPARSE
#define NN 24
typedef hj::SScalar<double> D1;
typedef D1 D2;
static const char *const NAMES[NN] = {"x", "y", "a_rather_long_variable_name", "", "a_rather_long_variable_namf", "xy", "yx", "x1",
                                      "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "n10", "n11", "n12", "n13", "n14", "n15", "n16",
                                      "an_even_longer_variable_name_that_needs_the_heap"};
static L hjx_all_names;
// a sparse number with the names of mask n
template <typename T> static inline Val make(const double *p, L n)
{
    typename T::Data d;
    for (L k = 0; k < NN; k++)
        if (n >> k & 1)
            d[NAMES[k]] = p[1 + k];
    Val v = none();
    v.k = OBJ;
    v.t = &Tag<T>::id;
    v.p = new T(p[0], d);
    return v;
}
template <typename T> static inline void putd(const void *p, double *out, L *oo)
{
    const T &x = *(const T *)p;
    oo[0] = x.size();
    out[0] = x.f();
    for (L k = 0; k < NN; k++)
        if (hjx_all_names >> k & 1)
            out[1 + k] = x.d(NAMES[k]);
}
static inline Val dict_of(const double *p, L n)
{
    Val v = none();
    v.k = DICT;
    std::string *s = new std::string[NN];
    double *d = new double[NN];
    for (L k = 0; k < NN; k++)
        if (n >> k & 1)
        {
            s[v.n] = NAMES[k];
            d[v.n++] = p[1 + k];
        }
    v.keys = s;
    v.v = d;
    return v;
}
#define NAMES_FROM(ii) hjx_all_names = ii[43];
#else
#define NAMES_FROM(ii)
typedef hj::DDScalar<1, double, HJ_SIZE> D1;
typedef hj::DDScalar<2, double, HJ_SIZE> D2;
static inline L len_of(L order, L n) { return order == 1 ? 1 + n : (n + 1) * (n + 2) / 2; }
template <typename T> static inline Val make(const double *p, L n)
{
    Val v = none();
    const L len = len_of(T::order(), n);
    v.k = OBJ;
    v.t = &Tag<T>::id;
#if HJ_SIZE < 0
    v.p = new T(typename T::Data(p, p + len), n);
#else
    typename T::Data d;
    for (L k = 0; k < len; k++)
        d[k] = p[k];
    v.p = new T(d);
#endif
    return v;
}
template <typename T> static inline void putd(const void *p, double *out, L *oo)
{
    const T &x = *(const T *)p;
    oo[0] = x.size();
    oo[1] = x.data_length();
    for (L k = 0; k < x.data_length() && k < STRIDE; k++)
        out[k] = x.ptr()[k];
}
#endif
static inline void puto(const Val &v, double *out, L *oo)
{
    if (v.t == &Tag<D1>::id) putd<D1>(v.p, out, oo);
    else if (v.t == &Tag<D2>::id) putd<D2>(v.p, out, oo);
}
static inline void putv(const Val &v, double *out, L *oo)
{
    oo[100] = v.k;
    oo[101] = v.k == OBJ ? (v.t == &Tag<D1>::id ? 1 : v.t == &Tag<D2>::id ? 2 : 0) : 0;
    if (v.k == OBJ) puto(v, out, oo);
    else if (v.k == FLT) out[0] = v.d;
    else if (v.k == INT || v.k == BOL) oo[102] = v.i;
    else if (v.k == STR) { oo[102] = std::strlen(v.s); for (L i = 0; i < oo[102] && i < 900; i++) oo[200 + i] = v.s[i]; }
    else if (v.k == SEQ || v.k == VIEW || v.k == MAT)
    {
        oo[102] = v.n; oo[103] = v.rows; oo[104] = v.cols;
        for (L i = 0; i < v.n && i < STRIDE; i++) out[i] = v.v[i];
    }
    else if (v.k == TUP || v.k == LIST)
    {
        oo[102] = v.n;
        for (L i = 0; i < v.n && i < 64; i++)
        {
            oo[200 + i] = v.items[i].k;
            oo[300 + i] = v.items[i].k == OBJ ? (v.items[i].t == &Tag<D1>::id ? 1 : v.items[i].t == &Tag<D2>::id ? 2 : 0) : v.items[i].n;
            if (v.items[i].k == OBJ) puto(v.items[i], out + STRIDE * (i + 10), oo + 400 + 2 * i);
            else if (v.items[i].k == FLT) out[STRIDE * (i + 10)] = v.items[i].d;
            else if (v.items[i].k == SEQ) for (L k = 0; k < v.items[i].n && k < STRIDE; k++) out[STRIDE * (i + 10) + k] = v.items[i].v[k];
        }
    }
}
// argument kinds: 0 number of order 1, 1 number of order 2, 2 float, 3 int, 4 bool, 5 list of n floats, 6 n x i floats, 7 str "full",
//     8 str "zeros", 9 str "x", 10 the same object as argument i, 11 tuple of one list of n floats, 12 tuple of i lists, 13 dict, 14 None
static inline Val arg(const double *in, const L *w, const Val *l)
{
    Val v = none();
    const L n = w[1];
    const double *p = in + w[2];
    static const char *const STRS[] = {"full", "zeros", "x"};
    switch (w[0])
    {
    case 0: return make<D1>(p, n);
    case 1: return make<D2>(p, n);
    case 2: v.k = FLT; v.d = p[0]; break;
    case 3: v.k = INT; v.i = w[3]; break;
    case 4: v.k = BOL; v.i = w[3]; break;
    case 5: v.k = SEQ; v.n = n; v.v = (double *)p; break;
    case 6: v.k = MAT; v.rows = n; v.cols = w[3]; v.n = n * w[3]; v.v = (double *)p; break;
    case 7: case 8: case 9: v.k = STR; v.s = STRS[w[0] - 7]; break;
    case 10: return l[w[3]];
    case 11: case 12:
    {
        const L m = w[0] == 11 ? 1 : w[3];
        Val *it = new Val[m + 1];
        for (L i = 0; i < m; i++) { it[i] = none(); it[i].k = SEQ; it[i].n = n; it[i].v = (double *)p; }
        v.k = TUP; v.n = m; v.items = it;
        break;
    }
#ifdef HJ_SPARSE
    case 13: return dict_of(p, n);
    case 15: v.k = STR; v.s = NAMES[w[3]]; break;
#else
    case 13: v.k = DICT; break;
#endif
    default: break;
    }
    return v;
}
static bool hjx_ready = false;
static inline void init()
{
    if (hjx_ready) return;
    pybind11::module_ m;
    HJ_INIT(m);
    hjx_ready = true;
}
ENTRY(setup) { init(); }
// how class ii[7..10] knows name ii[3..6]: oo 0 getter, 1 method, 2 static property, 3 static method
ENTRY(has)
{
    init();
    (void)in; (void)out;
    const char *name = (const char *)(ii + 3), *cls = (const char *)(ii + 7);
    static const char kinds[] = "gmcs";
    for (int k = 0; k < 4; k++)
    {
        oo[k] = 0;
        for (Rec *r = registry().first; r; r = r->next)
            if (r->kind == kinds[k] && same(r->scope, cls) && same(r->name, name)) oo[k] = 1;
    }
}
ENTRY(call)
{
    init();
    NAMES_FROM(ii)
    const char *name = (const char *)(ii + 3), *cls = (const char *)(ii + 7);
    const L n = ii[0];
    Val l[8];
    const char *kw[8];
    for (L q = 0; q < n; q++) { l[q] = arg(in, ii + 11 + 8 * q, l); kw[q] = (const char *)(ii + 11 + 8 * q + 4); }
    const Val v = dispatch(cls, name, (char)ii[2], l, (int)ii[1], (int)n, kw);
    putv(v, out, oo);
    oo[8] = v.k == OBJ && n > 0 && v.p == l[0].p;
    for (L q = 0; q < n; q++)
        if (l[q].k == OBJ) puto(l[q], out + STRIDE * (q + 1), oo + 2 * (q + 1));
}
// Python's l op r: name and reflected name (second argument's keyword slot holds the in-place name or nothing)
static inline Val binop(const char *c1, const char *c2, const char *iname, const char *name, const char *rname, Val l, Val r)
{
    const char *kw[2] = {"", ""};
    Val a[2] = {l, r};
    Val v = none();
    v.k = NOTIMPL;
    if (iname[0] && l.k == OBJ) v = dispatch(c1, iname, 'm', a, 2, 2, kw);
    if (v.k != NOTIMPL && v.k != TYPEERR) return v;
    if (l.k == OBJ) v = dispatch(c1, name, 'm', a, 2, 2, kw);
    if (v.k != NOTIMPL && v.k != TYPEERR) return v;
    Val b[2] = {r, l};
    if (r.k == OBJ) v = dispatch(c2, rname, 'm', b, 2, 2, kw);
    return v;
}
ENTRY(binop)
{
    init();
    NAMES_FROM(ii)
    Val l[2];
    l[0] = arg(in, ii + 11, l);
    l[1] = arg(in, ii + 19, l);
    const Val v = binop((const char *)(ii + 7), (const char *)(ii + 7), (const char *)(ii + 27), (const char *)(ii + 3), (const char *)(ii + 31), l[0], l[1]);
    putv(v, out, oo);
    oo[8] = v.k == OBJ && v.p == l[0].p;
    for (L q = 0; q < 2; q++)
        if (l[q].k == OBJ) puto(l[q], out + STRIDE * (q + 1), oo + 2 * (q + 1));
}
// obj.f = s, then everything is read back
ENTRY(setprop)
{
    init();
    NAMES_FROM(ii)
    const char *kw[2] = {"", ""};
    Val l[2];
    l[0] = arg(in, ii + 11, l);
    l[1] = arg(in, ii + 19, l);
    const Val v = dispatch((const char *)(ii + 7), (const char *)(ii + 3), 't', l, 2, 2, kw);
    oo[100] = v.k;
    puto(l[0], out, oo);
}
// writes through the array that a property returned show in the object
ENTRY(view)
{
    init();
    NAMES_FROM(ii)
    const char *kw[2] = {"", ""};
    Val l[1];
    l[0] = arg(in, ii + 11, l);
    const Val v = dispatch((const char *)(ii + 7), (const char *)(ii + 3), 'g', l, 1, 1, kw);
    oo[100] = v.k; oo[102] = v.n;
    if (v.k == VIEW) for (L i = 0; i < v.n; i++) v.v[i] = in[STRIDE + i];
    puto(l[0], out, oo);
}
// ii[2]: 0 restored from its pickle state, 1 __copy__, 2 __deepcopy__. Then all entries of the original and of the copy are written in
// turn; the other one is reported.
static inline void overwrite(const char *cls, const Val &x, const double *p)
{
    const char *kw[1] = {""};
    const Val v = dispatch(cls, "data", 'g', &x, 1, 1, kw);
    if (v.k == VIEW) for (L i = 0; i < v.n; i++) v.v[i] = p[i];
}
ENTRY(restore)
{
    init();
    NAMES_FROM(ii)
    const char *cls = (const char *)(ii + 7);
    const char *kw[2] = {"", ""};
    Val l[2];
    l[0] = arg(in, ii + 11, l);
    l[1] = none();
    l[1].k = DICT;
    Val v;
    if (ii[2] == 0) { Val s[1] = {dispatch(cls, "__getstate__", 'm', l, 1, 1, kw)}; v = dispatch(cls, "__setstate__", 'i', s, 1, 1, kw); }
    else if (ii[2] == 1) v = dispatch(cls, "__copy__", 'm', l, 1, 1, kw);
    else v = dispatch(cls, "__deepcopy__", 'm', l, 2, 2, kw);
    putv(v, out, oo);
    oo[8] = v.k == OBJ && v.p == l[0].p;
    puto(l[0], out + 3 * STRIDE, oo + 6);
    if (v.k != OBJ || v.p == l[0].p) return;
    overwrite(cls, l[0], in + STRIDE);
    puto(v, out + STRIDE, oo + 2);          // not changed with the original
    overwrite(cls, v, in + 2 * STRIDE);
    puto(l[0], out + 2 * STRIDE, oo + 4);   // not changed with the copy
}
// which class is registered under which name: oo[0] count, oo[k] 1 or 2 for the order when names match
ENTRY(classes)
{
    init();
    (void)in; (void)out;
    Registry &g = registry();
    oo[0] = g.n;
    for (int k = 0; k < g.n && k < 2; k++)
    {
        oo[1 + k] = g.tags[k] == &Tag<D1>::id ? 1 : g.tags[k] == &Tag<D2>::id ? 2 : 0;
        oo[3 + k] = same(g.classes[k], (const char *)(ii + (oo[1 + k] == 1 ? 3 : 7)));
    }
}
