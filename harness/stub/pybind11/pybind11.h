// A recording stand-in for the parts of pybind11 that the bindings use. Definitions are kept in a list (scope, name, kind,
// argument names and defaults, callable); stub::dispatch selects an overload the way pybind11 does: in order of definition, first
// without conversions when there are several, then with conversions; keywords and defaults fill missing arguments.
#pragma once
#include <array>
#include <cstddef>
#include <cstring>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
namespace stub
{
enum Kind { NONE, FLT, INT, BOL, STR, OBJ, SEQ, MAT, VIEW, LIST, DICT, TUP, NOTIMPL, TYPEERR };

// A Python value. OBJ: instance p of the class with tag t. SEQ: n floats v (i: a numpy array). MAT: rows x cols floats v, row by row.
// VIEW: floats v inside an object. DICT: n keys and floats v. LIST, TUP: n items.
struct Val
{
    int k;
    double d;
    long i;
    const char *s;
    void *p;
    const void *t;
    double *v;
    long n, rows, cols;
    const Val *items;
    const std::string *keys;
};
inline Val none() { Val r; std::memset(&r, 0, sizeof r); return r; }
template <typename T> struct Tag { static const char id; };
template <typename T> const char Tag<T>::id = 0;

struct Arg { const char *name; bool has; Val def; };
typedef Val (*Call)(void *f, Val *a, bool convert, bool &ok);
struct Rec
{
    const char *scope, *name;
    char kind; // m method, s static, i constructor, g getter, t setter, c static property, f module function
    int n;
    int self; // 1: the first argument is the object
    Arg args[8];
    int named;
    bool op, copy;
    Call call;
    void *f;
    Rec *next;
};
// An assignment to an attribute of the module (owner 'a') or an item of a dictionary ('i'); text: source text or module name.
struct Note { char owner; const char *name; int kind; const char *text; };
struct Registry { Note notes[32]; int noted = 0; Rec *first = nullptr, *last = nullptr; const char *classes[64]; const void *tags[64]; int n = 0; };
inline Registry &registry() { static Registry r; return r; }
inline void add(Rec *r)
{
    Registry &g = registry();
    r->next = nullptr;
    if (g.last) g.last->next = r; else g.first = r;
    g.last = r;
}
inline bool same(const char *a, const char *b) { return std::strcmp(a, b) == 0; }
} // namespace stub

class cast_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class value_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class type_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class index_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class key_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

namespace stub
{
template <typename A, typename = void> struct In; // argument of declared type A
template <typename R, typename = void> struct Out; // result of declared type R
}

class object;
struct accessor;
class object
{
public:
    stub::Val v;
    object() : v(stub::none()) {}
    explicit object(const stub::Val &x) : v(x) {}
    accessor attr(const char *name) const;
    template <typename T> T cast() const
    {
        stub::In<T> c;
        if (!c.load(v, true))
            throw cast_error("Unable to cast Python instance");
        return c.get();
    }
};
using handle = object;
struct accessor
{
    stub::Val *target;
    const char *name;
    char owner;
    template <typename T> const accessor &operator=(const T &x) const
    {
        stub::Registry &g = stub::registry();
        if constexpr (std::is_base_of_v<object, T>)
            if (g.noted < 32)
                g.notes[g.noted++] = stub::Note{owner, name, x.v.k, x.v.s};
        return *this;
    }
    template <typename T> void operator()(const T &x) const
    {
        const stub::Val a = stub::Out<T>::make(T(x), nullptr, 0);
        append(a, stub::same(name, "extend"));
    }
    void append(const stub::Val &a, bool extend) const
    {
        const long m = extend ? a.n : 1;
        stub::Val *l = new stub::Val[target->n + m + 1];
        for (long i = 0; i < target->n; i++) l[i] = target->items[i];
        for (long i = 0; i < m; i++)
        {
            if (!extend) l[target->n + i] = a;
            else if (a.k == stub::SEQ) { l[target->n + i] = stub::none(); l[target->n + i].k = stub::FLT; l[target->n + i].d = a.v[i]; }
            else l[target->n + i] = a.items[i];
        }
        target->items = l;
        target->n += m;
    }
    template <typename T> T cast() const { return T(); }
};
inline accessor object::attr(const char *name) const { return accessor{(stub::Val *)v.p, name, 'a'}; }
class list : public object
{
public:
    list() { stub::Val *b = new stub::Val(stub::none()); b->k = stub::LIST; v.k = stub::LIST; v.p = b; }
    template <typename T> void append(const T &x) const { attr("append")(x); }
    std::size_t size() const { return ((stub::Val *)v.p)->n; }
};
class tuple : public object
{
public:
    tuple() { v.k = stub::TUP; }
    explicit tuple(const stub::Val &x) : object(x) {}
    std::size_t size() const { return v.n; }
    object operator[](std::size_t i) const
    {
        if ((long)i >= v.n) throw index_error("tuple index out of range");
        return object(v.items[i]);
    }
};
class dict : public object
{
public:
    accessor operator[](const char *k) const { return accessor{nullptr, k, 'i'}; }
    std::size_t size() const { return v.n; }
};
class str : public object { public: str(const char *) {} };
template <typename... A> tuple make_tuple(A &&...a)
{
    stub::Val *l = new stub::Val[sizeof...(A) + 1];
    long k = 0;
    ((l[k++] = stub::Out<std::decay_t<A>>::make(std::decay_t<A>(a), nullptr, 0)), ...);
    stub::Val r = stub::none();
    r.k = stub::TUP; r.n = sizeof...(A); r.items = l;
    return tuple(r);
}

namespace stub
{
template <typename T> using base_t = std::remove_cv_t<std::remove_pointer_t<std::remove_cv_t<std::remove_reference_t<T>>>>;

// ---- arguments
template <typename A> struct In<A, std::enable_if_t<std::is_same_v<base_t<A>, double> || std::is_same_v<base_t<A>, float>>>
{
    double x;
    bool load(const Val &v, bool convert)
    {
        if (v.k == FLT) x = v.d;
        else if (convert && (v.k == INT || v.k == BOL)) x = (double)v.i;
        else return false;
        return true;
    }
    base_t<A> get() { return x; }
};
template <typename A> struct In<A, std::enable_if_t<std::is_integral_v<base_t<A>> && !std::is_same_v<base_t<A>, char>>>
{
    long x;
    bool load(const Val &v, bool) { x = v.i; return v.k == INT || v.k == BOL; }
    base_t<A> get() { return (base_t<A>)x; }
};
template <typename A> struct In<A, std::enable_if_t<std::is_same_v<base_t<A>, std::string>>>
{
    std::string x;
    bool load(const Val &v, bool) { if (v.k != STR) return false; x = v.s; return true; }
    const std::string &get() { return x; }
};
template <typename A> struct In<A, std::enable_if_t<std::is_same_v<base_t<A>, object>>>
{
    object x;
    bool load(const Val &v, bool) { x = object(v); return true; }
    object &get() { return x; }
};
template <typename A> struct In<A, std::enable_if_t<std::is_same_v<base_t<A>, tuple>>>
{
    tuple x;
    bool load(const Val &v, bool) { x = tuple(v); return v.k == TUP; }
    tuple &get() { return x; }
};
template <typename A> struct In<A, std::enable_if_t<std::is_same_v<base_t<A>, dict>>>
{
    dict x;
    bool load(const Val &v, bool) { x.v = v; return v.k == DICT; }
    dict &get() { return x; }
};
inline bool floats(const Val &v) { return v.k == SEQ || (v.k == VIEW && v.rows == 1); }
template <typename A> struct In<A, std::enable_if_t<std::is_same_v<base_t<A>, std::vector<double>>>>
{
    std::vector<double> x;
    bool load(const Val &v, bool) { if (!floats(v)) return false; x.assign(v.v, v.v + v.n); return true; }
    std::vector<double> &get() { return x; }
};
template <typename T> struct is_array : std::false_type {};
template <std::size_t N> struct is_array<std::array<double, N>> : std::true_type {};
template <typename A> struct In<A, std::enable_if_t<is_array<base_t<A>>::value>>
{
    base_t<A> x;
    bool load(const Val &v, bool)
    {
        if (!floats(v) || v.n != (long)x.size()) return false;
        for (long i = 0; i < v.n; i++) x[i] = v.v[i];
        return true;
    }
    base_t<A> &get() { return x; }
};
template <typename A> struct In<A, std::enable_if_t<std::is_same_v<base_t<A>, std::unordered_map<std::string, double>>>>
{
    std::unordered_map<std::string, double> x;
    bool load(const Val &v, bool)
    {
        if (v.k != DICT) return false;
        for (long i = 0; i < v.n; i++) x[v.keys[i]] = v.v[i];
        return true;
    }
    std::unordered_map<std::string, double> &get() { return x; }
};
template <typename T, typename = void> struct is_eigen : std::false_type {};
template <typename T> struct is_eigen<T, std::void_t<decltype(T::RowsAtCompileTime)>> : std::true_type {};
template <typename T> struct is_ref : std::false_type {};
template <typename T> struct is_other : std::bool_constant<std::is_class_v<T> && !std::is_base_of_v<object, T> && !is_eigen<T>::value
    && !is_array<T>::value && !std::is_same_v<T, std::string> && !std::is_same_v<T, std::vector<double>>
    && !std::is_same_v<T, std::unordered_map<std::string, double>>> {};
// instances of bound classes
template <typename A> struct In<A, std::enable_if_t<is_other<base_t<A>>::value>>
{
    void *x;
    bool load(const Val &v, bool) { x = v.p; return v.k == OBJ && v.t == &Tag<base_t<A>>::id; }
    decltype(auto) get()
    {
        if constexpr (std::is_pointer_v<std::remove_reference_t<A>>) return (base_t<A> *)x;
        else return (*(base_t<A> *)x);
    }
};

// ---- results
template <> struct Out<void> { static Val make() { return none(); } };
template <typename R> struct Out<R, std::enable_if_t<std::is_floating_point_v<base_t<R>> && !std::is_pointer_v<R>>>
{ static Val make(const base_t<R> x, Val *, int) { Val v = none(); v.k = FLT; v.d = x; return v; } };
template <typename R> struct Out<R, std::enable_if_t<std::is_integral_v<base_t<R>> && !std::is_pointer_v<R>>>
{
    static Val make(const base_t<R> x, Val *, int)
    { Val v = none(); v.k = std::is_same_v<base_t<R>, bool> ? BOL : INT; v.i = x; return v; }
};
template <typename R> struct Out<R, std::enable_if_t<std::is_same_v<base_t<R>, std::string>>>
{ static Val make(const std::string &x, Val *, int) { Val v = none(); v.k = STR; std::string *s = new std::string(x); v.s = s->c_str(); v.p = s; return v; } };
template <typename R> struct Out<R, std::enable_if_t<std::is_base_of_v<object, base_t<R>>>>
{
    static Val make(const object &x, Val *, int)
    {
        if (x.v.k != LIST) return x.v;
        Val v = *(Val *)x.v.p;
        return v;
    }
};
template <typename R> struct Out<R, std::enable_if_t<std::is_same_v<base_t<R>, std::vector<double>> || is_array<base_t<R>>::value>>
{
    static Val make(const base_t<R> &x, Val *, int)
    {
        Val v = none();
        v.k = SEQ; v.n = x.size(); v.v = new double[v.n + 1];
        for (long i = 0; i < v.n; i++) v.v[i] = x[i];
        return v;
    }
};
template <typename T> struct objects : std::false_type {};
template <typename T> struct objects<std::vector<T>> : std::bool_constant<!std::is_arithmetic_v<T>> {};
template <typename T, std::size_t N> struct objects<std::array<T, N>> : std::bool_constant<!std::is_arithmetic_v<T>> {};
template <typename R> struct Out<R, std::enable_if_t<objects<base_t<R>>::value>>
{
    static Val make(const base_t<R> &x, Val *, int)
    {
        Val v = none();
        Val *l = new Val[x.size() + 1];
        for (std::size_t i = 0; i < x.size(); i++) l[i] = Out<typename base_t<R>::value_type>::make(x[i], nullptr, 0);
        v.k = LIST; v.n = x.size(); v.items = l;
        return v;
    }
};
template <typename R> struct Out<R, std::enable_if_t<is_other<base_t<R>>::value && !objects<base_t<R>>::value>>
{
    template <typename X> static Val make(X &&x, Val *a, int n)
    {
        Val v = none();
        v.k = OBJ; v.t = &Tag<base_t<R>>::id;
        if constexpr (std::is_pointer_v<std::decay_t<X>>) return make(*x, a, n);
        else
        {
            // a reference to an existing Python object gives that object
            if constexpr (std::is_lvalue_reference_v<R>)
                for (int i = 0; i < n; i++)
                    if (a[i].k == OBJ && a[i].p == (const void *)&x)
                        return a[i];
            v.p = new base_t<R>(std::forward<X>(x));
            return v;
        }
    }
};

// ---- calling
template <typename F, typename R, typename... A> struct Thunk
{
    template <std::size_t... I> static Val go(F &f, Val *a, bool convert, bool &ok, std::index_sequence<I...>)
    {
        std::tuple<In<A>...> in;
        (void)a; (void)convert;
        ok = (true && ... && std::get<I>(in).load(a[I], convert));
        if (!ok) return none();
        if constexpr (std::is_void_v<R>) { f(std::get<I>(in).get()...); return none(); }
        else return Out<R>::make(f(std::get<I>(in).get()...), a, (int)sizeof...(A));
    }
    static Val call(void *f, Val *a, bool convert, bool &ok) { return go(*(F *)f, a, convert, ok, std::index_sequence_for<A...>()); }
};
template <typename T> struct Sig : Sig<decltype(&T::operator())> {};
template <typename R, typename... A> struct Sig<R (*)(A...)> { template <typename F> using thunk = Thunk<F, R, A...>; static constexpr int n = sizeof...(A); };
template <typename R, typename... A> struct Sig<R (*)(A...) noexcept> : Sig<R (*)(A...)> {};
template <typename C, typename R, typename... A> struct Sig<R (C::*)(A...) const> : Sig<R (*)(A...)> {};
template <typename C, typename R, typename... A> struct Sig<R (C::*)(A...)> : Sig<R (*)(A...)> {};
template <typename C, typename R, typename... A> struct Sig<R (C::*)(A...) const noexcept> : Sig<R (*)(A...)> {};
template <typename C, typename R, typename... A> struct Sig<R (C::*)(A...) noexcept> : Sig<R (*)(A...)> {};
// member functions become functions of the object
template <typename C, typename F> F wrap(F f) { return f; }
template <typename T, typename C, typename R, typename... A> auto wrap(R (C::*f)(A...)) { return [f](T *c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }; }
template <typename T, typename C, typename R, typename... A> auto wrap(R (C::*f)(A...) const) { return [f](const T *c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }; }
template <typename T, typename C, typename R, typename... A> auto wrap(R (C::*f)(A...) noexcept) { return [f](T *c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }; }
template <typename T, typename C, typename R, typename... A> auto wrap(R (C::*f)(A...) const noexcept) { return [f](const T *c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }; }
} // namespace stub

// ---- annotations
struct arg_v { const char *name; stub::Val def; };
struct arg
{
    const char *name;
    constexpr explicit arg(const char *n = nullptr) : name(n) {}
    template <typename T> arg_v operator=(const T &x) const
    {
        if constexpr (std::is_convertible_v<T, const char *>) return arg_v{name, stub::Out<std::string>::make(std::string(x), nullptr, 0)};
        else return arg_v{name, stub::Out<T>::make(T(x), nullptr, 0)};
    }
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool = true) { return *this; }
};
namespace literals { constexpr arg operator"" _a(const char *s, std::size_t) { return arg(s); } }
struct is_operator {};
struct is_method { template <typename T> is_method(const T &) {} };
struct sibling { template <typename T> sibling(const T &) {} };
template <typename...> struct call_guard {};
template <int, int> struct keep_alive {};
struct gil_scoped_release {};
struct dynamic_attr {};
struct module_local { module_local(bool = true) {} };
struct buffer_protocol {};
struct prepend {};
struct doc { const char *s; explicit doc(const char *x) : s(x) {} };

namespace stub
{
inline void extra(Rec *r, const arg &a) { r->args[r->self + r->named] = Arg{a.name, false, none()}; r->named++; }
inline void extra(Rec *r, const arg_v &a) { r->args[r->self + r->named] = Arg{a.name, true, a.def}; r->named++; }
inline void extra(Rec *r, const is_operator &) { r->op = true; }
inline void extra(Rec *r, const return_value_policy &p) { r->copy = p == return_value_policy::copy; }
inline void extra(Rec *r, const char *) {}
template <typename X> inline std::enable_if_t<std::is_empty_v<X> || std::is_same_v<X, doc>> extra(Rec *, const X &) {}
template <typename F, typename... E> inline void define(const char *scope, const char *name, char kind, int self, F f, const E &...e)
{
    Rec *r = new Rec;
    r->scope = scope; r->name = name; r->kind = kind; r->n = Sig<F>::n; r->self = self; r->named = 0; r->op = r->copy = false;
    for (int i = 0; i < 8; i++) r->args[i] = Arg{nullptr, false, none()};
    r->f = new F(f);
    r->call = &Sig<F>::template thunk<F>::call;
    (extra(r, e), ...);
    add(r);
}

// Calls scope.name with npos positional arguments followed by keyword arguments.
inline Val dispatch(const char *scope, const char *name, char kind, const Val *a, int npos, int n, const char *const *kw)
{
    int overloads = 0;
    bool op = false;
    for (Rec *r = registry().first; r; r = r->next)
        if (r->kind == kind && same(r->scope, scope) && same(r->name, name))
            overloads++, op = op || r->op;
    for (int pass = overloads > 1 ? 0 : 1; pass < 2; pass++)
        for (Rec *r = registry().first; r; r = r->next)
        {
            if (r->kind != kind || !same(r->scope, scope) || !same(r->name, name)) continue;
            if (n > r->n || r->n > 8) continue;
            Val l[8];
            bool have[8] = {};
            bool ok = true;
            for (int i = 0; i < npos; i++) l[i] = a[i], have[i] = true;
            for (int q = npos; q < n && ok; q++)
            {
                int at = -1;
                for (int i = 0; i < r->n; i++)
                    if (r->args[i].name && same(r->args[i].name, kw[q])) at = i;
                if (at < 0 || have[at]) ok = false;
                else l[at] = a[q], have[at] = true;
            }
            for (int i = 0; i < r->n && ok; i++)
                if (!have[i])
                {
                    if (r->args[i].has) l[i] = r->args[i].def; else ok = false;
                }
            if (!ok) continue;
            Val v = r->call(r->f, l, pass == 1, ok);
            if (!ok) continue;
            if (v.k == VIEW && r->copy)
            {
                double *c = new double[v.n + 1];
                for (long i = 0; i < v.n; i++) c[i] = v.v[i];
                v.v = c;
            }
            return v;
        }
    Val v = none();
    v.k = op ? NOTIMPL : TYPEERR;
    return v;
}
} // namespace stub

// ---- modules and classes
class module_ : public object
{
public:
    template <typename F, typename... E> module_ &def(const char *name, F f, const E &...e) { stub::define("", name, 'f', 0, f, e...); return *this; }
    str doc_;
    module_() : doc_("") {}
    str &doc() { return doc_; }
    static module_ import(const char *name) { module_ m; m.v.s = name; return m; }
    module_ def_submodule(const char *, const char * = "") { return *this; }
};
using module = module_;
namespace detail
{
template <typename... A> struct init_args {};
template <typename F> struct init_factory { F f; };
template <typename G, typename S> struct pickler { G g; S s; };
struct const_tag {};
template <typename... A> struct overload_cast_impl
{
    constexpr overload_cast_impl() {}
    template <typename R> constexpr auto operator()(R (*f)(A...)) const noexcept -> decltype(f) { return f; }
    template <typename R, typename C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const noexcept -> decltype(f) { return f; }
    template <typename R, typename C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const noexcept -> decltype(f) { return f; }
};
} // namespace detail
template <typename... A> static constexpr detail::overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};
template <typename... A> detail::init_args<A...> init() { return {}; }
template <typename F> detail::init_factory<F> init(F f) { return {f}; }
template <typename G, typename S> detail::pickler<G, S> pickle(G g, S s) { return {g, s}; }

namespace detail { template <int Id, int Ot, typename L, typename R> struct op_; }

template <typename T, typename... Options> class class_ : public object
{
public:
    const char *name;
    template <typename... E> class_(const handle &, const char *n, const E &...)
    {
        const std::size_t len = std::strlen(n) + 1;
        char *c = new char[len];
        std::memcpy(c, n, len);
        name = c;
        stub::Registry &g = stub::registry();
        if (g.n < 64) { g.classes[g.n] = name; g.tags[g.n] = &stub::Tag<T>::id; g.n++; }
    }
    template <typename F, typename... E> class_ &def(const char *n, F f, const E &...e) { stub::define(name, n, 'm', 1, stub::wrap<T>(f), e...); return *this; }
    template <typename F, typename... E> class_ &def_static(const char *n, F f, const E &...e) { stub::define(name, n, 's', 0, f, e...); return *this; }
    template <typename... A, typename... E> class_ &def(const detail::init_args<A...> &, const E &...e)
    {
        stub::define(name, "__init__", 'i', 0, [](A... a) { return T(std::forward<A>(a)...); }, e...);
        return *this;
    }
    template <typename F, typename... E> class_ &def(const detail::init_factory<F> &i, const E &...e) { stub::define(name, "__init__", 'i', 0, i.f, e...); return *this; }
    template <typename G, typename S, typename... E> class_ &def(const detail::pickler<G, S> &p, const E &...)
    {
        stub::define(name, "__getstate__", 'm', 1, p.g);
        stub::define(name, "__setstate__", 'i', 0, p.s);
        return *this;
    }
    template <int Id, int Ot, typename L, typename R, typename... E> class_ &def(const detail::op_<Id, Ot, L, R> &o, const E &...e) { o.execute(*this, e...); return *this; }
    template <typename G, typename... E> class_ &def_property_readonly(const char *n, G g, const E &...e) { stub::define(name, n, 'g', 1, stub::wrap<T>(g), e...); return *this; }
    template <typename G, typename S, typename... E> class_ &def_property(const char *n, G g, S s, const E &...e)
    {
        stub::define(name, n, 'g', 1, stub::wrap<T>(g), e...);
        stub::define(name, n, 't', 1, stub::wrap<T>(s));
        return *this;
    }
    template <typename G, typename... E> class_ &def_property_readonly_static(const char *n, G g, const E &...e) { stub::define(name, n, 'c', 1, g, e...); return *this; }
    template <typename X, typename... E> class_ &def_readonly(const char *n, X T::*m, const E &...e)
    { stub::define(name, n, 'g', 1, [m](const T *c) -> X { return c->*m; }, e...); return *this; }
    template <typename X, typename... E> class_ &def_readwrite(const char *n, X T::*m, const E &...e)
    {
        def_readonly(n, m, e...);
        stub::define(name, n, 't', 1, [m](T *c, const X &x) { c->*m = x; });
        return *this;
    }
};
#define PYBIND11_MODULE(name, variable, ...) void hj_stub_module(::pybind11::module_ &variable)
template <typename A, typename B> void implicitly_convertible() { static_assert(!std::is_same_v<A, A>, "not modelled"); }
} // namespace pybind11
