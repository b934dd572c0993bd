"""C24: Eigen's entry-wise functions, reductions by comparison, constants and linear solvers over numbers, exact real arithmetic."""
from checks.C18 import E, Eig, NS, total
from vf import core, dd, main, spec
from vf.spec import X

FUNS = ("sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log10")


def fun(e, fd):
    f, d1, d2, dom = fd
    return E(e.o, e.n, spec.chain(e.o, e.n, [e.x], f, [d1], {(0, 0): d2})), dom


def div(a, b):
    f, d1, d2, dom = spec.g_div(a.x[0], b.x[0])
    return E(a.o, a.n, spec.chain(a.o, a.n, [a.x, b.x], f, d1, d2))


def const(u, v):
    return E(u.o, u.n, [X(float(v))] + [X(0.0)] * (u.L - 1))


KINDS = ("entrywise", "constants", "solvers", "cholesky")


class Unit(Eig):
    def __init__(self, part, *a):
        super().__init__(*a)
        self.defs = self.defs + ["HJ_PART=%d" % part]

    def problem(self, *a, ints=None, **k):
        p = super().problem(*a, **k)
        p.src = "eig2.cpp"
        if ints is not None:
            p.iexpect, p.mode = ints, "fp"
        p.max_paths = 4096
        return p


def distinct(v):
    return [spec.ne(v[i].x[0], v[j].x[0]) for i in range(len(v)) for j in range(i)]


def first(dom, *more):
    return list(dom) + list(more)


def entrywise(u):
    r = u.rows
    a, b = u.vec("a", r), u.vec("b", r)
    for name in FUNS:
        es, dom = zip(*[fun(x, spec.UNARY[name][0](x.x[0])) for x in a])
        for fn in ("f_" + name,) + (("m_sqrt",) if name == "sqrt" else ()):
            yield u.problem(fn, (a, b), list(es), sum(dom, []))
    # absolute values: all sign patterns of up to 2 entries, uniform ones beyond
    pats = [[k >> i & 1 for i in range(r)] for k in range(1 << r)] if r <= 2 else [[0] * r, [1] * r, [i & 1 for i in range(r)]]
    for pat in pats:
        es, dom = zip(*[fun(x, spec.UNARY["abs"][k](x.x[0])) for x, k in zip(a, pat)])
        dom = sum(dom, [])
        for fn in ("f_abs", "m_abs"):
            yield u.problem(fn, (a, b), list(es), dom)
        yield u.problem("norm1", (a, b), [total(es)], dom)
        for k in range(r):
            yield u.problem("norminf", (a, b), [es[k]], dom + [spec.gt(es[k].x[0], es[j].x[0]) for j in range(r) if j != k])
    nz = [spec.ne(x.x[0]) for x in a]
    nb = [spec.ne(x.x[0]) for x in b]
    for fn in ("f_abs2", "m_abs2", "f_square", "unary"):
        yield u.problem(fn, (a, b), [x * x for x in a])
    yield u.problem("f_cube", (a, b), [x * x * x for x in a])
    yield u.problem("amul", (a, b), [x * y for x, y in zip(a, b)])
    for fn in ("adiv", "quot"):
        yield u.problem(fn, (a, b), [div(x, y) for x, y in zip(a, b)], nb)
    yield u.problem("vmul_t", (a, b), [x * b[0] for x in a])
    yield u.problem("vdiv_t", (a, b), [div(x, b[0]) for x in a], nb[:1])
    if u.fixed:
        for fn in ("f_inverse", "m_inverse"):
            yield u.problem(fn, (a, b), [fun(x, spec.f_reciprocal(x.x[0]))[0] for x in a], nz)
        yield u.problem("mean", (a, b), [total(a) / float(r)])
    for k in range(r):
        hi = [spec.gt(a[k].x[0], a[j].x[0]) for j in range(r) if j != k]
        lo = [spec.lt(a[k].x[0], a[j].x[0]) for j in range(r) if j != k]
        yield u.problem("maxc", (a, b), [a[k]], hi)
        yield u.problem("minc", (a, b), [a[k]], lo)
        yield u.problem("argmax", (a, b), [], hi, ints={0: k})
        yield u.problem("argmin", (a, b), [], lo, ints={0: k})
    for k in range(1 << r) if r <= 2 else (0, 1, 6, 7):
        less = [k >> i & 1 for i in range(r)]
        dom = [(spec.lt if l else spec.gt)(x.x[0], y.x[0]) for l, x, y in zip(less, a, b)]
        yield u.problem("cmax", (a, b), [y if l else x for l, x, y in zip(less, a, b)], dom)
        yield u.problem("cmin", (a, b), [x if l else y for l, x, y in zip(less, a, b)], dom)
        yield u.problem("select", (a, b), [x if l else y for l, x, y in zip(less, a, b)], dom)
        yield u.problem("clt", (a, b), [], dom, ints={0: sum(less)})
        yield u.problem("cge", (a, b), [], dom, ints={0: r - sum(less)})
    num = [x.x[0].cmp("oeq", x.x[0]) for x in a]
    same = [E(u.o, u.n, [x.x[0]] + y.x[1:]) for x, y in zip(a, b)]
    yield u.problem("veq", (a, same), [], num, ints={0: 1})
    yield u.problem("vne", (a, same), [], num, ints={0: 0})
    yield u.problem("veq", (a, b), [], [spec.ne(a[-1].x[0], b[-1].x[0])], ints={0: 0})
    yield u.problem("vne", (a, b), [], [spec.ne(a[-1].x[0], b[-1].x[0])], ints={0: 1})
    yield u.problem("constant", (a, b), [b[0]] * r)
    yield u.problem("assign", (a, b), b)
    yield u.problem("reversed", (a, b), a[::-1])
    yield u.problem("swapped", (a, b), b)
    sq = total([x * x for x in a])
    if r <= 3:
        q = fun(fun(sq, spec.f_sqrt(sq.x[0]))[0], spec.f_reciprocal(spec.call("sqrt", sq.x[0])))[0]
        if u.fixed:
            yield u.problem("normalize", (a, b), [x * q for x in a], [spec.gt(sq.x[0])])


def constants(u):
    r = u.rows
    a, b = u.vec("a", r), u.vec("b", r)
    zero, one = const(u, 0), const(u, 1)
    yield u.problem("zero", (a, b), [zero] * r)
    yield u.problem("ones", (a, b), [one] * r)
    yield u.problem("onesadd", (a, b), [x + one for x in a])
    yield u.problem("setzero", (a, b), [zero] * r)
    yield u.problem("casted", (a, b), [E(u.o, u.n, [u.s] + [X(0.0)] * (u.L - 1))] * r)
    yield u.problem("identity", (a, b), [one if i == j else zero for i in range(r) for j in range(r)])
    for fn, v in (("eps", 2.0 ** -52), ("highest", 1.7976931348623157e308), ("lowest", -1.7976931348623157e308), ("prec", 1e-12), ("lmin", 2.0 ** -1022),
                  ("lmax", 1.7976931348623157e308), ("leps", 2.0 ** -52)):
        yield u.problem(fn, (a, b), [const(u, v)])


def det(m, r):
    if r == 1:
        return m[0][0]
    t = None
    for k in range(r):
        x = m[0][k] * det([[row[j] for j in range(r) if j != k] for row in m[1:]], r - 1)
        t = x if t is None else (t - x if k & 1 else t + x)
    return t


def numerator(m, b, k):
    return det([[b[i] if j == k else x for j, x in enumerate(row)] for i, row in enumerate(m)], len(m))


def cramer(m, b, r):
    d = det(m, r)
    return [div(numerator(m, b, k), d) for k in range(r)], d


def solvers(u, quick):
    r = u.rows
    a, b = u.vec("a", r * r), u.vec("b", r)
    m = [[a[i * r + j] for j in range(r)] for i in range(r)]
    x, d = cramer(m, b, r)
    nd = [spec.ne(d.x[0])]
    # Eigen's LU takes the absolute value of every entry: positive ones only for three equations
    box = nd if r == 2 else nd + [spec.gt(e.x[0], 0) for e in a]
    if r == 2 or u.o == 1 or not quick:
        yield u.problem("plu", (a, b), x, box)
    yield u.problem("pludet", (a, b), [d], box)
    if r == 2:
        yield u.problem("inv", (a, b), x, nd)
    yield u.problem("dettr", (a, b), [d])
    tri = lambda keep, unit=False: [[m[i][j] if keep(i, j) else const(u, 1 if unit and i == j else 0) for j in range(r)] for i in range(r)]
    diag = [spec.ne(m[i][i].x[0]) for i in range(r)]
    yield u.problem("upper", (a, b), cramer(tri(lambda i, j: j >= i), b, r)[0], diag)
    yield u.problem("lower", (a, b), cramer(tri(lambda i, j: j <= i), b, r)[0], diag)
    yield u.problem("unitlower", (a, b), cramer(tri(lambda i, j: j < i, True), b, r)[0])


def cholesky(u):
    r = u.rows
    a, b = u.vec("a", r * r), u.vec("b", r)
    m = [[a[i * r + j] for j in range(r)] for i in range(r)]
    # symmetric positive definite: Sylvester
    s = [[m[max(i, j)][min(i, j)] for j in range(r)] for i in range(r)]
    x, d = cramer(s, b, r)
    pd = [spec.gt(det([row[:k] for row in s[:k]], k).x[0]) for k in range(1, r + 1)]
    yield u.problem("llt", (a, b), x, pd)
    # entries below the smallest normal number count as zero there
    tiny = 1e-290
    yield u.problem("ldlt", (a, b), x, pd + [spec.gt(d.x[0], tiny * (a[0].x[0] + a[3].x[0]))] + [spec.gt(a[k].x[0], tiny) for k in (0, 3)])
    x, d = cramer(m, b, r)
    # back substitution skips an entry that compares equal to zero
    yield u.problem("hqr", (a, b), x, [spec.ne(d.x[0]), spec.gt(a[2].x[0] * a[2].x[0], tiny)] + [spec.ne(numerator(m, b, k).x[0]) for k in range(r)])


def run(res, tier, kind, o, ssize, n, dim, shapes):
    for sh in shapes:
        u = Unit(KINDS.index(kind), o, ssize, n, dim, *sh)
        u.fixed = ssize >= 0
        ps = list(solvers(u, tier == "quick") if kind == "solvers" else globals()[kind](u))
        dd.run_all(res, ps)
        for p in ps[::5]:
            core.validate(p, res, 1)


def tasks(tier):
    q = tier == "quick"
    t = []
    for o in (2, 1):
        for ss, n in [(1, 1), (2, 2)] if q else [(1, 1), (2, 2), (3, 3)]:
            t.append((run, ("solvers", o, ss, n, 2, ((2,),))))
            t.append((run, ("cholesky", o, ss, n, 2, ((2,),))))
        if not q or o == 1:
            t.append((run, ("solvers", o, 1, 1, 3, ((3,),))))
        for ss, n in [(2, 2), (3, 3), (-1, 0), (-1, 2)] if q else [(0, 0), (1, 1), (2, 2), (3, 3), (5, 5), (-1, 0), (-1, 1), (-1, 2), (-1, 4)]:
            t.append((run, ("entrywise", o, ss, n, 2, ((2,),))))
            t.append((run, ("entrywise", o, ss, n, 0, ((1,), (3,)) if q else ((1,), (2,), (3,), (4,), (5,)))))
            if ss >= 0:
                t.append((run, ("constants", o, ss, n, 2, ((2,),))))
                t.append((run, ("constants", o, ss, n, 0, ((1,), (3,)))))
    return t


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed number sizes 1..3 and run-time sizes 0 and 2 (thorough: up to 5 and 4); vectors of 1..3 entries; linear "
                      "systems of 2 equations (3 for first-order numbers of size 1); all entries of all numbers symbolic",
            "assumptions": main.REAL_ASSUMPTIONS + ["Eigen compiled without vectorisation (EIGEN_DONT_VECTORIZE)"]}
