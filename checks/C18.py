"""C18: Eigen expressions over hyper-dual numbers against the same formulas written out, exact real arithmetic."""
from vf import core, dd, main, spec
from vf.spec import X, operand, var

NS, Q2, QS = 30, 100, 200


class E:
    """A number as its list of entries; the oracle's own arithmetic, from the chain rule."""

    def __init__(self, o, n, x):
        self.o, self.n, self.x = o, n, x

    def _b(self, other, g):
        return E(self.o, self.n, spec.chain(self.o, self.n, [self.x, other.x], *g[:3]))

    def __add__(self, b):
        return E(self.o, self.n, [p + q for p, q in zip(self.x, b.x)])

    def __sub__(self, b):
        return E(self.o, self.n, [p - q for p, q in zip(self.x, b.x)])

    def __mul__(self, b):
        if isinstance(b, E):
            return self._b(b, spec.g_mul(self.x[0], b.x[0]))
        return E(self.o, self.n, [p * b for p in self.x])

    def __truediv__(self, s):
        return E(self.o, self.n, [p / s for p in self.x])

    def __neg__(self):
        return E(self.o, self.n, [-p for p in self.x])

    def sqrt(self):
        f, d1, d2, dom = spec.f_sqrt(self.x[0])
        return E(self.o, self.n, spec.chain(self.o, self.n, [self.x], f, [d1], {(0, 0): d2}))


def total(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


class Eig:
    def __init__(self, o, ssize, n, dim, rows, depth=0, cols=0):
        self.o, self.n = o, n
        self.dim, self.rows, self.depth, self.cols = dim, rows, depth, cols
        self.L = spec.length(o, n)
        self.s = var("s")
        self.defs = ["HJ_ORDER=%d" % o, "HJ_SIZE=%d" % ssize, "HJ_DIM=%d" % dim]
        self.label = "Eigen %s %s of DDScalar<%d,%s>" % ("x".join(str(k) for k in (rows, depth, cols) if k), "fixed" if dim else "dynamic",
                                                        o, ssize if ssize >= 0 else "Dynamic n=%d" % n)

    def vec(self, name, k):
        return [E(self.o, self.n, operand("%s%d_" % (name, i), self.o, self.n)) for i in range(k)]

    def plain(self, k):
        """k plain numbers, stored in the value slots of the second operand."""
        return [var("p%d" % i) for i in range(k)]

    def problem(self, fn, args, out, dom=()):
        ins = {NS * QS: self.s}
        args = [[E(0, 0, [e]) if isinstance(e, X) else e for e in l] for l in args]
        for q, l in zip((0, Q2), args):
            for i, e in enumerate(l):
                for k, x in enumerate(e.x):
                    ins[NS * (q + i) + k] = x
        exp, ie = {}, {}
        for i, e in enumerate(out):
            ie[i] = self.n
            for k, x in enumerate(e.x):
                exp[NS * i + k] = x
        return core.Problem("%s of %s" % (fn, self.label), "eig.cpp", self.defs, fn, ins, [self.n, self.rows, self.depth or self.rows, self.cols or self.rows],
                            dom, exp, ie, nin=NS * QS + 1, budget=100_000_000)


def vectors(u, quick):
    r, s = u.rows, u.s
    a, b = u.vec("a", r), u.vec("b", r)
    dot = total([x * y for x, y in zip(a, b)])
    sq = total([x * x for x in a])
    yield u.problem("vadd", (a, b), [x + y for x, y in zip(a, b)])
    yield u.problem("vsub", (a, b), [x - y for x, y in zip(a, b)])
    yield u.problem("viadd", (a, b), [x + y for x, y in zip(a, b)])
    yield u.problem("visub", (a, b), [x - y for x, y in zip(a, b)])
    yield u.problem("vneg", (a, b), [-x for x in a])
    for fn in ("vmul_s", "vmul_st"):
        yield u.problem(fn, (a, b), [x * s for x in a])
    yield u.problem("vdiv_s", (a, b), [x / s for x in a], [spec.ne(s)])
    yield u.problem("vlin", (a, b), [x * s + y - x / s for x, y in zip(a, b)], [spec.ne(s)])
    if u.fixed:
        yield u.problem("vimul_s", (a, b), [x * s for x in a])
        yield u.problem("vidiv_s", (a, b), [x / s for x in a], [spec.ne(s)])
    yield u.problem("vcw", (a, b), [x * y for x, y in zip(a, b)])
    yield u.problem("vsum", (a, b), [total(a)])
    yield u.problem("dot", (a, b), [dot])
    yield u.problem("dot_aa", (a, b), [sq])
    yield u.problem("sqnorm", (a, b), [sq])
    d = [x - y for x, y in zip(a, b)]
    yield u.problem("distsq", (a, b), [total([x * x for x in d])])
    yield u.problem("norm", (a, b), [sq.sqrt()], [spec.gt(sq.x[0])])
    if r <= 3:
        q = inverse(sq.sqrt())
        yield u.problem("vnormalized", (a, b), [x * q for x in a], [spec.gt(sq.x[0])])
        p = a[0]
        for x in a[1:]:
            p = p * x
        yield u.problem("vprod", (a, b), [p])
    p = u.plain(r)
    nz = [spec.ne(x) for x in p]
    add = lambda e, x: E(e.o, e.n, [e.x[0] + x] + e.x[1:])
    yield u.problem("pcw", (a, p), [x * y for x, y in zip(a, p)])
    yield u.problem("pcw_r", (a, p), [x * y for x, y in zip(a, p)])
    if u.fixed:
        yield u.problem("pquot", (a, p), [x / y for x, y in zip(a, p)], nz)
    yield u.problem("psum", (a, p), [add(x, y) for x, y in zip(a, p)])
    yield u.problem("pdiff", (a, p), [add(-x, y) for x, y in zip(a, p)])
    yield u.problem("pdot", (a, p), [total([x * y for x, y in zip(a, p)])])
    yield u.problem("pdot_r", (a, p), [total([x * y for x, y in zip(a, p)])])
    if r == 3 and u.dim == 3:
        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        yield u.problem("cross", (a, b), c)


def inverse(e):
    f, d1, d2, dom = spec.f_reciprocal(e.x[0])
    return E(e.o, e.n, spec.chain(e.o, e.n, [e.x], f, [d1], {(0, 0): d2}))


def matrices(u):
    r, d, c, s = u.rows, u.depth, u.cols, u.s
    v, w = u.vec("a", r), u.vec("b", r)
    yield u.problem("outer", (v, w), [x * y for x in v for y in w])
    a = u.vec("a", r * r)
    yield u.problem("mtrace", (a,), [total([a[i * r + i] for i in range(r)])])
    if u.dim == 2:
        det = a[0] * a[3] - a[1] * a[2]
        yield u.problem("mdet", (a,), [det])
        inv = inverse(det)
        if u.fixed:
            yield u.problem("minv", (a,), [a[3] * inv, -a[1] * inv, -a[2] * inv, a[0] * inv], [spec.ne(det.x[0])])
    if u.dim == 3:
        m = lambda i, j: a[(i + 1) % 3 * 3 + (j + 1) % 3] * a[(i + 2) % 3 * 3 + (j + 2) % 3] \
            - a[(i + 1) % 3 * 3 + (j + 2) % 3] * a[(i + 2) % 3 * 3 + (j + 1) % 3]
        det = total([a[j] * m(0, j) for j in range(3)])
        yield u.problem("mdet", (a,), [det])
    ab = lambda i, j: total([a[i * d + k] * b[k * c + j] for k in range(d)])
    a, b = u.vec("a", r * d), u.vec("b", r * d)
    yield u.problem("madd", (a, b), [x + y for x, y in zip(a, b)])
    yield u.problem("msub", (a, b), [x - y for x, y in zip(a, b)])
    b = u.vec("b", d * c)
    yield u.problem("mscale", (a, b), [x * s for x in a])
    yield u.problem("mdiv", (a, b), [x / s for x in a], [spec.ne(s)])
    yield u.problem("mtr", (a, b), [a[i * d + j] for j in range(d) for i in range(r)])
    prod = [ab(i, j) for i in range(r) for j in range(c)]
    yield u.problem("mml", (a, b), prod)
    yield u.problem("mm", (a, b), prod)
    at = u.vec("a", d * r)
    yield u.problem("mtm", (at, b), [total([at[k * r + i] * b[k * c + j] for k in range(d)]) for i in range(r) for j in range(c)])
    x, p = u.vec("a", d), u.plain(r * d)
    yield u.problem("pmvl", (x, p), [total([x[k] * p[i * d + k] for k in range(d)]) for i in range(r)])
    if u.fixed or u.dim:
        yield u.problem("pmv", (x, p), [total([x[k] * p[i * d + k] for k in range(d)]) for i in range(r)])
        v = u.vec("b", d)
        yield u.problem("mv", (a, v), [total([a[i * d + k] * v[k] for k in range(d)]) for i in range(r)])
        yield u.problem("mtv", (at, v), [total([at[k * r + i] * v[k] for k in range(d)]) for i in range(r)])


def run(res, tier, kind, o, ssize, n, dim, shapes):
    ps = []
    for sh in shapes:
        u = Eig(o, ssize, n, dim, *sh)
        u.fixed = ssize >= 0
        ps += list(vectors(u, tier == "quick") if kind == "v" else matrices(u))
    dd.run_all(res, ps)
    for p in ps[::3]:
        core.validate(p, res, 1)


def tasks(tier):
    q = tier == "quick"
    t = []
    for o in (1, 2):
        for ss, n in [(1, 1), (2, 2), (3, 3), (-1, 0), (-1, 2)] if q else [(0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (-1, 0), (-1, 1), (-1, 2), (-1, 3), (-1, 5)]:
            for dim in (2, 3):
                t.append((run, ("v", o, ss, n, dim, ((dim,),))))
            t.append((run, ("v", o, ss, n, 0, ((1,), (2,), (3,), (4,)))))
        for ss, n in [(1, 1), (2, 2), (-1, 2)] if q else [(1, 1), (2, 2), (3, 3), (-1, 0), (-1, 1), (-1, 2)]:
            t.append((run, ("m", o, ss, n, 2, ((2, 2, 2),))))
            t.append((run, ("m", o, ss, n, 3, ((3, 3, 3),))))
            t.append((run, ("m", o, ss, n, 0, ((1, 2, 3), (3, 1, 2), (2, 3, 2)))))
        # large enough for Eigen's blocked product
        t.append((run, ("m", o, 1, 1, 0, ((7, 7, 7),) if q else ((7, 7, 7), (9, 9, 9), (1, 9, 11)))))
    return t


def describe(tier):
    return {"bounds": "orders 1 and 2; fixed number sizes 1..3 and run-time sizes 0 and 2 (thorough: up to 4 and 5); Eigen vectors of 1..4 "
                      "entries and matrices up to 3x3, fixed and dynamic Eigen types; all entries of all numbers symbolic",
            "assumptions": main.REAL_ASSUMPTIONS + ["Eigen compiled without vectorisation (EIGEN_DONT_VECTORIZE)"]}
