"""Problem builders for harness/dd_struct.cpp: accessors, construction, padding, evaluation, rejected calls."""
from . import core, dd, spec
from .intm import ivar
from .spec import X, hindex, length, var

BLK = 1100
STRIDE = dd.STRIDE


class Unit(dd.Unit):
    def __init__(self, order, ssize, n, extra=()):
        dd.Unit.__init__(self, order, ssize, n)
        self.xt = list(extra)

    def prob(self, grp, fn, ins, iins, exp, iexp, eigen=False, mode="fp", dom=(), **kw):
        return core.Problem("%s%s on %s" % (fn, list(iins)[1:] if len(iins) > 1 else "", self.label), "dd_struct.cpp",
                            self.defs + ["HJ_" + grp] + (["HJ_EIGEN"] if eigen else []) + self.xt, fn, ins, iins, dom, exp, iexp,
                            mode=mode, **kw)

    def a_in(self, *more):
        d = dict(enumerate(self.a))
        for x in more:
            d.update(x)
        return d


def put(vals, n, L, at=0):
    return {STRIDE * at + k: v for k, v in enumerate(vals)}, {2 * at: n, 2 * at + 1: L}


def idx_list(n, few):
    return list(range(n)) if n <= few else sorted({0, 1, n // 2, n - 2, n - 1})


def read(u, eigen=True):
    n, L, a = u.n, u.L, u.a
    e, ie = {}, {0: n, 1: L, 2: u.order, 3: int(u.ssize < 0), 4: u.ssize, 5: L, 6: 1, 7: 1, 8: L, 9: n}
    for k in range(L):
        e[k] = e[BLK + k] = a[k]
    e[2 * BLK] = e[2 * BLK + 1] = a[0]
    for i in range(n):
        e[3 * BLK + i] = e[4 * BLK + i] = a[1 + i]
    if u.order == 2:
        for i in range(n * (n + 1) // 2):
            e[5 * BLK + i] = e[6 * BLK + i] = a[1 + n + i]
        for i in range(n):
            for j in range(n):
                e[7 * BLK + i * n + j] = e[8 * BLK + i * n + j] = a[hindex(n, i, j)]
    yield u.prob("READ", "read", u.a_in(), [n] * 3 + [0, 0], e, ie, eigen)
    if eigen:
        e, ie = {}, {0: n, 1: L}
        for i in range(n):
            e[i] = a[1 + i]
        for k in range(L):
            e[BLK + k] = a[k]
        if u.order == 2:
            ie.update({2: n, 3: n})
            for i in range(n):
                for j in range(n):
                    e[2 * BLK + i * n + j] = e[4 * BLK + i * n + j] = a[hindex(n, i, j)]
                    e[3 * BLK + i * n + j] = e[5 * BLK + i * n + j] = a[hindex(n, i, j)] if i <= j else X(0.0)
        yield u.prob("READ", "eread", u.a_in({3 * STRIDE: u.s}), [n] * 3 + [0, 0], e, ie, True)


def write(u, eigen=True, few=5):
    n, L, a, s = u.n, u.L, u.a, u.s

    def wr(fn, k, i=0, j=0):
        new = list(a)
        new[k] = s
        e, ie = put(new, n, L)
        return u.prob("READ", fn, u.a_in({3 * STRIDE: s}), [n] * 3 + [i, j], e, ie, eigen)
    yield wr("set_f", 0)
    yield wr("f_ref", 0)
    for i in idx_list(n, few):
        yield wr("set_g", 1 + i, i)
        yield wr("g_ref", 1 + i, i)
        if eigen:
            yield wr("ag_ref", 1 + i, i)
    for k in idx_list(L, 2 * few):
        yield wr("d_ref", k, k)
        yield wr("p_ref", k, k)
        if eigen:
            yield wr("ad_ref", k, k)
    if u.order == 2:
        m = n * (n + 1) // 2
        for i in idx_list(m, 3 * few):
            yield wr("set_h1", 1 + n + i, i)
            yield wr("h1_ref", 1 + n + i, i)
        for i in idx_list(n, few):
            for j in idx_list(n, few):
                yield wr("set_h2", hindex(n, i, j), i, j)
                yield wr("h2_ref", hindex(n, i, j), i, j)
    e, ie = put([X(0.0)] * L, n, L)
    yield u.prob("READ", "set_zero", u.a_in({3 * STRIDE: s}), [n] * 3 + [0, 0], e, ie, eigen)
    if not eigen:
        return
    b = [var("b%d" % k) for k in range(max(L, n * n, 1))]
    bin_ = {STRIDE + k: v for k, v in enumerate(b)}
    e, ie = put([a[0]] + b[:n] + a[1 + n:], n, L)
    yield u.prob("READ", "set_ag", u.a_in(bin_), [n] * 3 + [0, 0], e, ie, True)
    e, ie = put(b[:L], n, L)
    yield u.prob("READ", "set_ad", u.a_in(bin_), [n] * 3 + [0, 0], e, ie, True)
    e2, ie2 = put(b[:L], n, L, 2)
    e2.update(e)
    ie2.update(ie)
    yield u.prob("READ", "set_adata", u.a_in(bin_), [n] * 3 + [0, 0], e2, ie2, True)
    if u.order == 2:
        new = a[:1 + n] + [None] * (L - 1 - n)
        for i in range(n):
            for j in range(i, n):
                new[hindex(n, i, j)] = b[i * n + j]
        e, ie = put(new, n, L)
        yield u.prob("READ", "set_hm", u.a_in(bin_), [n] * 3 + [0, 0], e, ie, True)
        for k in range(8):
            e, ie = put(a, n, L)
            ie[8] = 1
            yield u.prob("READ", "hm_bad", u.a_in(), [n] * 3 + [k, 0], e, ie, True)


def make(u, eigen=True):
    n, L, a, s = u.n, u.L, u.a, u.s
    dyn = u.ssize < 0
    Z = X(0.0)
    b = [var("b%d" % k) for k in range(L)]
    sc = {3 * STRIDE: s}
    ii = [n] * 3 + [0, 0]

    def p(fn, vals, size, ins=None, i=(0, 0), more=None, eig=False, n0=None):
        e, ie = put(vals, size, length(u.order, size))
        if more:
            e.update(more[0])
            ie.update(more[1])
        return u.prob("MAKE", fn, u.a_in(sc) if ins is None else ins, [n] * 3 + list(i), e, ie, eigen)
    n0 = 0 if dyn else n
    L0 = length(u.order, n0)
    yield p("ctor_f", [s] + [Z] * (L0 - 1), n0)
    yield p("ctor_conv", [s] + [Z] * (L0 - 1), n0)
    yield p("zero0", [Z] * L0, n0)
    yield p("constant", [s] + [Z] * (L0 - 1), n0)
    yield p("zero_n", [Z] * L, n)
    yield p("constant_n", [s] + [Z] * (L - 1), n)
    yield u.prob("MAKE", "empty0", u.a_in(), ii, {}, {0: n0, 1: L0}, eigen)
    yield u.prob("MAKE", "empty_n", u.a_in(), ii, {}, {0: n, 1: L}, eigen)
    for i in idx_list(n, 6):
        w = [s] + [Z] * (L - 1)
        w[1 + i] = X(1.0)
        yield p("variable_n", w, n, i=(i, 0))
        if not dyn:
            yield p("variable", w, n, i=(i, 0))
    yield p("create", a, n)
    yield p("ctor_data", a, n)
    if dyn:
        yield p("dfl", [Z], 0)
    if not dyn or L in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 21, 28):
        yield p("list", a, n, i=(L, 0))
    for fn in ["variables"] + (["vars_array"] if n and (not dyn or n in (1, 2, 3, 5)) else []):
        e, ie = {}, {0: n}
        for k in range(n):
            ie[1 + 2 * k], ie[2 + 2 * k] = n, L
            for i in range(L):
                e[350 * k + i] = X(0.0)
            e[350 * k] = var("v%d" % k)
            e[350 * k + 1 + k] = X(1.0)
        yield u.prob("MAKE", fn, {k: var("v%d" % k) for k in range(n)}, ii, e, ie, eigen)
    if not eigen:
        return
    if u.order == 1:
        yield p("from_gradient", [s] + b[:n], n, {**{STRIDE + k: b[k] for k in range(n)}, **sc}, eig=True)
    else:
        m = [[var("m%d_%d" % (i, j)) for j in range(n)] for i in range(n)]
        new = [s] + b[:n] + [None] * (L - 1 - n)
        ins = {**{STRIDE + k: b[k] for k in range(n)}, **sc}
        for i in range(n):
            for j in range(n):
                ins[2 * STRIDE + i * n + j] = m[i][j]
                if i <= j:
                    new[hindex(n, i, j)] = m[i][j]
        yield p("from_arrays", new, n, ins, eig=True)


def copies(u):
    """C++ copies, assignment, moves (C20)."""
    n, L, a, s = u.n, u.L, u.a, u.s
    b = [var("b%d" % k) for k in range(L)]
    ii = [n] * 3 + [0, 0]
    ins = u.a_in({STRIDE + k: v for k, v in enumerate(b)}, {3 * STRIDE: s})

    def p(fn, vals, keep, i=0):
        e, ie = put(vals, n, L)
        for at, v in keep:
            e2, ie2 = put(v, n, L, at)
            e.update(e2)
            ie.update(ie2)
        return u.prob("MAKE", fn, ins, [n] * 3 + [i, 0], e, ie)
    yield p("ctor_copy", a, [(1, a)])
    yield p("assign", a, [(1, a), (2, b)])
    yield p("move", a, [(1, a), (2, b)])
    yield p("selfassign", a, [])
    for k in idx_list(L, 6):
        w = list(a)
        w[k] = s
        w0 = list(w)
        w0[0] = s
        yield p("copy_write", w0, [(1, a)], k)
        yield p("copy_written", a, [(1, w)], k)
        yield p("assign_write", a, [(1, w), (2, b)], k)
    if u.ssize < 0:
        # assignment over a number of another size
        for m in (0, n + 1, max(n - 1, 0)):
            if m == n:
                continue
            Lm = length(u.order, m)
            bb = [var("b%d" % k) for k in range(Lm)]
            i2 = u.a_in({STRIDE + k: v for k, v in enumerate(bb)}, {3 * STRIDE: s})
            for fn in ("assign", "move"):
                e, ie = put(a, n, L)
                for at, v, sz in ((1, a, n), (2, bb, m)):
                    e2, ie2 = put(v, sz, length(u.order, sz), at)
                    e.update(e2)
                    ie.update(ie2)
                yield u.prob("MAKE", fn, i2, [n, m, 0, 0, 0], e, ie)


def pads(u, ms):
    n, L, a = u.n, u.L, u.a
    for m in ms:
        Lm = length(u.order, m)
        for fn, sh in (("pad_left", m - n), ("pad_right", 0)):
            if m < n:
                continue
            w = [X(0.0)] * Lm
            w[0] = a[0]
            for i in range(n):
                w[1 + sh + i] = a[1 + i]
                if u.order == 2:
                    for j in range(i, n):
                        w[hindex(m, i + sh, j + sh)] = a[hindex(n, i, j)]
            e, ie = put(w, m, Lm)
            e2, ie2 = put(a, n, L, 1)
            e.update(e2)
            ie.update(ie2)
            yield u.prob("PAD", fn, u.a_in(), [n] * 3 + [m, 0], e, ie)
        yield u.prob("PAD", "resize", u.a_in(), [n] * 3 + [m, 0], {0: a[0], 1: a[0]}, {0: m, 1: Lm})


def evals(u, mode="real"):
    n, L, a = u.n, u.L, u.a
    d = [var("d%d" % i) for i in range(n)]
    r = a[0]
    for i in range(n):
        r = r + a[1 + i] * d[i]
    if u.order == 2:
        q = X(0.0)
        for i in range(n):
            for j in range(n):
                q = q + d[i] * a[hindex(n, i, j)] * d[j]
        r = r + q / X(2.0)
    e, ie = put(a, n, L, 1)
    e[0] = r
    yield u.prob("EVAL", "eval", u.a_in({STRIDE + i: v for i, v in enumerate(d)}), [n] * 3 + [0, 0], e, ie, True, mode)


# ---------------------------------------------------------------- rejected calls

def bad_pairs(u, pairs, triples):
    """Operations on run-time sized numbers of different sizes."""
    for n1, n2 in pairs:
        L1, L2 = length(u.order, n1), length(u.order, n2)
        a = [var("a%d" % k) for k in range(L1)]
        b = [var("b%d" % k) for k in range(L2)]
        ins = {**dict(enumerate(a)), **{STRIDE + k: v for k, v in enumerate(b)}}
        e, ie = put(a, n1, L1, 1)
        e2, ie2 = put(b, n2, L2, 2)
        e.update(e2)
        ie.update(ie2)
        ie[8] = 1
        for fn in ("add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "atan2", "atan2_f", "hypot", "hypot_f"):
            yield u.prob("BAD", "bad_" + fn, ins, [n1, n2, 0, 0, 0], e, ie)
        yield u.prob("BAD", "bad_set_adata", ins, [n1, n2, 0, 0, 0], e, ie, True)
    for ns in triples:
        ins, e, ie = {}, {}, {8: 1}
        for q, n in enumerate(ns):
            v = [var("%s%d" % ("abc"[q], k)) for k in range(length(u.order, n))]
            ins.update({STRIDE * q + k: x for k, x in enumerate(v)})
            e2, ie2 = put(v, n, len(v), q + 1)
            e.update(e2)
            ie.update(ie2)
        for fn in ("hypot3", "hypot3_f"):
            yield u.prob("BAD", "bad_" + fn, ins, list(ns) + [0, 0], e, ie)


def bad_one(u):
    """Invalid sizes and lengths, dynamic and fixed."""
    n, L, a = u.n, u.L, u.a
    keep, ik = put(a, n, L, 1)
    dyn = u.ssize < 0
    ins = u.a_in({3 * STRIDE: u.s}, {STRIDE + k: var("b%d" % k) for k in range(max(n + 3, (n + 1) * (n + 2)))})

    def p(fn, i=0, j=0, keepa=True, eigen=False):
        return u.prob("BAD", "bad_" + fn, ins, [n] * 3 + [i, j], keep if keepa else {}, {**(ik if keepa else {}), 8: 1}, eigen)
    if dyn:
        for m in (-1, -2, -3, -100, -2 ** 40):
            for fn in ("zero", "empty", "constant", "variable"):
                yield p(fn, m, keepa=False)
            for fn in ("resize", "pad_left", "pad_right"):
                yield p(fn, m)
        for m in range(n):
            yield p("pad_left", m)
            yield p("pad_right", m)
        valid = {length(u.order, k) for k in range(30)}
        for m in range(0, 30):
            if m not in valid:
                yield u.prob("BAD", "bad_create", {k: var("v%d" % k) for k in range(max(m, 1))}, [0, 0, 0, m, 0], {}, {8: 1})
        if u.order == 2:
            for m in (2, 4, 5, 7, 8, 9, 11, 14, 16):
                yield u.prob("BAD", "bad_list", {k: var("v%d" % k) for k in range(m)}, [0, 0, 0, m, 0], {}, {8: 1})
        for m in {0, n - 1, n + 1, n + 3}:
            if m >= 0 and m != n:
                yield p("eval", m, eigen=True)
        if u.order == 2:
            for r, c in ((n + 1, n), (n, n + 1), (n + 1, n + 1), (n - 1, n), (n, n - 1), (0, 0), (n - 1, n - 1), (0, n), (1, n * n)):
                if r < 0 or c < 0 or (r, c) == (n, n) or r * c > 400:
                    continue
                yield p("set_hm", r, c, eigen=True)
                yield p("hm", r, c, eigen=True)
                yield p("from_arrays", r, c, keepa=False, eigen=True)
    else:
        for m in {-1, 0, 1, n - 1, n + 1, 2 * n, n + 16, -n, -100, 2 ** 40} - {n}:
            for fn in ("zero", "empty", "constant", "variable"):
                yield p(fn, m, keepa=False)
        for m in {0, n - 1, n + 1, n + 2} - {n, -1}:
            yield u.prob("BAD", "bad_variables", {k: var("v%d" % k) for k in range(max(m, 1))}, [n] * 3 + [m, 0], {}, {8: 1})
        for m in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 15, 21, 28):
            if m != L:
                yield u.prob("BAD", "bad_list", {k: var("v%d" % k) for k in range(m)}, [n] * 3 + [m, 0], {}, {8: 1})


# ---------------------------------------------------------------- symbolic sizes (integer theory)

def sym(order, fn, iins, iexp, dom, want="ret", native=None, ssize=-1):
    return core.Problem("%s order %d, symbolic sizes" % (fn, order), "dd_struct.cpp",
                        ["HJ_ORDER=%d" % order, "HJ_SIZE=%d" % ssize, "HJ_SYMSIZE"], fn, {}, [i.n for i in iins], dom, {}, iexp,
                        want=want, mode="int", native_fn=native, nin=1)


def lenx(order, n):
    return n + 1 if order == 1 else ((n + 1) * (n + 2)).half()


def sym_access(order, top=2 ** 15):
    n, i, j = ivar("n"), ivar("i"), ivar("j")
    bnd = [n >= 1, n <= top, i >= 0, i < n]
    yield sym(order, "g_c_s", [n, i], {0: i + 1}, bnd, native="g_c_n")
    if order == 2:
        m = (n * (n + 1)).half()
        yield sym(order, "h1_s", [n, i], {0: n + 1 + i}, [n >= 1, n <= top, i >= 0, i < m], native="h1_n")
        # row by row upper triangle: sum_{r<i} (n - r) + (j - i)
        up = n + 1 + (i * n - (i * (i - 1)).half()) + (j - i)
        yield sym(order, "h2_s", [n, i, j], {0: up}, bnd + [j >= i, j < n], native="h2_n")
        yield sym(order, "h2_s", [n, j, i], {0: up}, bnd + [j >= i, j < n], native="h2_n")


def sym_sizes(order, top=2 ** 20):
    n = ivar("n")
    yield sym(order, "len", [n], {0: lenx(order, n)}, [n >= 0, n <= top])
    yield sym(order, "size_rt", [n], {0: n}, [n >= 0, n <= top])
    yield sym(order, "size_of", [n], {}, [n <= 0, n >= -0], want="throw")
    yield sym(order, "size_back", [n], {0: 0}, [n >= 0, n <= 2 ** 40], want=("ret", "throw"))


OPS2 = ("add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "atan2", "hypot")


def sym_bad(order, top=2 ** 15):
    n, m, k = ivar("n"), ivar("m"), ivar("k")
    b = [n >= 0, n <= top, m >= 0, m <= top]
    for op in OPS2:
        for d in (n < m, m < n):
            yield sym(order, "mm_%s_s" % op, [n, m], {}, b + [d], want="throw", native="mm_%s_n" % op)
    bk = b + [k >= 0, k <= top]
    for d in (n < m, m < n):
        yield sym(order, "mm_hypot3_s", [n, m, k], {}, bk + [d], want="throw", native="mm_hypot3_n")
        yield sym(order, "mm_hypot3_s", [n, k, m], {}, bk + [d], want="throw", native="mm_hypot3_n")
        yield sym(order, "mm_hypot3_s", [k, n, m], {}, bk + [d], want="throw", native="mm_hypot3_n")
    for op in ("pad_left", "pad_right"):
        yield sym(order, "mm_%s_s" % op, [n, m], {}, [n >= 0, n <= top, m < n, m >= -2 ** 40], want="throw", native="mm_%s_n" % op)
    for op in ("zero", "empty", "constant", "variable", "resize"):
        yield sym(order, "neg_" + op, [n], {}, [n < 0, n >= -2 ** 40], want="throw")
        yield sym(order, "neg_" + op, [n], {}, [n < 0, n >= -2 ** 40], want="throw")
