"""C05: sparse scalars against calculus, exact real arithmetic, over name sets and hash behaviours."""
from vf import core, dd, main, spec, ss

NAMES3 = (0, 2, 3)          # "x", a name longer than the small-string buffer, the empty name
BIG = [(0x00ffff, 0), (0xffffff, 0), (0x000fff, 0xfff000), (0x00ffff, 0xffff00), (0xffffff, 0xffffff), (1, 0xffffff), (0xfffffe, 1),
       (0x001fff, 0x002000)]
HASHES = ("fnv", "collide", "sum", "rev")


def masks(names):
    out = []
    for m in range(1 << len(names)):
        out.append(sum(1 << names[k] for k in range(len(names)) if m >> k & 1))
    return out


def run(res, tier, kind, hash_model):
    ps = []
    m3, m2 = masks(NAMES3), masks((1, 2))
    if kind == "unary":
        for m in m3 + ([0xffff, 0xffffff] if hash_model == "fnv" else []):
            u = ss.Unit(m, hash_model=hash_model)
            ps += list(ss.arith_unary(u)) + list(ss.make(u))
            ps += list(ss.funcs(u)) + list(ss.other(u))
    elif kind == "binary":
        for a in m3:
            for b in m3:
                u = ss.Unit(a, b, hash_model=hash_model)
                ps += list(ss.arith_binary(u)) + list(ss.binary(u)) + list(ss.copies(u))
    elif kind == "big":
        for a, b in BIG:
            u = ss.Unit(a, b, hash_model=hash_model)
            ps += list(ss.arith_binary(u)) + list(ss.binary(u)) + list(ss.copies(u))
            u = ss.Unit(a, b, 0x0f0f0f, hash_model=hash_model)
            ps += list(ss.ternary(u))
    else:
        for a in m2:
            for b in m2:
                for c in m2:
                    ps += list(ss.ternary(ss.Unit(a, b, c, hash_model=hash_model)))
        if tier == "thorough":
            for a in m3:
                for b in m3:
                    for c in m3:
                        ps += list(ss.ternary(ss.Unit(a, b, c, hash_model=hash_model)))
    dd.run_all(res, ps)
    if hash_model == "fnv":
        for p in ps[::7]:
            core.validate(p, res, 1)


def oracle(res, tier):
    res.extra["oracle_derivatives_compared_with_numeric_differentiation"] = spec.selftest(3 if tier == "quick" else 20, core.SEED)


def tasks(tier):
    return [(run, (k, h)) for k in ("big", "binary", "unary", "ternary") for h in HASHES] + [(oracle, ())]


def describe(tier):
    return {"bounds": "operand name sets: all subsets of 3 names (one longer than the small-string buffer, one empty) for one and two "
                      "operands, all subsets of 2 names for three operands, and %d pairs of sets of up to 24 names (rehashing); "
                      "4 hash functions (one colliding always); scalar type double; all values and derivatives symbolic" % len(BIG),
            "assumptions": main.REAL_ASSUMPTIONS + ["names other than those enumerated behave like them (the code never looks inside a name)"]}
