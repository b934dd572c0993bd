"""C21: hyperjet.f, d and dd: value, gradient and Hessian of each array entry, in its place."""
from vf import core, helpers, main
from vf.helpers import Entry

SHAPES = ((1,), (3,), (2, 2), (2, 1, 3))


def classes(tier):
    out = [(o, s, s) for o in (1, 2) for s in range(17)]
    return out + [(o, -1, n) for o in (1, 2) for n in ((0, 1, 2, 3, 6, 17) if tier == "quick" else range(18))]


def count(shape):
    n = 1
    for k in shape or ():
        n *= k
    return n


def same_class(res, tier, cs):
    texts, globs = helpers.notes()
    for c in cs:
        for what in ("f", "d", "dd"):
            for shape in (None,) + (SHAPES if c[2] in (0, 1, 2, 3, 6) else ((2,),)):
                helpers.decide(what, shape, [Entry("dd", k, *c) for k in range(count(shape))], texts, globs, res)
                if len(res.violations) > 3:
                    return


def mixtures(res, tier):
    texts, globs = helpers.notes()
    for what in ("f", "d", "dd"):
        for shape in (None,) + SHAPES:
            for kind in (("flt",), ("int", 3), ("int", 0), ("ss", 0), ("ss", 5)):
                helpers.decide(what, shape, [Entry(kind[0], k, *kind[1:]) for k in range(count(shape))], texts, globs, res)
    kinds = [("dd", 2, 2, 2), ("dd", 1, -1, 3), ("flt",), ("int", 3), ("ss", 3), ("dd", 2, -1, 1), ("int", 0), ("dd", 1, 1, 1)]
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            if i == j:
                continue
            c = kinds[(i + j) % len(kinds)]
            for shape, l in (((2,), (a, b)), ((3,), (a, b, c)), ((2, 2), (a, b, c, a))):
                helpers.decide("f", shape, [Entry(k[0], q, *k[1:]) for q, k in enumerate(l)], texts, globs, res)
    # gradients of one length whatever the order and storage; empty ones together
    for l in ([("dd", 1, 2, 2), ("dd", 2, 2, 2), ("dd", 2, -1, 2), ("dd", 1, -1, 2)], [("dd", 1, 0, 0), ("flt",), ("ss", 1), ("int", 2)]):
        for q in range(4):
            m = l[q:] + l[:q]
            helpers.decide("d", (2, 2), [Entry(k[0], i, *k[1:]) for i, k in enumerate(m)], texts, globs, res)
            helpers.decide("d", (3,), [Entry(k[0], i, *k[1:]) for i, k in enumerate(m[:3])], texts, globs, res)
    for l in ([("dd", 2, 3, 3), ("dd", 2, -1, 3)], [("dd", 2, 1, 1), ("dd", 2, -1, 1)], [("dd", 2, 0, 0), ("dd", 1, 4, 4), ("ss", 5), ("flt",), ("int", 2)]):
        for m in (l, l[::-1]):
            helpers.decide("dd", (len(m),), [Entry(k[0], i, *k[1:]) for i, k in enumerate(m)], texts, globs, res)
    for shape in ((0,), (2, 0)):
        helpers.decide("f", shape, [], texts, globs, res)


def tasks(tier):
    cs = sorted(classes(tier), key=lambda c: c[2])
    return [(mixtures, ())] + [(same_class, (tuple(cs[k::10]),)) for k in range(10)]


def describe(tier):
    return {"bounds": "single entries and arrays of shapes %s of every bound hyper-dual class (sizes 0..16, run-time up to 17), SScalar, floats "
                      "and ints; mixtures of up to 4 kinds; every value and derivative" % (SHAPES,),
            "assumptions": main.FP_ASSUMPTIONS + [
                "the expression text handed to py::eval is run by this sandbox's CPython and numpy on stand-in objects; attribute accesses "
                "are executed symbolically through the binding sources, everything numpy does is done by numpy itself on object arrays",
                "numpy stores results of type double exactly"]}
