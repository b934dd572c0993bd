"""A model of std::ostream for the executor: what is written, piece by piece, with the format state each piece was written under."""
from . import engine, terms
from .engine import PathEnd, store_cells
from .terms import Node, bvar, mk

SH = engine.SHIFT
IOS = 8                      # vptr, then the virtual base right behind it
PREC, WIDTH, FLAGS = 8, 16, 24
STD_FLAGS = 0x1002           # skipws | dec


def ios_of(ex, s):
    vp = rd(ex, s, 64)
    return s + terms.sgn(rd(ex, vp - 24, 64), 64)


def raw(ex, addr, n):
    o, off = ex.obj(addr, n)
    return o.data[off:off + n]


def rd(ex, addr, w):
    b = raw(ex, addr, w // 8)
    if all(isinstance(x, int) for x in b):
        return int.from_bytes(bytes(b), "little")
    if isinstance(b[0], tuple) and b == terms.cells(b[0][0]):
        return b[0][0]
    raise PathEnd("unsupported", "format state of a stream")


def wr(ex, addr, w, v):
    o, off = ex.obj(addr, w // 8, True)
    if isinstance(v, Node):
        o.data[off:off + w // 8] = terms.cells(v)
    else:
        o.data[off:off + w // 8] = list((v & (2 ** w - 1)).to_bytes(w // 8, "little"))


def vtable(ex, off):
    t = ex.alloc(48, "static-heap", "vtable of a stream")
    wr(ex, t, 64, off)
    return t + 24


def init_ios(ex, ios, prec=6, flags=STD_FLAGS, width=0):
    for k in range(264):
        wr(ex, ios + k, 8, 0)
    wr(ex, ios + PREC, 64, prec)
    wr(ex, ios + WIDTH, 64, width)
    wr(ex, ios + FLAGS, 32, flags)
    wr(ex, ios + 224, 8, 32)
    wr(ex, ios + 225, 8, 1)


def event(ex, s, kind, what, width=True):
    i = ios_of(ex, s)
    st = (rd(ex, i + PREC, 64), rd(ex, i + FLAGS, 32), rd(ex, i + WIDTH, 64) if width else 0)
    if width:
        wr(ex, i + WIDTH, 64, 0)
    ex.events.append((s, kind, what, st))
    return s


def text(ex, s, p, n, width=True):
    b = raw(ex, p, n) if n else []
    if any(not isinstance(x, int) for x in b):
        raise PathEnd("error" if any(x is None for x in b) else "unsupported", "text with uninitialised or symbolic bytes")
    return event(ex, s, "s", bytes(b), width)


def dbl(ex, s, v):
    if isinstance(v, Node):
        return event(ex, s, "d", v)
    raise PathEnd("error", "uninitialised value written to a stream")


def put_int(ex, a):
    return event(ex, a[0], "i", a[1])


def cstr(ex, a):
    b = ex.cstr(a[1])
    return event(ex, a[0], "s", b)


def chr_(ex, a, width=True):
    v = a[1]
    if not isinstance(v, int):
        raise PathEnd("unsupported", "symbolic character")
    return event(ex, a[0], "s", bytes([v & 255]), width)


def new_stream(ex, prec, flags, width):
    s = ex.alloc(8 + 264, "static-heap", "stream")
    wr(ex, s, 64, vtable(ex, 8))
    init_ios(ex, s + 8, prec, flags, width)
    return s


def ctor(vps, ios):
    """complete-object constructor: vptrs at the given offsets, virtual base at ios"""
    def f(ex, a):
        s = a[0]
        for v in vps:
            wr(ex, s + v, 64, vtable(ex, ios - v))
        init_ios(ex, s + ios)
    return f


def str_of(delta):
    """std::string basic_stringstream::str() const, returned through the first argument"""
    def f(ex, a):
        ret, s = a[0], a[1] + delta
        k = len(ex.events)
        m = b"\x01S%d" % k
        ex.events.append((s, "str", m, None))
        wr(ex, ret, 64, ret + 16)
        wr(ex, ret + 8, 64, len(m))
        for i, c in enumerate(m + b"\0"):
            wr(ex, ret + 16 + i, 8, c)
    return f


def nop(ex, a):
    return None


SS = "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE"
OS = "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE"


def externs(make_stream):
    e = {
        "hj_stream": lambda ex, a: make_stream(ex),
        "_ZNSolsEd": lambda ex, a: dbl(ex, a[0], a[1]), "_ZNSo9_M_insertIdEERSoT_": lambda ex, a: dbl(ex, a[0], a[1]),
        "_ZNSolsEf": lambda ex, a: dbl(ex, a[0], mk("fpext", (a[1],), "d")),
        "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc": cstr,
        "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c": chr_,
        "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE":
            lambda ex, a: text(ex, a[0], rd(ex, a[1], 64), rd(ex, a[1] + 8, 64)),
        "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l": lambda ex, a: text(ex, a[0], a[1], a[2]),
        "_ZNSo3putEc": lambda ex, a: chr_(ex, a, False),
        "_ZNSo5writeEPKcl": lambda ex, a: text(ex, a[0], a[1], a[2], False),
        "_ZNSo5flushEv": lambda ex, a: a[0],
    }
    for c in "ilmjstxyb":
        e["_ZNSols" + "E" + c] = put_int
    for b, vps, ios, d in ((SS, (0, 16), 128, 16), (OS, (0,), 112, 0)):
        for c in ("C1Ev", "C2Ev"):
            e[b + c] = ctor(vps, ios)
        for c in ("D1Ev", "D2Ev", "D0Ev"):
            e[b + c] = nop
        e[b.replace("_ZNSt", "_ZNKSt") + "3strEv"] = str_of(d)
    return e


def flatten(events, stream):
    """characters and (double term, precision, flags, width) elements written to one stream"""
    out = []
    for s, kind, what, st in events:
        if s != stream:
            continue
        if kind == "s":
            if st[2] != 0:
                out.append(("s", what, st))
            else:
                out += [bytes([c]) for c in what]
        elif kind == "d":
            out.append(("d", what, st))
        elif kind == "i":
            out.append(("i", what, st))
    return out
