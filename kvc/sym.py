"""Symbolic values: integers (python int or z3 BV), booleans (python bool or z3 Bool), pointers, aggregates."""
import z3

IntS = z3.IntSort()
BoolS = z3.BoolSort()
_n = [0]


def fresh_name(p):
    _n[0] += 1
    return '%s!%d' % (p, _n[0])


def fint(p='i'):
    return z3.Int(fresh_name(p))


def fbv(w=64, p='b'):
    return z3.BitVec(fresh_name(p), w)


def fbool(p='p'):
    return z3.Bool(fresh_name(p))


class Region:
    """A concrete object (one memory block with its own identity)."""
    _c = [0]

    def __init__(self, name, size=None, kind='heap', align=16):
        Region._c[0] += 1
        self.id = Region._c[0]
        self.name = name
        self.size = size
        self.kind = kind
        self.align = align
        self.addr = z3.BitVec('addr_%s_%d' % (name, self.id), 64)
        self.embeds = []     # (lo, hi, fam, id): [lo,hi) of this region is element id of family fam
        self.stride = None   # array regions: element size
        self.count = None    # array regions: number of elements (int or BV64)
        self.efields = None  # array regions: off -> kind
        self.const = False

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Elem:
    __slots__ = ('fam', 'id')

    def __init__(self, fam, id):
        self.fam = fam
        self.id = id

    def __repr__(self):
        return '%s(%s)' % (self.fam, self.id)


class Arr:
    """element idx of an array region"""
    __slots__ = ('reg', 'idx')

    def __init__(self, reg, idx):
        self.reg = reg
        self.idx = idx

    def __repr__(self):
        return '%r[%s]' % (self.reg, self.idx)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn:' + self.name


class CoFn:
    """resume/destroy function pointer stored in an opaque coroutine frame"""
    __slots__ = ('fam', 'id', 'which')

    def __init__(self, fam, id, which):
        self.fam, self.id, self.which = fam, id, which

    def __repr__(self):
        return 'cofn:%s(%s).%s' % (self.fam, self.id, self.which)


class P:
    __slots__ = ('base', 'off')

    def __init__(self, base, off=0):
        self.base = base
        self.off = off

    def __repr__(self):
        return '&%r+%s' % (self.base, self.off)


NULL = P(None, 0)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Opq:
    """value we do not interpret (floats...)"""
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def mask(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    v = mask(v, w)
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    return e


def tobool(v):
    """i1 value -> python bool or z3 Bool"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if z3.is_bool(v):
        return v
    if z3.is_bv(v):
        return simp(v == 1) if v.size() == 1 else simp(z3.Extract(0, 0, v) == 1)
    raise TypeError(v)


def zb(v):
    """to z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v


def zi(v):
    if isinstance(v, bool):
        v = int(v)
    return z3.IntVal(v) if isinstance(v, int) else v


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bnot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def bimp(a, b):
    return bor(bnot(a), b)


def same(a, b):
    """syntactic sameness of values"""
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    if isinstance(a, P) and isinstance(b, P):
        return same_base(a.base, b.base) and same(a.off, b.off)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return type(a) == type(b) and a == b
    except Exception:
        return False


def same_base(a, b):
    if a is b:
        return True
    if type(a) != type(b):
        return False
    if isinstance(a, Elem):
        return a.fam == b.fam and same(a.id, b.id)
    if isinstance(a, Arr):
        return a.reg is b.reg and same(a.idx, b.idx)
    if isinstance(a, Fn):
        return a.name == b.name
    if isinstance(a, CoFn):
        return a.fam == b.fam and a.which == b.which and same(a.id, b.id)
    return False
