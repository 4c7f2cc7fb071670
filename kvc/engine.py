"""Symbolic executor / verification-condition generator over LLVM IR.

Path-wise symbolic execution; every memory access, assertion, contract clause and loop
invariant becomes an obligation that is discharged by the solver (see prove.py).  Loops
that are not decided concretely are cut with inductive invariants (loops.py).
"""
import sys, time
import z3
from sym import *
import ir as IR

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Mixed(Unsupported):
    loop = None


class NeedInv(Exception):
    def __init__(self, loop, why=''):
        self.loop = loop
        self.why = why


class Fam:
    """unbounded family of objects of one C++ type; fields: off -> kind
    kind: ('int',w) | ('bool',) | ('ref',fam,off) | ('pref',fam) | ('cofn',which)"""

    def __init__(self, name, fields, size=None, perm=True):
        self.name, self.fields, self.size, self.perm = name, dict(fields), size, perm


class Exc:
    def __init__(self, ptr, tname):
        self.ptr, self.tname = ptr, tname


class St:
    __slots__ = ('pc', 'mem', 'arrs', 'own', 'g', 'lists', 'dead', 'lost', 'cow', 'nd', 'trail', 'caught')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.arrs = {}
        self.own = {}
        self.g = {}
        self.lists = {}
        self.dead = frozenset()
        self.lost = frozenset()
        self.cow = set()
        self.nd = 0
        self.trail = ()
        self.caught = ()

    def fork(self):
        s = St.__new__(St)
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.arrs = dict(self.arrs)
        s.own = dict(self.own)
        s.g = dict(self.g)
        s.lists = dict(self.lists)
        s.dead, s.lost, s.nd, s.trail, s.caught = self.dead, self.lost, self.nd, self.trail, self.caught
        s.cow = set()
        self.cow = set()
        return s

    def become(self, s):
        """take over another state"""
        if s is not self:
            for k in St.__slots__:
                setattr(self, k, getattr(s, k))

    def cells(self, r):
        return self.mem.get(r) or {}

    def wcells(self, r):
        c = self.mem.get(r)
        if c is None:
            c = self.mem[r] = {}
            self.cow.add(r)
        elif r not in self.cow:
            c = self.mem[r] = dict(c)
            self.cow.add(r)
        return c

    def assume(self, *cs):
        for c in cs:
            if c is True:
                continue
            if c is False:
                self.pc.append(z3.BoolVal(False))
            else:
                self.pc.append(c)


class Loop:
    __slots__ = ('fn', 'header', 'blocks')


def find_loops(F):
    """natural loops by header; blocks reachable analysis.  returns {header: Loop}"""
    if F.loops is not None:
        return F.loops
    B = F.blocks
    n = len(B)
    preds = [[] for _ in range(n)]
    for b in B:
        for s in b.succs:
            preds[s].append(b.id)
    # dominators (iterative)
    order = []
    seen = set()

    def dfs(r):
        st = [(r, iter(B[r].succs))]
        seen.add(r)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(B[v].succs)))
                    break
            else:
                order.append(u)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                a, c = p, d
                while a != c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                d = a
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in B[b].succs:
            if s in num and dom(s, b):
                L = loops.get(s)
                if not L:
                    L = loops[s] = Loop()
                    L.fn, L.header, L.blocks = F, s, {s}
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    wl += [p for p in preds[x] if p in num]
    F.loops = loops
    return loops


class Engine:
    def __init__(self, mod, prover, small=False):
        self.mod = mod
        self.pr = prover
        self.small = small          # bounded refutation mode
        self.fams = {}
        self.null_off = {}     # family -> offset in the null element that has address 0
        self.overrides = []         # (compiled regex, handler, tag)
        self.gregs = {}
        self.atomic = {}            # (regkey, off) -> handler
        self.spec = 0               # >0: speculative run, obligations are assumed
        self.int2ptr = {}
        self.typeids = {}
        self.steps = 0
        self.max_steps = 400000
        self.fn_used = set()
        self.models_used = set()
        self.contracts_used = set()
        self.on_resume = None       # (st, cofn, inst) -> outcomes
        self.on_icall = None
        self.atomic_any = None      # hook (ex, st, ptr, inst) -> protocol for an atomic object not listed in self.atomic
        self.after_rmw = None       # hook (ex, st, ptr, op, old, order, inst) after a sequential read-modify-write
        self.on_access = None       # hook (st, ptr, size, write, inst)
        self.addrfn = {}
        self.depth = 0
        self.loopinfo = []
        self.cov = {}               # source line coverage
        self.target = None
        self.deadline = None
        self.unroll_limit = 80
        self.nd_limit = 2
        self.cmp_harvest = None
        self.on_loop = None
        self.extra_cands = None
        self.oracle = None
        import models
        self.models = models.MODELS
        self._mcache = {}

    def choose(self, name, opts):
        """setup-time case split: the target is run once per combination"""
        return self.oracle.choose(name, opts)

    # ------------------------------------------------------------------ obligations
    def loc(self, inst):
        if inst is None:
            return ''
        f = (inst.file or '').rsplit('/', 1)[-1]
        return '%s:%s in %s' % (f, inst.line, short(inst.fn.dem))

    def feasible(self, st, *extra):
        for e in extra:
            if e is False:
                return False
        ex = [e for e in extra if e is not True]
        return self.pr.feasible(st.pc, ex)

    def prove(self, st, cond, name, inst=None, note=None):
        """obligation.  Assumes it afterwards.  Returns False when the path is dead."""
        if is_sym(cond):
            cond = simp(cond)
        if self.spec:
            if cond is False:
                return False
            st.assume(cond)
            return True
        ok = self.pr.prove(st.pc, cond, name, self.loc(inst), st, note)
        if not ok and cond is False:
            return False
        st.assume(cond)
        return cond is not False

    def fail(self, st, name, inst=None, note=None):
        self.prove(st, False, name, inst, note)

    # ------------------------------------------------------------------ families
    def fam(self, name, fields=None, size=None, perm=True):
        if fields is not None:
            self.fams[name] = Fam(name, fields, size, perm)
        return self.fams[name]

    def sort_of(self, kind):
        k = kind[0]
        if k == 'int':
            return z3.BitVecSort(kind[1])
        if k in ('bool', 'cofn'):
            return BoolS
        return IntS

    def arr(self, st, fam, off, sub=''):
        key = (fam, off, sub)
        a = st.arrs.get(key)
        if a is None:
            if off == 'done':
                so = BoolS
            elif sub == 'off':
                so = z3.BitVecSort(64)
            else:
                so = self.sort_of(self.fams[fam].fields[off])
            # deterministic name: initial content is the same on all paths
            a = z3.Array('%s_%s%s_0' % (fam, off, sub), IntS, so)
            st.arrs[key] = a
        return a

    def ownarr(self, st, fam):
        a = st.own.get(fam)
        if a is None:
            a = z3.Array('own_%s_0' % fam, IntS, BoolS)
            if self.small:
                a = z3.K(IntS, z3.BoolVal(False))
            st.own[fam] = a
        return a

    def setown(self, st, fam, id, v):
        st.own[fam] = z3.Store(self.ownarr(st, fam), zi(id), zb(v))

    def owned(self, st, fam, id):
        return simp(z3.Select(self.ownarr(st, fam), zi(id)))

    def check_perm(self, st, fam, id, inst, what='access'):
        F = self.fams[fam]
        if not F.perm:
            return self.prove(st, simp(zi(id) != 0), 'nonnull:%s' % fam, inst)
        return self.prove(st, self.owned(st, fam, id), 'permission:%s' % fam, inst,
                          '%s of a %s that this code does not own at this point' % (what, fam))

    def elem_load(self, st, fam, id, off, size, inst, perm=True):
        F = self.fams[fam]
        kind = F.fields.get(off)
        if kind is None:
            raise Unsupported('load from %s at offset %s (%s)' % (fam, off, self.loc(inst)))
        if perm:
            self.check_perm(st, fam, id, inst)
        return self.elem_get(st, fam, id, off)

    def elem_get(self, st, fam, id, off):
        kind = self.fams[fam].fields[off]
        k = kind[0]
        if k == 'cofn':
            return P(CoFn(fam, id, kind[1]), 0)
        v = simp(z3.Select(self.arr(st, fam, off), zi(id)))
        if k == 'int' or k == 'bool':
            return v
        if k == 'ref':
            if isinstance(v, int) and v == 0:
                return NULL
            return P(Elem(kind[1], v), kind[2])
        if k == 'pref':
            o = simp(z3.Select(self.arr(st, fam, off, 'off'), zi(id)))
            return P(Elem(kind[1], v), o)
        raise Unsupported('kind %r' % (kind,))

    def elem_set(self, st, fam, id, off, val):
        kind = self.fams[fam].fields.get(off)
        if kind is None:
            raise Unsupported('store to %s at offset %s' % (fam, off))
        k = kind[0]
        a = self.arr(st, fam, off)
        if k == 'int':
            if isinstance(val, P):
                val = self.ptr2int(st, val)
            if val is UNDEF:
                val = fbv(kind[1])
            st.arrs[(fam, off, '')] = z3.Store(a, zi(id), bv(val, kind[1]))
        elif k == 'bool':
            st.arrs[(fam, off, '')] = z3.Store(a, zi(id), zb(tobool(val)))
        elif k == 'ref':
            st.arrs[(fam, off, '')] = z3.Store(a, zi(id), zi(self.as_id(st, val, kind[1], kind[2])))
        elif k == 'pref':
            i, o = self.as_pref(st, val, kind[1])
            ao = self.arr(st, fam, off, 'off')
            st.arrs[(fam, off, '')] = z3.Store(a, zi(id), zi(i))
            st.arrs[(fam, off, 'off')] = z3.Store(ao, zi(id), bv(o, 64))
        elif k == 'cofn':
            raise Unsupported('store to coroutine header')

    def as_id(self, st, val, fam, off):
        """pointer -> element id of fam (pointer to offset off of the element); 0 is null"""
        if val is UNDEF:
            return fint('undef')
        if not isinstance(val, P):
            if isinstance(val, int) and val == 0:
                return 0
            raise Unsupported('int as %s ref' % fam)
        val = self.norm(val)
        b = val.base
        if b is None:
            return 0
        if isinstance(b, Elem) and b.fam == fam:
            if same(val.off, off):
                return b.id
            raise Unsupported('ref into %s at offset %s, expected %s' % (fam, val.off, off))
        if isinstance(b, (Region, Arr, Fn)) and hasattr(self, 'tokenise'):
            t = self.tokenise(st, val, fam)
            if t is not None:
                return t
        raise Unsupported('cannot store %r as reference to %s' % (val, fam))

    def as_pref(self, st, val, fam):
        if val is UNDEF:
            return fint('undef'), fbv()
        if not isinstance(val, P):
            raise Unsupported('int as ptr')
        b = val.base
        if b is None:
            return 0, simp(bv(val.off, 64) + self.null_off[fam]) if fam in self.null_off else val.off
        if isinstance(b, Elem) and b.fam == fam:
            return b.id, val.off
        raise Unsupported('cannot store %r as pointer into %s' % (val, fam))

    def norm(self, p):
        b = p.base
        if isinstance(b, Region) and b.embeds and isinstance(p.off, int):
            for lo, hi, fam, id in b.embeds:
                if lo <= p.off < hi:
                    return P(Elem(fam, id), p.off - lo)
        if isinstance(b, Region) and b.stride and isinstance(p.off, int):
            return P(Arr(b, p.off // b.stride), p.off % b.stride)
        return p

    # ------------------------------------------------------------------ regions
    def new_region(self, st, name, size, kind='heap', align=16):
        r = Region(name, size, kind, align)
        st.mem[r] = {}
        st.cow.add(r)
        return r

    def greg(self, st, name):
        r = self.gregs.get(name)
        if r is None:
            G = self.mod.globals[name]
            r = Region('@' + name, G.size, 'global')
            r.const = G.const
            self.gregs[name] = r
        if r not in st.mem:
            st.mem[r] = {}
            st.cow.add(r)
            G = self.mod.globals[name]
            if G.init:
                op = self.mod.operand(G.init, {})
                self.init_const(st, r, 0, op, G.ty)
        return r

    def init_const(self, st, r, off, op, ty):
        c = st.wcells(r)
        k = op[0]
        if k == 'bytes':
            for i, ch in enumerate(op[1]):
                c[off + i] = (1, ch)
        elif k == 'agg':
            t = op[2]
            if t[0] == 'struct':
                for o, e, et in zip(t[2], op[1], t[1]):
                    self.init_const(st, r, off + o, e, et)
            else:
                es = IR.Module.size(t[2])
                for i, e in enumerate(op[1]):
                    self.init_const(st, r, off + i * es, e, t[2])
        elif k == 'zero':
            self.zero_range(st, P(r, off), IR.Module.size(op[1]))
        elif k == 'undef':
            pass
        else:
            c[off] = (IR.Module.size(ty), self.cval(st, op))

    def zero_range(self, st, p, n, inst=None):
        """memset 0"""
        b = p.base
        if isinstance(b, Region):
            c = st.wcells(b)
            self.clear_range(c, p.off, n)
            o = p.off
            c[('z', o)] = (n, 0)
        elif isinstance(b, Elem):
            for fo, kind in self.fams[b.fam].fields.items():
                if p.off <= fo < p.off + n:
                    self.elem_set(st, b.fam, b.id, fo, NULL if kind[0] in ('ref', 'pref') else 0)
        else:
            raise Unsupported('memset on %r' % (p,))

    @staticmethod
    def clear_range(c, off, n):
        for k in list(c):
            if isinstance(k, int):
                sz = c[k][0]
                if k < off + n and off < k + sz:
                    if k < off or k + sz > off + n:
                        # partial overlap: keep bytes of concrete ints
                        v = c[k][1]
                        if isinstance(v, int):
                            del c[k]
                            for i in range(sz):
                                if not (off <= k + i < off + n):
                                    c[k + i] = (1, (v >> (8 * i)) & 255)
                            continue
                        if is_sym(v) and z3.is_bv(v):
                            del c[k]
                            for i in range(sz):
                                if not (off <= k + i < off + n):
                                    c[k + i] = (1, simp(z3.Extract(8 * i + 7, 8 * i, v)))
                            continue
                    del c[k]
            else:
                zo = k[1]
                zn = c[k][0]
                if zo < off + n and off < zo + zn:
                    del c[k]
                    if zo < off:
                        c[('z', zo)] = (off - zo, 0)
                    if zo + zn > off + n:
                        c[('z', off + n)] = (zo + zn - off - n, 0)

    def region_ok(self, st, r, off, size, inst, write=False):
        if r in st.dead:
            self.fail(st, 'use-after-free:%s' % r.name, inst, 'access to %r after it was released' % r)
            return False
        if r in st.lost:
            self.fail(st, 'use-after-handover:%s' % r.name, inst,
                      'access to %r after it was made available to another thread or coroutine' % r)
            return False
        if r.size is not None:
            if isinstance(off, int) and isinstance(r.size, int):
                if off < 0 or off + size > r.size:
                    self.fail(st, 'out-of-bounds:%s' % r.name, inst)
                    return False
            else:
                o = bv(off, 64)
                self.prove(st, simp(z3.And(z3.ULE(o, bv(r.size, 64)), z3.ULE(o + size, bv(r.size, 64)),
                                           z3.ULE(o, o + size))), 'out-of-bounds:%s' % r.name, inst)
        return True

    def window(self, st, b, off):
        """a symbolic offset into a region: the cells around the first such offset form a window of their own"""
        wins = st.g.get('win', {}).get(b, ())
        if isinstance(off, int):
            if wins:
                raise Unsupported('constant and symbolic offsets into %r' % b)
            return b, off
        for base, sub in wins:
            d = simp(off - base)
            if not isinstance(d, int):
                r, m = self.pr.query(st.pc, [], 5000)
                k = m.model().eval(d, model_completion=True).as_long() if r == z3.sat else None
                if k is None or self.pr.query(st.pc, [d != k], 5000)[0] != z3.unsat:
                    raise Unsupported('unrelated symbolic offsets into %r' % b)
                d = k
            if d >= 1 << 63:
                d -= 1 << 64
            return sub, d
        if st.cells(b):
            raise Unsupported('constant and symbolic offsets into %r' % b)
        sub = self.new_region(st, b.name + '+window', None, 'window')
        w = dict(st.g.get('win', {}))
        w[b] = wins + ((off, sub),)
        st.g['win'] = w
        return sub, 0

    def load_cell(self, st, r, off, size, inst=None):
        c = st.cells(r)
        e = c.get(off)
        if e is not None and e[0] == size:
            return e[1]
        # zero ranges
        for k, v in c.items():
            if isinstance(k, tuple) and k[1] <= off and off + size <= k[1] + v[0]:
                if not any(isinstance(q, int) and q < off + size and off < q + c[q][0] for q in c):
                    return 0
        # compose from bytes / containing cell
        bs = []
        for i in range(size):
            a = off + i
            got = None
            for k, v in c.items():
                if isinstance(k, int) and k <= a < k + v[0]:
                    x = v[1]
                    sh = 8 * (a - k)
                    if isinstance(x, int):
                        got = (x >> sh) & 255
                    elif is_sym(x) and z3.is_bv(x) and x.size() >= sh + 8:
                        got = z3.Extract(sh + 7, sh, x)
                    elif is_sym(x) and z3.is_bool(x):
                        got = bv(x, 8)
                    elif isinstance(x, P):
                        y = self.ptr2int(st, x)
                        got = (y >> sh) & 255 if isinstance(y, int) else z3.Extract(sh + 7, sh, y)
                    break
                if isinstance(k, tuple) and k[1] <= a < k[1] + v[0]:
                    got = 0
            bs.append(got)
        if all(b is None for b in bs):
            return UNDEF
        bs = [fbv(8, 'undef') if b is None else b for b in bs]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if size == 1:
            return simp(bs[0])
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def store_cell(self, st, r, off, size, val):
        c = st.wcells(r)
        e = c.get(off)
        if e is None or e[0] != size or True:
            self.clear_range(c, off, size)
        c[off] = (size, val)

    # ------------------------------------------------------------------ typed access
    def coerce(self, st, v, ty):
        """raw cell value -> value of IR type"""
        k = ty[0]
        if k == 'ptr':
            if isinstance(v, P):
                return v
            if v is UNDEF:
                return UNDEF
            return self.int2p(v)
        if k == 'i':
            w = ty[1]
            if isinstance(v, P):
                v = self.ptr2int(st, v)
            if v is UNDEF:
                return fbool('undef') if w == 1 else fbv(w, 'undef')
            if w == 1:
                return tobool(v)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return mask(v, w)
            if isinstance(v, Opq):
                return fbv(w, 'opq')
            if z3.is_bool(v):
                return bv(v, w)
            if v.size() != w:
                if v.size() > w:
                    return simp(z3.Extract(w - 1, 0, v))
                return simp(z3.ZeroExt(w - v.size(), v))
            return v
        if k == 'fp':
            return v
        return v

    def load(self, st, p, ty, inst):
        k = ty[0]
        if k == 'struct':
            return [self.load(st, self.padd(p, o), t, inst) for t, o in zip(ty[1], ty[2])]
        if k == 'arr':
            es = IR.Module.size(ty[2])
            return [self.load(st, self.padd(p, i * es), ty[2], inst) for i in range(ty[1])]
        size = IR.Module.size(ty)
        v = self.load_raw(st, p, size, inst)
        return self.coerce(st, v, ty)

    def load_raw(self, st, p, size, inst):
        if not isinstance(p, P):
            if p is UNDEF:
                self.fail(st, 'load through uninitialised pointer', inst)
                return UNDEF
            p = self.int2p(p)
        p = self.norm(p)
        if self.on_access:
            r = self.on_access(st, p, size, False, inst)
            if r is not None:
                return r[0]
        b = p.base
        if b is None:
            self.fail(st, 'null-dereference', inst)
            return UNDEF
        if isinstance(b, Region):
            off = p.off if isinstance(p.off, int) else simp(p.off)
            if not self.region_ok(st, b, off, size, inst):
                return UNDEF
            b, off = self.window(st, b, off)
            return self.load_cell(st, b, off, size, inst)
        if isinstance(b, Elem):
            off = p.off if isinstance(p.off, int) else simp(p.off)
            if not isinstance(off, int):
                raise Unsupported('symbolic offset load from %r' % b)
            return self.elem_load(st, b.fam, b.id, off, size, inst)
        if isinstance(b, Arr):
            return self.arr_load(st, b, p.off, inst)
        if isinstance(b, CoFn):
            raise Unsupported('load from function')
        raise Unsupported('load from %r' % (p,))

    def store(self, st, p, ty, val, inst):
        k = ty[0]
        if k == 'struct':
            for i, (t, o) in enumerate(zip(ty[1], ty[2])):
                self.store(st, self.padd(p, o), t, UNDEF if val is UNDEF else val[i], inst)
            return
        if k == 'arr':
            es = IR.Module.size(ty[2])
            for i in range(ty[1]):
                self.store(st, self.padd(p, i * es), ty[2], UNDEF if val is UNDEF else val[i], inst)
            return
        if k == 'i' and ty[1] == 1:
            val = bv(val, 8) if is_sym(val) and z3.is_bool(val) else (int(val) if isinstance(val, bool) else val)
        self.store_raw(st, p, IR.Module.size(ty), val, inst)

    def store_raw(self, st, p, size, val, inst):
        if not isinstance(p, P):
            if p is UNDEF:
                self.fail(st, 'store through uninitialised pointer', inst)
                return
            p = self.int2p(p)
        p = self.norm(p)
        if self.on_access:
            r = self.on_access(st, p, size, True, inst)
            if r is not None:
                return
        b = p.base
        if b is None:
            self.fail(st, 'null-dereference', inst)
        elif isinstance(b, Region):
            off = p.off if isinstance(p.off, int) else simp(p.off)
            if not self.region_ok(st, b, off, size, inst, True):
                return
            b, off = self.window(st, b, off)
            self.store_cell(st, b, off, size, val)
        elif isinstance(b, Elem):
            off = p.off if isinstance(p.off, int) else simp(p.off)
            self.check_perm(st, b.fam, b.id, inst, 'write')
            self.elem_set(st, b.fam, b.id, off, val)
        elif isinstance(b, Arr):
            self.arr_store(st, b, p.off, val, inst)
        else:
            raise Unsupported('store to %r' % (p,))

    # array regions -----------------------------------------------------
    def arr_check(self, st, b, inst):
        if b.reg in st.dead:
            self.fail(st, 'use-after-free:%s' % b.reg.name, inst)
        n = b.reg.count
        if isinstance(b.idx, int) and isinstance(n, int):
            c = 0 <= b.idx < n
        else:
            c = z3.ULT(bv(b.idx, 64), bv(n, 64))
        self.prove(st, c, 'array-bounds:%s' % b.reg.name, inst)

    def aarr(self, st, reg, off, sub=''):
        key = (reg, off, sub)
        a = st.arrs.get(key)
        if a is None:
            kind = reg.efields[off]
            a = z3.Array('%s_%d_%s%s_0' % (reg.name, reg.id, off, sub), z3.BitVecSort(64),
                         z3.BitVecSort(64) if sub == 'off' else self.sort_of(kind))
            st.arrs[key] = a
        return a

    def arr_load(self, st, b, off, inst):
        self.arr_check(st, b, inst)
        kind = (b.reg.efields or {}).get(off)
        if kind is None:
            raise Unsupported('array element field %s of %r (%s)' % (off, b.reg, self.loc(inst)))
        v = simp(z3.Select(self.aarr(st, b.reg, off), bv(b.idx, 64)))
        if kind[0] in ('int', 'bool'):
            return v
        if kind[0] == 'ref':
            return NULL if isinstance(v, int) and v == 0 else P(Elem(kind[1], v), kind[2])
        raise Unsupported('array kind')

    def arr_store(self, st, b, off, val, inst):
        self.arr_check(st, b, inst)
        kind = (b.reg.efields or {}).get(off)
        if kind is None:
            raise Unsupported('array element field %s of %r' % (off, b.reg))
        a = self.aarr(st, b.reg, off)
        if kind[0] == 'int':
            v = bv(self.ptr2int(st, val) if isinstance(val, P) else val, kind[1])
        elif kind[0] == 'bool':
            v = zb(tobool(val))
        else:
            v = zi(self.as_id(st, val, kind[1], kind[2]))
        st.arrs[(b.reg, off, '')] = z3.Store(a, bv(b.idx, 64), v)

    # ------------------------------------------------------------------ pointers
    def padd(self, p, n):
        if not isinstance(p, P):
            if p is UNDEF:
                return UNDEF
            p = self.int2p(p)
        if isinstance(n, int) and n == 0:
            return p
        b = p.base
        if isinstance(b, Region) and b.stride:
            p = P(Arr(b, 0), p.off)
            b = p.base
        if isinstance(n, int):
            if isinstance(p.off, int):
                o = p.off + n
                if isinstance(b, Arr):
                    q, o = divmod(o, b.reg.stride)
                    if q:
                        i = b.idx
                        return P(Arr(b.reg, i + q if isinstance(i, int) and i + q >= 0 else simp(bv(i, 64) + q)), o)
                    return P(b, o)
                return P(b, o)
            return P(b, simp(p.off + n))
        return P(b, simp(bv(p.off, 64) + n))

    def gep(self, st, p, ty, idx):
        """idx: list of (value, width)"""
        if p is UNDEF:
            return UNDEF
        if not isinstance(p, P):
            p = self.int2p(p)
        cur = ty
        first = True
        for v, w in idx:
            if first:
                scale = IR.Module.size(cur)
                first = False
            elif cur[0] == 'struct':
                p = self.padd(p, cur[2][v])
                cur = cur[1][v]
                continue
            else:
                scale = IR.Module.size(cur[2])
                cur = cur[2]
            if isinstance(v, int):
                p = self.padd(p, sgn(v, w) * scale)
            else:
                if isinstance(v, Opq):
                    raise Unsupported('opaque index')
                e = v if v.size() == 64 else z3.SignExt(64 - v.size(), v)
                b = p.base
                if isinstance(b, Region) and b.stride:
                    p = P(Arr(b, 0), p.off)
                    b = p.base
                if isinstance(b, Arr) and b.reg.stride == scale:
                    p = P(Arr(b.reg, simp(bv(b.idx, 64) + e)), p.off)
                else:
                    p = self.padd(p, simp(e * scale))
        return p

    def elem_addr(self, fam):
        f = self.addrfn.get(fam)
        if f is None:
            f = self.addrfn[fam] = z3.Function('addr_of_' + fam, IntS, z3.BitVecSort(64))
        return f

    def ptr2int(self, st, p):
        if not isinstance(p, P):
            if p is UNDEF:
                return fbv(64, 'undef')
            return p
        b = p.base
        if b is None:
            return p.off
        if isinstance(b, Region):
            a = b.addr
        elif isinstance(b, Elem):
            a = self.elem_addr(b.fam)(zi(b.id))
        elif isinstance(b, Arr):
            a = b.reg.addr + bv(b.idx, 64) * b.reg.stride
        elif isinstance(b, Fn):
            a = z3.BitVec('fnaddr_' + b.name, 64)
        elif isinstance(b, CoFn):
            a = z3.Function('cofnaddr', IntS, z3.BitVecSort(64))(zi(b.id))
        else:
            raise Unsupported('address of %r' % (p,))
        e = simp(a + bv(p.off, 64))
        self.int2ptr[e.get_id()] = (e, p)
        return e

    def int2p(self, v):
        if isinstance(v, P):
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return NULL if v == 0 else P(None, v)
        if z3.is_bv(v):
            e = simp(v)
            if isinstance(e, int):
                return NULL if e == 0 else P(None, e)
            r = self.int2ptr.get(e.get_id())
            if r is not None:
                return r[1]
            for q in list(self.int2ptr.values()):
                d = simp(e - q[0])
                if isinstance(d, int):
                    return self.padd(q[1], sgn(d, 64))
        raise Unsupported('integer to pointer %s' % (v,))

    def is_null(self, st, p):
        b = p.base
        if b is None:
            return p.off == 0 if isinstance(p.off, int) else simp(p.off == 0)
        if isinstance(b, Elem):
            return simp(zi(b.id) == 0) if is_sym(b.id) else b.id == 0
        if isinstance(b, CoFn):
            if b.which == 'resume':
                return simp(z3.Select(self.arr(st, b.fam, 'done'), zi(b.id)))
            return False
        return False

    def zero_off(self, st, off):
        if not is_sym(off):
            return off == 0
        if not self.feasible(st, simp(bv(off, 64) != 0)):
            return True
        if not self.feasible(st, simp(bv(off, 64) == 0)):
            return False
        raise Unsupported('comparison of an object with an address of unknown value')

    def ptr_eq(self, st, a, b):
        a, b = self.int2p(a), self.int2p(b)
        if a is UNDEF or b is UNDEF:
            return fbool('undefcmp')
        a, b = self.norm(a), self.norm(b)
        A, B = a.base, b.base
        if A is None and B is None:
            return simp(bv(a.off, 64) == bv(b.off, 64)) if is_sym(a.off) or is_sym(b.off) else a.off == b.off
        if A is None:
            return self.is_null(st, b) if self.zero_off(st, a.off) else False
        if B is None:
            return self.is_null(st, a) if self.zero_off(st, b.off) else False
        offeq = (a.off == b.off) if isinstance(a.off, int) and isinstance(b.off, int) else \
            simp(bv(a.off, 64) == bv(b.off, 64))
        if isinstance(A, Region) and A.stride:
            A = Arr(A, 0)
        if isinstance(B, Region) and B.stride:
            B = Arr(B, 0)
        if isinstance(A, Elem) and isinstance(B, Elem):
            if A.fam != B.fam:
                return simp(band(zi(A.id) == 0, zi(B.id) == 0))
            ide = simp(zi(A.id) == zi(B.id))
            if offeq is True:
                return ide
            return simp(z3.And(zb(ide), z3.Or(zb(offeq), zi(A.id) == 0)))
        if isinstance(A, Region) and isinstance(B, Region):
            return offeq if A is B else False
        if isinstance(A, Arr) and isinstance(B, Arr):
            if A.reg is not B.reg:
                return False
            return simp(z3.And(bv(A.idx, 64) == bv(B.idx, 64), zb(offeq)))
        if isinstance(A, Fn) and isinstance(B, Fn):
            return A.name == B.name
        if isinstance(A, CoFn) and isinstance(B, CoFn):
            raise Unsupported('compare coroutine functions')
        return False

    # ------------------------------------------------------------------ operands
    def cval(self, st, op):
        k = op[0]
        if k == 'i':
            return bool(op[2]) if op[1] == 1 else op[2]
        if k == 'null':
            return NULL
        if k == 'g':
            n = op[1]
            if n in self.mod.funcs:
                return P(Fn(self.mod.funcs[n].name), 0)
            if n in self.mod.globals:
                return P(self.greg(st, n), 0)
            return P(Fn(n), 0)
        if k == 'undef':
            return self.undef_of(op[1])
        if k == 'zero':
            return self.zero_of(op[1])
        if k == 'agg':
            return [self.cval(st, e) for e in op[1]]
        if k == 'ce':
            _, o, ops, x, ty = op
            if o == 'gep':
                vs = [self.cval(st, e) for e in ops]
                return self.gep(st, vs[0], x, [(v, e[1]) for v, e in zip(vs[1:], ops[1:])])
            if o == 'ptrtoint':
                return self.ptr2int(st, self.cval(st, ops[0]))
            if o == 'inttoptr':
                return self.int2p(self.cval(st, ops[0]))
            if o in ('sub', 'add'):
                a, b = [self.cval(st, e) for e in ops]
                return simp(bv(a, 64) - bv(b, 64)) if o == 'sub' else simp(bv(a, 64) + bv(b, 64))
            raise Unsupported('constant expression ' + o)
        if k == 'fp':
            return Opq('fp')
        if k == 'meta':
            return None
        raise Unsupported('operand %r' % (op,))

    def undef_of(self, ty):
        if ty[0] == 'struct':
            return [self.undef_of(t) for t in ty[1]]
        if ty[0] == 'arr':
            return [self.undef_of(ty[2]) for _ in range(ty[1])]
        return UNDEF

    def zero_of(self, ty):
        k = ty[0]
        if k == 'struct':
            return [self.zero_of(t) for t in ty[1]]
        if k == 'arr':
            return [self.zero_of(ty[2]) for _ in range(ty[1])]
        if k == 'ptr':
            return NULL
        if k == 'i' and ty[1] == 1:
            return False
        return 0

    def val(self, st, env, op):
        if op[0] == 'v':
            return env[op[1]]
        return self.cval(st, op)

    def opw(self, op, env):
        return op[1] if op[0] == 'i' else None

    # ------------------------------------------------------------------ running
    def run_fn(self, st, F, args, inst=None):
        """-> list of (st, ('ret',v)|('throw',Exc)|('abort',why))"""
        if F.isdecl:
            raise Unsupported('no body: ' + F.dem)
        self.depth += 1
        if self.depth > 180:
            raise Unsupported('call depth')
        if not self.spec:
            self.fn_used.add(F.name)
        env = {i: v for i, v in zip((F.params if F._blocks is not None else F.blocks and F.params), args)}
        env['allocas'] = ()
        try:
            outs, backs, exits = self.run_region(F, [(st, env, 0, None)], None)
        finally:
            self.depth -= 1
        return outs

    def run_region(self, F, starts, loop, skip_header_check=True):
        """run from the given points.  If loop is given: stop on edges to the loop header (backs) and on
        edges leaving the loop (exits)."""
        loops = find_loops(F)
        work = [(st, env, bb, 0, prev, True) for (st, env, bb, prev) in starts]
        outs, backs, exits = [], [], []
        first = True
        while work:
            st, env, bb, idx, prev, isstart = work.pop()
            # edge bookkeeping
            while True:
                if idx == 0 and not isstart:
                    if loop is not None and bb == loop.header:
                        backs.append((st, env, prev))
                        break
                    if loop is not None and bb not in loop.blocks:
                        exits.append((st, env, bb, prev))
                        break
                if idx == 0 and bb in loops and not (isstart and loop is not None and bb == loop.header):
                    # entering an inner (or top-level) loop
                    o2, e2 = self.do_loop(loops[bb], st, env, prev)
                    outs += o2
                    for (s, en, tb, pv) in e2:
                        work.append((s, en, tb, 0, pv, False))
                    break
                r = self.run_block(F, st, env, bb, idx, prev, loop)
                # r: ('goto', st, env, bb) | list of continuations
                if r[0] == 'goto':
                    prev = bb
                    bb, st = r[1], r[2]
                    idx = 0
                    isstart = False
                    continue
                for c in r[1]:
                    if c[0] == 'out':
                        s, oc = c[1], c[2]
                        outs.append((s, oc))
                    else:
                        _, s, en, tb, ti, pv = c
                        work.append((s, en, tb, ti, pv, False))
                break
        return outs, backs, exits

    def phis(self, F, bb, st, env, prev):
        B = F.blocks[bb]
        new = []
        i = 0
        for I in B.insts:
            if I.op != 'phi':
                break
            for b, op in I.x:
                if b == prev:
                    new.append((I.id, self.val(st, env, op)))
                    break
            else:
                raise Unsupported('phi')
            i += 1
        for k, v in new:
            env[k] = v
        return i

    def run_block(self, F, st, env, bb, idx, prev, loop):
        B = F.blocks[bb]
        insts = B.insts
        n = len(insts)
        if idx == 0 and insts[0].op == 'phi':
            if env.get('phidone') == bb:
                env.pop('phidone')
                while insts[idx].op == 'phi':
                    idx += 1
            else:
                idx = self.phis(F, bb, st, env, prev)
        while idx < n:
            I = insts[idx]
            op = I.op
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit')
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Unsupported('time limit')
            if I.line and not self.spec:
                self.cov[(I.file, I.line)] = 1
            if op == 'br':
                if not I.ops:
                    return ('goto', I.x[0], st)
                c = tobool(self.val(st, env, I.ops[0]))
                return self.branch(F, st, env, bb, I, [(c, I.x[0]), (bnot(c), I.x[1])], loop)
            if op == 'switch':
                v = self.val(st, env, I.ops[0])
                d, cases = I.x
                if isinstance(v, bool):
                    v = int(v)
                if isinstance(v, int):
                    for cv, tb in cases:
                        if cv == v:
                            return ('goto', tb, st)
                    return ('goto', d, st)
                if z3.is_bool(v):
                    v = bv(v, 1)
                bytb = {}
                for cv, tb in cases:
                    bytb.setdefault(tb, []).append(simp(v == cv))
                lst = [(bor(*cs), tb) for tb, cs in bytb.items()]
                lst.append((band(*[simp(v != cv) for cv, _ in cases]), d))
                return self.branch(F, st, env, bb, I, lst, loop)
            if op == 'ret':
                v = self.val(st, env, I.ops[0]) if I.ops else None
                self.end_frame(st, env)
                return ('list', [('out', st, ('ret', v))])
            if op == 'unreachable':
                if not st.g.get('__stop'):
                    self.fail(st, 'unreachable-code-reached', I)
                return ('list', [])
            if op == 'resume':
                v = self.val(st, env, I.ops[0])
                exc = env.get('exc')
                self.end_frame(st, env)
                return ('list', [('out', st, ('throw', exc))])
            if op in ('call', 'invoke'):
                r = self.do_call(st, env, I)
                if r is None:           # single normal return, void/skip
                    if op == 'invoke':
                        return ('goto', I.x['normal'], st)
                    idx += 1
                    continue
                conts = []
                single = len(r) == 1
                for (s2, oc) in r:
                    e2 = env if single else dict(env)
                    if oc[0] == 'ret':
                        e2[I.id] = oc[1]
                        if op == 'invoke':
                            conts.append(('go', s2, e2, I.x['normal'], 0, bb))
                        else:
                            conts.append(('go', s2, e2, bb, idx + 1, prev))
                    elif oc[0] == 'throw':
                        if op == 'invoke':
                            e2['exc'] = oc[1]
                            conts.append(('go', s2, e2, I.x['unwind'], 0, bb))
                        else:
                            self.end_frame(s2, e2)
                            conts.append(('out', s2, oc))
                    else:
                        conts.append(('out', s2, oc))
                if single and conts[0][0] == 'go' and op == 'call':
                    st, env = conts[0][1], conts[0][2]
                    idx += 1
                    continue
                if single and conts[0][0] == 'go' and conts[0][1] is st:
                    return ('goto', conts[0][3], st)
                return ('list', conts)
            if op == 'landingpad':
                exc = env.get('exc')
                sel = self.lp_select(I, exc)
                if sel is None:
                    self.end_frame(st, env)
                    return ('list', [('out', st, ('throw', exc))])
                env[I.id] = [exc.ptr, sel]
                idx += 1
                continue
            if op == 'select':
                c = tobool(self.val(st, env, I.ops[0]))
                a = self.val(st, env, I.ops[1])
                b = self.val(st, env, I.ops[2])
                if isinstance(c, bool):
                    env[I.id] = a if c else b
                else:
                    m = self.ite(c, a, b, I.ty)
                    if m is None:
                        conts = []
                        for cond, v in ((c, a), (bnot(c), b)):
                            if self.feasible(st, cond):
                                s2 = st.fork()
                                s2.assume(cond)
                                e2 = dict(env)
                                e2[I.id] = v
                                conts.append(('go', s2, e2, bb, idx + 1, prev))
                        return ('list', conts)
                    env[I.id] = m
                idx += 1
                continue
            if op in ('cmpxchg', 'rmw') or (op == 'load' and I.x != 'na') or (op == 'store' and I.x[0] != 'na'):
                nobs = len(self.pr.obs)
                r = self.do_atomic(st, env, I)
                if not r and not self.spec and all(o.status == 'discharged' for o in self.pr.obs[nobs:]) and self.feasible(st):
                    raise Unsupported('the protocol of an atomic loses a path at %s' % self.loc(I))
                if len(r) == 1:
                    st, v = r[0]
                    env[I.id] = v
                    idx += 1
                    continue
                conts = []
                for s2, v in r:
                    e2 = dict(env)
                    e2[I.id] = v
                    conts.append(('go', s2, e2, bb, idx + 1, prev))
                return ('list', conts)
            env[I.id] = self.simple(st, env, I)
            idx += 1
        raise Unsupported('fell off block')

    def end_frame(self, st, env):
        al = env.get('allocas')
        if al:
            st.dead = st.dead | frozenset(al)

    def ite(self, c, a, b, ty):
        if same(a, b):
            return a
        if ty[0] == 'i':
            w = ty[1]
            if a is UNDEF or b is UNDEF or isinstance(a, P) or isinstance(b, P):
                return None
            if w == 1:
                return simp(z3.If(c, zb(tobool(a)), zb(tobool(b))))
            return simp(z3.If(c, bv(a, w), bv(b, w)))
        if ty[0] == 'ptr' and isinstance(a, P) and isinstance(b, P):
            A, B = a.base, b.base
            if isinstance(A, Elem) and isinstance(B, Elem) and A.fam == B.fam and same(a.off, b.off):
                return P(Elem(A.fam, simp(z3.If(c, zi(A.id), zi(B.id)))), a.off)
        return None

    def branch(self, F, st, env, bb, I, opts, loop):
        live = []
        sym = False
        for c, tb in opts:
            if c is False:
                continue
            if c is True:
                return ('goto', tb, st)
            live.append((c, tb))
        feas = [(c, tb) for c, tb in live if self.feasible(st, c)]
        if not feas:
            return ('list', [])        # infeasible path
        if len(feas) == 1:
            c, tb = feas[0]
            st.assume(c)
            return ('goto', tb, st)
        # loop exit decided symbolically?
        for L in self.unrolling:
            if L[0].fn is F and bb in L[0].blocks and self.depth == L[1]:
                ins = [tb in L[0].blocks for _, tb in feas]
                if any(ins) and not all(ins):
                    raise NeedInv(L[0], 'exit condition not decided')
        conts = []
        for c, tb in feas:
            s2 = st.fork()
            s2.assume(c)
            s2.trail = s2.trail + ((I.line, tb),)
            conts.append(('go', s2, dict(env), tb, 0, bb))
        return ('list', conts)

    unrolling = []

    # ------------------------------------------------------------------ loops
    def do_loop(self, L, st, env, prev):
        """-> (outs, exits)"""
        if not self.small or True:
            mark = self.pr.mark()
            st0, env0 = st.fork(), dict(env)
            try:
                return self.unroll(L, st, env, prev)
            except NeedInv as e:
                if e.loop is not L:
                    raise
                if self.small:
                    self.pr.reset(mark)
                    return self.unroll(L, st0, env0, prev, bounded=True)
                self.pr.reset(mark)
                return self.cut(L, st0, env0, prev, e.why)

    def cut(self, L, st0, env0, prev, why, peel=0):
        import loops
        mark = self.pr.mark()
        s1, e1, spec = st0.fork(), dict(env0), self.spec
        try:
            return loops.invariant(self, L, st0, env0, prev, why)
        except Mixed as m:
            if m.loop is not L or peel == 2:
                raise
        # the first iteration is of another form: it is executed on its own
        self.spec = spec
        self.pr.reset(mark)
        outs, backs, exits = self.run_region(L.fn, [(s1, e1, L.header, prev)], L)
        outs, exits = list(outs), list(exits)
        for s, en, pv in backs:
            o, x = self.cut(L, s, en, pv, why, peel + 1)
            outs += o
            exits += x
        return outs, exits

    def unroll(self, L, st, env, prev, bounded=False):
        outs, exits = [], []
        cur = [(st, env, prev)]
        nd0, und = st.nd, 0
        tok = (L, self.depth)
        if not bounded:
            self.unrolling = self.unrolling + [tok]
        try:
            for it in range(self.unroll_limit + 1):
                if not cur:
                    return outs, exits
                if it == self.unroll_limit or (bounded and it > self.target.small_unroll):
                    if bounded:
                        return outs, exits      # bounded mode: deeper iterations are not explored
                    raise NeedInv(L, 'unroll limit')
                o, b, e = self.run_region(L.fn, [(s, en, L.header, pv) for s, en, pv in cur], L)
                outs += o
                exits += e
                n = min(len(s.trail) for s, en, pv in cur)
                if b and any(len(x[0].trail) > n for x in e + o) and all(len(x[0].trail) > n for x in b):
                    und += 1
                    if und == 3 and not bounded:
                        raise NeedInv(L, 'exit not decided')
                cur = []
                for s, en, pv in b:
                    if not bounded and s.nd > nd0:
                        raise NeedInv(L, 'non-deterministic iteration')
                    cur.append((s, en, pv))
        finally:
            if not bounded:
                self.unrolling = [t for t in self.unrolling if t is not tok]
        return outs, exits

    # ------------------------------------------------------------------ exceptions
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def lp_select(self, I, exc):
        clauses, cleanup = I.x
        for c in clauses:
            if c[0] == 'null':
                return self.typeid('...')
            if c[0] == 'g':
                if exc.tname == c[1]:
                    return self.typeid(c[1])
                if exc.tname is None:
                    raise Unsupported('typed catch of an unknown exception')
            if c[0] in ('agg', 'zero'):
                return mask(-1, 32)
        if cleanup:
            return 0
        return None

    # ------------------------------------------------------------------ instructions
    def simple(self, st, env, I):
        op = I.op
        V = lambda k: self.val(st, env, I.ops[k])
        if op == 'load':
            return self.load(st, V(0), I.ty, I)
        if op == 'store':
            self.store(st, V(1), I.x[1], V(0), I)
            return None
        if op == 'gep':
            idx = []
            for o in I.ops[1:]:
                v = self.val(st, env, o)
                w = o[1] if o[0] == 'i' else None
                if w is None:
                    w = I.fn.vty[o[1]][1] if o[0] == 'v' else 64
                idx.append((v, w))
            return self.gep(st, V(0), I.x, idx)
        if op == 'alloca':
            sz = IR.Module.size(I.x)
            if I.ops:
                nmul = V(0)
                if isinstance(nmul, int):
                    sz *= nmul
            r = self.new_region(st, 'local%d' % I.id, sz, 'stack')
            env['allocas'] = env['allocas'] + (r,)
            return P(r, 0)
        if op == 'icmp':
            return self.icmp(st, I.x[0], V(0), V(1), I.x[1])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.binop(st, op, V(0), V(1), I.ty[1] if I.ty[0] == 'i' else 0, I)
        if op in ('trunc', 'zext', 'sext'):
            return self.cast(op, V(0), I.x, I.ty)
        if op == 'ptrtoint':
            v = self.ptr2int(st, V(0))
            return v
        if op == 'inttoptr':
            return self.int2p(V(0))
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            return V(0)
        if op == 'extractvalue':
            v = V(0)
            for k in I.x:
                if v is UNDEF:
                    return UNDEF
                v = v[k]
            return v
        if op == 'insertvalue':
            v = V(0)
            if v is UNDEF:
                v = self.undef_of(I.ty)

            def ins(a, path, x):
                a = list(a)
                if len(path) == 1:
                    a[path[0]] = x
                else:
                    a[path[0]] = ins(a[path[0]], path[1:], x)
                return a
            return ins(v, I.x, V(1))
        if op == 'fence':
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fpext', 'fptrunc', 'uitofp', 'sitofp'):
            return Opq(op)
        if op == 'fcmp':
            return fbool('fcmp')
        if op in ('fptoui', 'fptosi'):
            return fbv(I.ty[1], 'fp')
        raise Unsupported('instruction %s at %s' % (op, self.loc(I)))

    def icmp(self, st, pred, a, b, ty):
        if ty[0] == 'ptr':
            if pred == 'eq':
                return self.ptr_eq(st, a, b)
            if pred == 'ne':
                return bnot(self.ptr_eq(st, a, b))
            a, b = self.int2p(a), self.int2p(b)
            if a is not UNDEF and b is not UNDEF:
                A, B = a.base, b.base
                if isinstance(A, Region) and A.stride:
                    A = Arr(A, 0)
                if isinstance(B, Region) and B.stride:
                    B = Arr(B, 0)
                if same_base(a.base, b.base):
                    a, b = a.off, b.off
                elif isinstance(A, Arr) and isinstance(B, Arr) and A.reg is B.reg:
                    a, b = bv(A.idx, 64), bv(B.idx, 64)
                else:
                    a, b = self.ptr2int(st, a), self.ptr2int(st, b)
            w = 64
        else:
            w = ty[1]
        if isinstance(a, P) or isinstance(b, P):
            a, b = self.ptr2int(st, a), self.ptr2int(st, b)
        if a is UNDEF or b is UNDEF or isinstance(a, Opq) or isinstance(b, Opq):
            return fbool('undefcmp')
        if w == 1:
            x, y = tobool(a), tobool(b)
            if pred == 'eq':
                return simp(zb(x) == zb(y))
            if pred == 'ne':
                return simp(zb(x) != zb(y))
            a, b = bv(x, 1), bv(y, 1)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            a, b = mask(int(a), w), mask(int(b), w)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[
                pred if pred in ('eq', 'ne') else pred[1:]]
        a, b = bv(a, w), bv(b, w)
        if self.cmp_harvest is not None:
            self.cmp_harvest.append((a, b))
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
             'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
             'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]()
        return simp(r)

    def binop(self, st, op, a, b, w, I):
        if w == 1:
            x, y = tobool(a), tobool(b)
            if op == 'and':
                return band(x, y)
            if op == 'or':
                return bor(x, y)
            if op in ('xor', 'add', 'sub'):
                if isinstance(x, bool) and isinstance(y, bool):
                    return x != y
                if y is True:
                    return bnot(x)
                if x is True:
                    return bnot(y)
                return simp(z3.Xor(zb(x), zb(y)))
            raise Unsupported('i1 ' + op)
        if isinstance(a, P) or isinstance(b, P):
            a, b = self.ptr2int(st, a), self.ptr2int(st, b)
        if a is UNDEF or b is UNDEF or isinstance(a, Opq) or isinstance(b, Opq):
            return fbv(w, 'undef')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if isinstance(b, int):
                if mask(b, w) == 0:
                    self.fail(st, 'division-by-zero', I)
                    return 0
            else:
                self.prove(st, simp(b != 0), 'division-by-zero', I)
        if isinstance(a, int) and isinstance(b, int):
            a, b = mask(int(a), w), mask(int(b), w)
            if op in ('sdiv', 'srem', 'ashr'):
                sa, sb = sgn(a, w), sgn(b, w)
                if op == 'sdiv':
                    q = abs(sa) // abs(sb)
                    return mask(q if (sa < 0) == (sb < 0) else -q, w)
                if op == 'srem':
                    r = abs(sa) % abs(sb)
                    return mask(-r if sa < 0 else r, w)
                return mask(sa >> b, w)
            return mask({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: a // b,
                         'urem': lambda: a % b, 'shl': lambda: a << b if b < w else 0, 'lshr': lambda: a >> b,
                         'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op](), w)
        a, b = bv(a, w), bv(b, w)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b),
             'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b),
             'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()
        return simp(r)

    def cast(self, op, v, fty, tty):
        fw, tw = fty[1], tty[1]
        if isinstance(v, P):
            v = self.ptr2int(None, v)
        if v is UNDEF:
            return fbool('undef') if tw == 1 else fbv(tw, 'undef')
        if isinstance(v, Opq):
            return fbv(tw, 'opq')
        if op == 'trunc':
            if tw == 1:
                return tobool(v)
            if isinstance(v, int):
                return mask(int(v), tw)
            return simp(z3.Extract(tw - 1, 0, bv(v, fw)))
        if op == 'zext':
            if isinstance(v, (bool, int)):
                return mask(int(v), fw)
            if z3.is_bool(v):
                return simp(bv(v, tw))
            return simp(z3.ZeroExt(tw - fw, v))
        if isinstance(v, (bool, int)):
            return mask(sgn(int(v), fw), tw)
        if z3.is_bool(v):
            return simp(z3.If(v, z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw)))
        return simp(z3.SignExt(tw - fw, v))

    # ------------------------------------------------------------------ atomics
    def atomic_key(self, p):
        b = p.base
        if isinstance(b, Region):
            return (b, p.off)
        if isinstance(b, Elem):
            return (b.fam, p.off)
        if isinstance(b, Arr):
            return (b.reg, p.off)
        return None

    def do_atomic(self, st, env, I):
        """-> list of (st, value)"""
        V = lambda k: self.val(st, env, I.ops[k])
        op = I.op
        if op == 'load':
            p = V(0)
        elif op == 'store':
            p = V(1)
        else:
            p = V(0)
        p = self.norm(self.int2p(p)) if p is not UNDEF else p
        if p is UNDEF:
            self.fail(st, 'atomic through uninitialised pointer', I)
            return []
        h = self.atomic.get(self.atomic_key(p))
        if h is None and self.atomic_any:
            h = self.atomic_any(self, st, p, I)
        if h is not None:
            if isinstance(p.base, Region) and not self.region_ok(st, p.base, p.off, 1, I):
                return []
            if isinstance(p.base, Elem) and self.fams[p.base.fam].perm and not h.shared:
                self.check_perm(st, p.base.fam, p.base.id, I)
            if op == 'load':
                return h.load(self, st, p, I.ty, I.x, I)
            if op == 'store':
                return h.store(self, st, p, I.x[1], V(0), I.x[0], I)
            if op == 'rmw':
                return h.rmw(self, st, p, I.ty, I.x[0], V(1), I.x[1], I)
            return h.cmpxchg(self, st, p, I.x[3], V(1), V(2), I.x[0], I.x[1], I.x[2], I)
        # not governed by a protocol: sequential semantics
        if op == 'load':
            return [(st, self.load(st, p, I.ty, I))]
        if op == 'store':
            self.store(st, p, I.x[1], V(0), I)
            return [(st, None)]
        if op == 'rmw':
            old = self.load(st, p, I.ty, I)
            self.store(st, p, I.ty, self.rmw_new(st, I.x[0], old, V(1), I.ty), I)
            if self.after_rmw:
                self.after_rmw(self, st, p, I.x[0], old, I.x[1], I)
            return [(st, old)]
        ty = I.x[3]
        old = self.load(st, p, ty, I)
        e, d = V(1), V(2)
        c = self.icmp(st, 'eq', old, e, ty)
        out = []
        if I.x[2] and not self.g_noweak:
            s2 = st.fork()
            s2.nd += 1
            out.append((s2, [old, False]))
        for cond, ok in ((c, True), (bnot(c), False)):
            if cond is False:
                continue
            s2 = st.fork()
            s2.assume(cond)
            if cond is not True and not self.feasible(s2):
                continue
            if ok:
                self.store(s2, p, ty, d, I)
            out.append((s2, [old, ok]))
        return out

    g_noweak = False

    def rmw_new(self, st, o, old, v, ty):
        if o == 'xchg':
            return v
        w = ty[1]
        return self.binop(st, {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor'}[o], old, v, w, None)

    # ------------------------------------------------------------------ calls
    def do_call(self, st, env, I):
        """-> None (void, continue) or list of (st, outcome)"""
        cal = I.x['callee']
        if cal[0] == 'g':
            name = cal[1]
            if name.startswith('llvm.'):
                return self.intrinsic(st, env, I, name)
            args = [self.val(st, env, o) for o in I.ops]
            return self.call_fn(st, name, args, I)
        fp = self.val(st, env, cal)
        args = [self.val(st, env, o) for o in I.ops]
        return self.call_ptr(st, fp, args, I)

    def call_ptr(self, st, fp, args, I):
        if fp is UNDEF:
            self.fail(st, 'call through uninitialised pointer', I)
            return []
        fp = self.int2p(fp)
        b = fp.base
        if isinstance(b, Fn):
            return self.call_fn(st, b.name, args, I)
        if isinstance(b, CoFn):
            if not self.on_resume:
                raise Unsupported('resume of unknown coroutine')
            return self.on_resume(self, st, b, args, I)
        if b is None:
            self.fail(st, 'call-through-null', I)
            return []
        if self.on_icall:
            r = self.on_icall(self, st, fp, args, I)
            if r is not None:
                return r
        raise Unsupported('indirect call of %r' % (fp,))

    def call_fn(self, st, name, args, I):
        F = self.mod.funcs.get(name)
        dem = F.dem if F else name
        h = self.find_override(name, dem)
        if h:
            self.contracts_used.add(dem)
            n = len(self.pr.obs)
            r = self.norm_out(st, h(self, st, args, I))
            if not r and not self.spec and all(o.status == 'discharged' for o in self.pr.obs[n:]) and self.feasible(st):
                # no path continues although nothing was refuted: the contract must say so explicitly
                if not getattr(h, 'noreturn', False):
                    raise Unsupported('the contract of %s loses a path' % short(dem))
            return r
        m = self.find_model(name, dem)
        if m:
            self.models_used.add(short(dem))
            return self.norm_out(st, m(self, st, args, I))
        if F is None or F.isdecl:
            raise Unsupported('external function without a contract: %s' % dem)
        return self.run_fn(st, F, args, I)

    def norm_out(self, st, r):
        """handler result -> list of outcomes.  A plain value means: returns normally."""
        if isinstance(r, list) and (not r or (isinstance(r[0], tuple) and len(r[0]) == 2 and isinstance(r[0][0], St))):
            return r
        return [(st, ('ret', r))]

    def find_override(self, name, dem):
        for rx, h in self.overrides:
            if rx.search(dem) or rx.search(name):
                return h
        return None

    def find_model(self, name, dem):
        r = self._mcache.get(name, 0)
        if r == 0:
            r = None
            for rx, h in self.models:
                if rx.search(dem) or rx.fullmatch(name):
                    r = h
                    break
            self._mcache[name] = r
        return r

    def intrinsic(self, st, env, I, name):
        V = lambda k: self.val(st, env, I.ops[k])
        if name.startswith(('llvm.dbg.', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant',
                            'llvm.prefetch')):
            return None
        if name.startswith('llvm.lifetime.'):
            p = V(1)
            if isinstance(p, P) and isinstance(p.base, Region) and p.base.kind == 'stack' and p.off == 0:
                if 'end' in name:
                    st.dead = st.dead | {p.base}
                else:
                    st.dead = st.dead - {p.base}
                    if not p.base.embeds:
                        st.mem[p.base] = {}
                        st.cow.add(p.base)
            return None
        if name.startswith('llvm.assume'):
            for tag, ops in I.x.get('bundles', ()):
                if tag == 'align':
                    p = self.val(st, env, ops[0])
                    al = self.val(st, env, ops[1])
                    if isinstance(p, P) and p.base is not None and isinstance(al, int):
                        a = self.ptr2int(st, p)
                        self.prove(st, simp(z3.URem(bv(a, 64), z3.BitVecVal(al, 64)) == 0) if al & (al - 1) else
                                   simp((bv(a, 64) & (al - 1)) == 0), 'assumed-alignment', I)
            self.prove(st, tobool(V(0)), 'assumption', I)
            return None
        if name.startswith('llvm.expect'):
            return [(st, ('ret', V(0)))]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, V(0), V(1), V(2), I)
            return None
        if name.startswith('llvm.memset'):
            p, v, n = V(0), V(1), V(2)
            if not isinstance(n, int):
                raise Unsupported('memset of symbolic size')
            if not isinstance(v, int) or v != 0:
                p = self.norm(p)
                if isinstance(p.base, Region) and isinstance(v, int):
                    for i in range(n):
                        self.store_raw(st, P(p.base, p.off + i), 1, v, I)
                    return None
                raise Unsupported('memset nonzero')
            p = self.norm(p)
            if isinstance(p.base, Region):
                if not self.region_ok(st, p.base, p.off, n, I, True):
                    return []
            elif isinstance(p.base, Elem):
                self.check_perm(st, p.base.fam, p.base.id, I)
            self.zero_range(st, p, n, I)
            return None
        if name.startswith('llvm.threadlocal.address') or name.startswith('llvm.launder') or \
                name.startswith('llvm.strip'):
            return [(st, ('ret', V(0)))]
        if name.startswith('llvm.eh.typeid.for'):
            op = I.ops[0]
            return [(st, ('ret', self.typeid(op[1])))]
        if name.startswith('llvm.is.constant'):
            return [(st, ('ret', False))]
        if name.startswith('llvm.objectsize'):
            return [(st, ('ret', mask(-1, I.ty[1])))]
        if name.startswith('llvm.trap') or name.startswith('llvm.debugtrap'):
            self.fail(st, 'trap', I)
            return []
        for nm, f in (('umul.with.overflow', 'umul'), ('uadd.with.overflow', 'uadd'), ('usub.with.overflow', 'usub')):
            if nm in name:
                a, b = V(0), V(1)
                if isinstance(a, int) and isinstance(b, int):
                    r = a * b if f == 'umul' else a + b if f == 'uadd' else a - b
                    return [(st, ('ret', [mask(r, 64), r != mask(r, 64)]))]
                x, y = z3.ZeroExt(64, bv(a, 64)), z3.ZeroExt(64, bv(b, 64))
                r = x * y if f == 'umul' else x + y if f == 'uadd' else x - y
                return [(st, ('ret', [simp(z3.Extract(63, 0, r)), simp(z3.Extract(127, 64, r) != 0)]))]
        for nm in ('umax', 'umin', 'smax', 'smin'):
            if name.startswith('llvm.' + nm):
                a, b = V(0), V(1)
                c = self.icmp(st, {'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[nm], a, b, I.ty)
                return [(st, ('ret', (a if c else b) if isinstance(c, bool) else
                              simp(z3.If(c, bv(a, I.ty[1]), bv(b, I.ty[1])))))]
        raise Unsupported('intrinsic ' + name)

    def read_range(self, st, p, n, inst):
        """-> list of (rel, size, val), complete content of [p,p+n)"""
        p = self.norm(p)
        b = p.base
        out = []
        if isinstance(b, Region):
            if not self.region_ok(st, b, p.off, n, inst):
                return []
            if not isinstance(p.off, int) or b in st.g.get('win', ()):
                b, off = self.window(st, b, p.off if isinstance(p.off, int) else simp(p.off))
                p = P(b, off)
            # embedded parts
            for lo, hi, fam, id in b.embeds:
                for fo in self.fams[fam].fields:
                    a = lo + fo
                    if p.off <= a < p.off + n:
                        out.append((a - p.off, None, self.elem_load(st, fam, id, fo, 8, inst)))
            for k, v in st.cells(b).items():
                if isinstance(k, int):
                    if k < p.off + n and p.off < k + v[0]:
                        if k >= p.off and k + v[0] <= p.off + n:
                            out.append((k - p.off, v[0], v[1]))
                        else:
                            lo, hi = max(k, p.off), min(k + v[0], p.off + n)
                            out.append((lo - p.off, hi - lo, self.load_cell(st, b, lo, hi - lo)))
                else:
                    lo, hi = max(k[1], p.off), min(k[1] + v[0], p.off + n)
                    if lo < hi:
                        out.append((lo - p.off, hi - lo, 'zero'))
            return out
        if isinstance(b, Elem):
            self.check_perm(st, b.fam, b.id, inst)
            for fo, kind in self.fams[b.fam].fields.items():
                if isinstance(fo, int) and p.off <= fo < p.off + n:
                    sz = kind[1] // 8 if kind[0] == 'int' else 1 if kind[0] == 'bool' else 8
                    out.append((fo - p.off, sz, self.elem_get(st, b.fam, b.id, fo)))
            return out
        raise Unsupported('memcpy from %r' % (p,))

    def memcpy(self, st, d, s, n, I):
        if not isinstance(n, int):
            n = simp(n)
            if not isinstance(n, int):
                raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return
        data = self.read_range(st, s, n, I)
        d = self.norm(d)
        if isinstance(d.base, Region):
            if not self.region_ok(st, d.base, d.off, n, I, True):
                return
            b2, off2 = self.window(st, d.base, d.off if isinstance(d.off, int) else simp(d.off))
            c = st.wcells(b2)
            self.clear_range(c, off2, n)
        for rel, sz, v in data:
            if isinstance(v, str) and v == 'zero':
                q = self.norm(self.padd(d, rel))
                self.zero_range(st, q, sz, I)
            else:
                if sz is None:
                    sz = 8 if isinstance(v, P) else (v.size() // 8 if is_sym(v) and z3.is_bv(v) else 4)
                self.store_raw(st, self.padd(d, rel), sz, v, I)


def short(dem):
    import re
    s = dem
    # drop template arguments
    out, d = '', 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    s = out.split('(')[0]
    return s.strip() or dem
