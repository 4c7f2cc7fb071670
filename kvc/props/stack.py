"""The stack memory resource: its abstract state and the contracts of its operations.

A place is the initial buffer or a heap chunk, an element of the family 'chunk'.  Data starts at offset HS of a place (the
initial buffer is given a virtual header nobody may touch; no buffer is element 0, whose data has address null).  The used
places form the list U from the current chunk down, ended by the initial place; the record of place U[i+1] is kept in the
header of U[i].  The unused chunks form the list F.  top(p), end(p), size(p): how far a place is filled, its end as recorded,
and its real size."""
from props.common import *
from props.scen import *
import loops as LP

LIM = 1 << 47
C16 = 15
DTOR = 'dd::stack_resource::~stack_resource()'


class NoBuffer(Exception):
    pass


class Stack(Scen):
    fn = 'drv_nop'
    small_unroll = 4
    c02 = True        # also the obligations about reuse and release
    max_cases = 200

    # ---------------------------------------------------------------- layout
    def probe(self, ex):
        """where the fields are: run a concrete history on plain memory and look"""
        st = E.St()
        Scen.base(self, ex, st)
        s, n = self.c(st, 'drv_size')
        self.RS = n
        r = P(ex.new_region(s, 'probe', n, 'param'), 0)
        B = ex.new_region(s, 'buffer', 64, 'param')
        s.assume((B.addr & C16) == 0)
        s, _ = self.c(s, 'drv_ctor', r, P(B, 0), 64)
        snap = lambda s, r: {o: ex.int2p(v) if not isinstance(v, (int, P)) else v for o, (z, v) in s.cells(r).items() if isinstance(o, int) and z == 8}

        def ptr(v, b, o):
            return isinstance(v, P) and v.base is b and isinstance(v.off, int) and v.off == o
        h0 = len(s.g.get('heap', ()))
        s, a = self.c(s, 'drv_alloc', r, 16)
        k1 = snap(s, r.base)
        s, a = self.c(s, 'drv_alloc', r, 112)
        H = s.g['heap'][h0]
        k2, hd = snap(s, r.base), snap(s, H)
        a = ex.norm(ex.int2p(a))
        hs = a.off
        if not (isinstance(hs, int) and a.base is H and isinstance(H.size, int)):
            raise E.Unsupported('representation of a chunk')
        s, _ = self.c(s, 'drv_dealloc', r, a, 112)
        s, _ = self.c(s, 'drv_dealloc', r, P(B, 0), 16)
        k3 = snap(s, r.base)

        def only(c, what):
            if len(c) != 1:
                raise E.Unsupported('representation: %s at %s' % (what, c))
            return c[0]
        self.HS = hs
        self.B = only([o for o in k2 if ptr(k2[o], H, hs)], 'begin')
        self.M = only([o for o in k2 if ptr(k2[o], H, hs + 112)], 'top')
        self.E = only([o for o in k2 if isinstance(k2[o], P) and k2[o].base is H and o not in (self.B, self.M)], 'end')
        self.IB = only([o for o in k2 if ptr(k2[o], B, 0)], 'initial buffer')
        self.IN = only([o for o in k2 if k2[o] == 64 and not isinstance(k2[o], P)], 'initial size')
        self.TOP = only([o for o in k3 if ptr(k3[o], H, 0)], 'free list')
        if {o for o in k2} - {self.B, self.M, self.E, self.IB, self.IN, self.TOP}:
            raise E.Unsupported('representation: more fields')
        self.hb = only([o for o in hd if ptr(hd[o], B, 0)], 'header begin')
        self.hm = only([o for o in hd if ptr(hd[o], B, 16)], 'header top')
        self.he = only([o for o in hd if ptr(hd[o], B, 64)], 'header end')
        self.hn = only([o for o in hd if o not in (self.hb, self.hm, self.he)], 'header link')
        if self.HS < max(self.hb, self.hm, self.he, self.hn) + 8 or self.HS % 16:
            raise E.Unsupported('representation: header')

    # ---------------------------------------------------------------- state
    def setup(self, ex, st):
        self.probe(ex)
        ex.int2ptr.clear()
        Scen.base(self, ex, st)
        HS = self.HS
        ex.fam('chunk', {self.hb: ('ref', 'chunk', HS), self.hm: ('pref', 'chunk'), self.he: ('pref', 'chunk'),
                         self.hn: ('ref', 'chunk', 0)}, size=HS)
        ex.null_off['chunk'] = HS
        I64 = z3.BitVecSort(64)
        self.top, self.end, self.siz = [z3.Function(n, IntS, I64) for n in ('top', 'end', 'size')]
        self.addr = ex.elem_addr('chunk')
        st.assume(self.addr(0) == -HS, self.top(0) == HS, self.end(0) == HS, self.siz(0) == HS)
        st.g['new'] = ()
        st.g['dels'] = 0
        ex.on_new = self.on_new
        ex.on_delete = self.on_delete
        ex.extra_cands = self.cands
        self.U = self.F = None
        self.rl = None
        self.d = None
        self.more = []
        return []

    def on_new(self, ex, st, size, align, I):
        n = bv(size, 64)
        self.ok(st, align in (None, 16) or align <= 16, 'ordinary alignment')
        s2 = st.fork()
        i = fresh_elem(ex, st, 'chunk', 'new')
        st.assume(self.siz(i) == n, z3.ULE(n, z3.BitVecVal(2 * LIM, 64)), (self.addr(i) & C16) == 0, self.addr(i) != 0,
                  z3.ULE(self.addr(i), z3.BitVecVal(LIM, 64)))
        # what was never handed out has no content
        st.g['new'] = st.g['new'] + (i,)
        return [(st, ('ret', P(Elem('chunk', i), 0))),
                (s2, ('throw', E.Exc(P(Elem('exc', fint('bad_alloc')), 0), '_ZTISt9bad_alloc')))]

    def on_delete(self, ex, st, p, size, I):
        p = ex.norm(ex.int2p(p))
        if p.base is None and p.off == 0:
            return [(st, ('ret', None))]
        if not (isinstance(p.base, Elem) and p.base.fam == 'chunk'):
            ex.fail(st, 'only chunks are given back', I)
            return []
        i = p.base.id
        ex.prove(st, simp(bv(p.off, 64) == 0), 'a chunk is given back by its own address', I)
        if not ex.prove(st, ex.owned(st, 'chunk', i), 'each chunk is given back once', I):
            return []
        ex.setown(st, 'chunk', i, False)
        if ex.spec == 0:
            st.g['dels'] = st.g['dels']
        return [(st, ('ret', None))]

    def good(self, x, size=True):
        """a place and its record"""
        HS = self.HS
        c = [z3.ULE(z3.BitVecVal(HS, 64), self.top(x)), z3.ULE(self.top(x), self.end(x)), z3.ULE(self.end(x), self.siz(x)),
             z3.ULE(self.siz(x), z3.BitVecVal(2 * LIM, 64)), (self.addr(x) + self.top(x)) & C16 == 0,
             (self.addr(x) + HS) & C16 == 0, z3.ULE(self.addr(x) + HS, z3.BitVecVal(LIM, 64)), self.addr(x) + HS != 0]
        return z3.And(c)

    def mk(self, ex, st, tag='', fmax=2, kmax=2, buffers=('none', 'some'), one=False):
        """an arbitrary stack_resource"""
        HS = self.HS
        one = one and not ex.small     # all cases at once: element 0 stands for null (for code that does not look)
        buf = 'one' if one else ex.choose(tag + 'buffer', list(buffers))
        if buf == 'one':
            ib = fint('initial')
            st.assume(ib >= 0, z3.Not(z3.Select(ex.ownarr(st, 'chunk'), ib)))
        elif buf == 'none':
            ib = 0
        elif ex.small:
            ib = new_id()
        else:
            ib = fint('initial')
            st.assume(ib > 0, z3.Not(z3.Select(ex.ownarr(st, 'chunk'), ib)))
        SB = fbv(64, 'initial_size') if buf != 'none' else 0
        if buf == 'one':
            st.assume(z3.ULT(SB, z3.BitVecVal(1 << 40, 64)), self.siz(ib) == SB + HS, self.end(ib) == SB + HS,
                      z3.Implies(ib != 0, self.good(ib)), z3.Implies(ib == 0, SB == 0))
        if buf == 'some':
            st.assume(z3.ULT(SB, z3.BitVecVal(1 << 40, 64)), self.siz(ib) == SB + HS, self.end(ib) == SB + HS, self.good(ib))
            st.assume(self.addr(ib) + HS != 0)
        if ex.small:
            k = ex.choose(tag + 'used', list(range(kmax + 1)))
            f = ex.choose(tag + 'free', list(range(fmax + 1)))
        else:
            k = None if one or ex.choose(tag + 'chain', ['initial', 'chunks']) == 'chunks' else 0
            f = None
        U = mk_list(ex, st, 'chunk', tag + 'U', k, minlen=0 if k == 0 or one else 1, link=self.hb, end=ib)
        F = mk_list(ex, st, 'chunk', tag + 'F', f, link=self.hn)
        s = type('S', (), {})()
        s.ib, s.SB, s.U, s.F, s.k, s.tag = ib, SB, U, F, k, tag
        # the records
        if ex.small:
            for j, x in enumerate(U.items):
                y = U.nd(j + 1)
                ex.elem_set(st, 'chunk', x, self.hm, P(Elem('chunk', y), self.top(y)))
                ex.elem_set(st, 'chunk', x, self.he, P(Elem('chunk', y), self.end(y)))
                st.assume(self.good(x), self.addr(x) != 0, z3.UGE(self.siz(x), z3.BitVecVal(HS, 64)))
            for x in F.items:
                ex.elem_set(st, 'chunk', x, self.hb, P(Elem('chunk', x), HS))
                ex.elem_set(st, 'chunk', x, self.hm, P(Elem('chunk', x), HS))
                ex.elem_set(st, 'chunk', x, self.he, P(Elem('chunk', x), self.end(x)))
                st.assume(self.good(x), self.addr(x) != 0, self.top(x) == HS)
            s.cur = U.nd(0)
        else:
            x = z3.Int('?x')

            def redo(off, sub, L, val):
                a0 = ex.arr(st, 'chunk', off, sub)
                a1 = z3.FreshConst(a0.sort(), 'rec')
                st.assume(z3.ForAll([x], z3.Select(a1, x) == z3.If(L.member(x), val(x), z3.Select(a0, x)), patterns=[z3.Select(a1, x)]))
                st.arrs[('chunk', off, sub)] = a1
            nx = lambda x: U.nd(U.pos(x) + 1)
            for off, fn in ((self.hm, self.top), (self.he, self.end)):
                if k != 0:
                    redo(off, '', U, nx)
                    redo(off, 'off', U, lambda x, fn=fn: fn(nx(x)))
                redo(off, '', F, lambda x: x)
                redo(off, 'off', F, (lambda x: z3.BitVecVal(HS, 64)) if off == self.hm else (lambda x: self.end(x)))
            redo(self.hb, '', F, lambda x: x)
            for L in (U, F):
                st.assume(z3.ForAll([x], z3.Implies(L.member(x), z3.And(self.good(x), self.addr(x) != 0)), patterns=[L.pos(x)]))
                j = z3.Int('?j')
                st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.n), z3.And(self.good(L.nd(j)), self.addr(L.nd(j)) != 0)),
                                    patterns=[L.nd(j)]))
                if buf != 'none':
                    # the initial buffer is no chunk
                    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.n), L.nd(j) != zi(ib)), patterns=[L.nd(j)]))
            st.assume(z3.ForAll([x], z3.Implies(F.member(x), self.top(x) == HS), patterns=[F.pos(x)]))
            s.cur = U.nd(0) if k != 0 else ib
        if k == 0:
            s.cur = ib
        r = P(ex.new_region(st, tag + 'resource', self.RS, 'param'), 0)
        null = buf == 'none'
        at = lambda i, o: P(Elem('chunk', i), o)
        w = lambda o, v: ex.store_raw(st, P(r.base, o), 8, v, None)
        w(self.IB, NULL if null else at(ib, HS))
        w(self.IN, SB)
        cn = null and k == 0
        w(self.B, NULL if cn else at(s.cur, HS))
        w(self.M, NULL if cn else at(s.cur, self.top(s.cur)))
        w(self.E, NULL if cn else at(s.cur, self.end(s.cur)))
        w(self.TOP, NULL if f == 0 else at(F.nd(0), 0))
        s.r = r
        s.arrs = {key: a for key, a in st.arrs.items() if key[0] == 'chunk'}
        s.own = ex.ownarr(st, 'chunk')
        s.cells = self.cells_of(st, s)
        return s

    # ---------------------------------------------------------------- reading the state back
    def cells_of(self, st, s):
        return {o: self.fld(st, s.r, o) for o in (self.B, self.M, self.E, self.IB, self.IN, self.TOP)}

    def pl(self, p):
        """(place, offset) of a pointer; null is the data of place 0"""
        p = self.ex.norm(self.ex.int2p(p))
        if p.base is None:
            return z3.IntVal(0), bv(p.off, 64) + self.HS
        if not (isinstance(p.base, Elem) and p.base.fam == 'chunk'):
            raise E.Unsupported('pointer %r' % (p,))
        return zi(p.base.id), bv(p.off, 64)

    def isat(self, p, i, off, st=None):
        a, o = self.pl(p)
        return simp(z3.And(a == zi(i), o == bv(off, 64)))

    def fld(self, st, r, o):
        return self.ex.load_raw(st, P(r.base, o), 8, None)

    def get(self, st, x, off):
        return self.ex.elem_get(st, 'chunk', x, off)

    def recorded(self, st, x, y, msg):
        """the header of x records place y as it was"""
        self.ok(st, self.isat(self.get(st, x, self.hb), y, self.HS), msg)
        self.ok(st, self.isat(self.get(st, x, self.hm), y, self.top(y)), msg)
        self.ok(st, self.isat(self.get(st, x, self.he), y, self.end(y)), msg)

    def each(self, ex, st, L, f, lo=0):
        """f(state, position) under an arbitrary position lo <= j < len"""
        if L.items is not None:
            lo_ = lo if isinstance(lo, int) else None
            for j in range(len(L.items)):
                if lo_ is not None and j >= lo_:
                    f(st, j)
            return
        if isinstance(L.n, int) and L.n == 0:
            return
        s = st.fork()
        j = fint('j')
        s.assume(zi(lo) <= j, j < zi(L.n))
        f(s, j)

    def kept(self, st, s, lo=0, msg='the records of the older blocks are unchanged'):
        """the headers of U[lo..] are as they were"""
        self.each(self.ex, st, s.U, lambda q, j: self.recorded(q, s.U.nd(j), s.U.nd(j + 1), msg), lo)

    def free_kept(self, st, s, but=None, msg='the free chunks are as they were'):
        F = s.F

        def one(q, j):
            x = F.nd(j)
            if but is not None:
                q = q.fork()
                q.assume(zi(x) != zi(but))
                if not self.ex.feasible(q):
                    return
            self.freerec(q, x, msg)
        self.each(self.ex, st, F, one)

    def freerec(self, q, x, msg):
        self.ok(q, self.isat(self.get(q, x, self.hb), x, self.HS), msg)
        self.ok(q, self.isat(self.get(q, x, self.hm), x, self.HS), msg)
        self.ok(q, self.isat(self.get(q, x, self.he), x, self.end(x)), msg)

    def link(self, q, x):
        p = self.get(q, x, self.hn)
        a, o = self.pl(p) if not (p.base is None) else (z3.IntVal(0), None)
        return a

    def head(self, q, r):
        p = self.ex.norm(self.ex.int2p(self.fld(q, r, self.TOP)))
        if p.base is None:
            return z3.IntVal(0)
        a, o = self.pl(p)
        self.ok(q, simp(z3.Or(o == 0, a == 0)), 'the free list holds chunks')
        return a

    def chain(self, q, r):
        """bounded mode: the free chunks reachable"""
        out = []
        x = simp(self.head(q, r))
        while not (isinstance(x, int) and x == 0):
            if not isinstance(x, int) or len(out) > 8:
                raise E.Unsupported('free list in bounded mode')
            out.append(x)
            x = simp(self.link(q, x))
        return out

    def free_is(self, st, s, r, popped=0, but=None, msg='no free chunk is lost'):
        """the free list is rev(U[0..popped)) ++ F, without `but` in F"""
        U, F, ex = s.U, s.F, self.ex
        if ex.small and isinstance(popped, int):
            want = list(U.items[:popped]) + list(F.items)
            got = self.chain(st, r)
            if but is not None:
                b = simp(zi(but))
                want = [x for x in want if x != b]
            return self.ok(st, sorted(got) == sorted(want), msg)
        h = self.head(st, r)
        f0 = F.nd(0)
        if but is not None:
            i = F.pos(but)
            self.ok(st, simp(h == z3.If(zi(i) == 0, zi(F.nd(1)), zi(f0))), msg)
        elif isinstance(popped, int) and popped == 0:
            self.ok(st, simp(h == zi(f0)), msg)
        else:
            self.ok(st, simp(h == z3.If(zi(popped) == 0, zi(f0), zi(U.nd(zi(popped) - 1)))), msg + ' (first)')

        def one(q, j):
            want = zi(F.nd(j + 1))
            if but is not None:
                q = q.fork()
                i = F.pos(but)
                q.assume(zi(j) != i)
                want = z3.If(j + 1 == i, zi(F.nd(j + 2)), want)
            self.ok(q, simp(self.link(q, F.nd(j)) == want), msg + ' (older)')
        self.each(ex, st, F, one)
        if isinstance(popped, int) and popped == 0:
            return

        def two(q, j):
            q = q.fork()
            q.assume(zi(j) < zi(popped))
            x = U.nd(j)
            self.ok(q, simp(self.link(q, x) == z3.If(zi(j) == 0, zi(f0), zi(U.nd(j - 1)))), msg)
            self.freerec(q, x, 'a chunk out of use is empty and knows its own size')
        self.each(ex, st, U, two)

    def held(self, st, s, msg='every chunk is still held'):
        for L in (s.U, s.F):
            self.each(self.ex, st, L, lambda q, j: self.ok(q, self.ex.owned(q, 'chunk', L.nd(j)), msg))

    # ---------------------------------------------------------------- loop invariants
    def cands(self, ex, L, st0, env0, init, kinds, bsnap):
        C = []
        HS = z3.BitVecVal(self.HS, 64)
        for s in [self] + self.more:
            if s.U is None:
                continue
            U, F = s.U, s.F
            if s.d is not None:
                C.append(LP.Cand('it<=depth', lambda v, it, ib: it <= s.d))
            for k, kd in kinds.items():
                if kd and kd[0] == 'array' and k[0] == 'arr' and k[1][0] == 'chunk':
                    _, off, sub = k[1]
                    T = None
                    if off in (self.hb, self.hm, self.he) and sub == '':
                        T = lambda x: x
                    elif off == self.hm:
                        T = lambda x: HS
                    elif off == self.he:
                        T = lambda x: self.end(x)
                    if T and not (isinstance(U.n, int) and U.n == 0):
                        A0 = init[k]
                        C.append(LP.Cand('%s of the chunks out of use' % (k,), lambda v, it, ib, x, k=k, T=T, A0=A0, U=U:
                                         z3.Select(v[k], x) == z3.If(z3.And(U.member(x), U.pos(x) < it), T(x), z3.Select(A0, x)),
                                         'int', lambda v, x, k=k: z3.Select(v[k], x)))
            for k, kd in kinds.items():
                if kd and kd[0] == 'elem' and kd[1] == 'chunk' and kd[2] == '*':
                    for n, fn in (('top', self.top), ('end', self.end), ('start', lambda i: HS)):
                        C.append(LP.Cand('%s at the %s of its place' % (k, n), lambda v, it, ib, k=k, fn=fn: self.offis(ex, v[k], fn)))
            if self.rl is not None:
                ka = [init.get(('arr', ('chunk', o, sb))) for o, sb in ((self.he, 'off'),)]
                for sh in (0, 1):   # 1: the first round was peeled off
                    C.append(LP.Cand('the free chunks seen are too small', lambda v, it, ib, x, F=F, sh=sh:
                                     z3.Implies(z3.And(0 <= x, x < it + sh), z3.ULT(self.end(F.nd(x)) - HS, self.rl)), 'int',
                                     lambda v, x, F=F: F.nd(x)))
        return C

    def offis(self, ex, v, fn):
        if not isinstance(v, P):
            return False
        v = ex.norm(v)
        if v.base is None:
            return simp(bv(v.off, 64) + self.HS == fn(z3.IntVal(0)))
        if not isinstance(v.base, Elem):
            return False
        return bv(v.off, 64) == fn(zi(v.base.id))

    def length(self, st):
        n = fbv(64, 'len')
        st.assume(z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
        return n, (n + 15) & ~15


class Alloc(Stack):
    covers = ('stack_resource::allocate', 'freelist_t::take_atleast', 'freelist_t::count', 'padding_len', 'stack_resource::aligned')

    def post(self, ex, st, oc):
        s = self.mk(ex, st)
        self.U, self.F = s.U, s.F
        n, rl = self.length(st)
        self.rl = rl
        outs = self.outs(st, 'drv_alloc', s.r, n)
        self.ok(st, any(ex.feasible(q) for q, _ in outs), 'allocate returns')
        for q, oc in outs:
            if not ex.feasible(q):
                continue
            if oc[0] == 'throw':
                self.ok(q, len(q.g['new']) == 0, 'an exception comes from the heap')
                self.unchanged(q, s)
                continue
            self.returned(ex, q, s, n, rl, oc[1])

    def unchanged(self, q, s):
        for o, f in ((self.M, self.top), (self.E, self.end), (self.B, lambda i: z3.BitVecVal(self.HS, 64))):
            self.ok(q, self.isat(self.fld(q, s.r, o), s.cur, f(s.cur)), 'a failed allocation leaves the resource as it was')
        self.kept(q, s)
        self.free_kept(q, s)
        self.free_is(q, s, s.r)

    def returned(self, ex, q, s, n, rl, p):
        HS, F = self.HS, s.F
        x, o = self.pl(p)
        cur = zi(s.cur)
        B, M, EE = [self.pl(self.fld(q, s.r, f)) for f in (self.B, self.M, self.E)]
        self.ok(q, simp(z3.And(B[0] == x, M[0] == x, EE[0] == x, B[1] == HS)), 'the block is in the current chunk')
        self.ok(q, simp((self.addr(x) + o) & C16 == 0), 'the block is aligned')
        self.ok(q, simp(z3.And(z3.ULE(o, o + n), z3.ULE(o + n, M[1]), z3.ULE(M[1], EE[1]), z3.ULE(z3.BitVecVal(HS, 64), o))),
                'the block is inside the part of the chunk in use')
        self.ok(q, simp(z3.ULE(EE[1], self.siz(x))), 'the chunk is as big as recorded')
        self.ok(q, simp(M[1] == o + rl), 'the record of the block matches its size')
        self.ok(q, simp(z3.Or(n == 0, self.addr(x) + o != 0)), 'the block is not null')
        new = q.g['new']
        self.ok(q, len(new) <= 1, 'at most one chunk is asked for')
        self.kept(q, s)
        same = q.fork()
        same.assume(x == cur)
        if ex.feasible(same):
            self.ok(same, simp(z3.UGE(o, self.top(cur))), 'the block does not overlap a living block')
            self.ok(same, simp(EE[1] == self.end(cur)), 'the current chunk keeps its end')
            self.ok(same, len(new) == 0, 'no memory is asked for if the block fits')
            self.free_kept(same, s)
            self.free_is(same, s, s.r)
        diff = q.fork()
        diff.assume(x != cur)
        if not ex.feasible(diff):
            return
        self.recorded(diff, x, cur, 'the chunk records the state of the previous one')
        if self.c02:
            self.ok(diff, simp(z3.ULT(self.end(cur) - self.top(cur), rl)), 'another chunk is used only if the block does not fit')
        if new:
            self.ok(diff, simp(x == zi(new[0])), 'the new chunk is used')
            self.ok(diff, ex.owned(diff, 'chunk', new[0]), 'the new chunk is held')
            if self.c02:
                self.each(ex, diff, F, lambda w, j: self.ok(w, simp(z3.ULT(self.end(F.nd(j)) - HS, rl)),
                                                            'a free chunk that is large enough is preferred'))
            self.free_kept(diff, s)
            self.free_is(diff, s, s.r)
        else:
            self.ok(diff, F.member(x), 'the chunk is a free one')
            self.ok(diff, simp(EE[1] == self.end(x)), 'the chunk keeps its end')
            self.free_kept(diff, s, x)
            self.free_is(diff, s, s.r, but=simp(x), msg='only the chunk taken leaves the free list')


class Dealloc(Stack):
    covers = ('stack_resource::deallocate', 'stack_resource::drop_cur_chunk', 'stack_resource::prev_chunk', 'freelist_t::push')

    def post(self, ex, st, oc):
        s = self.mk(ex, st, fmax=1, kmax=3)
        self.U, self.F = s.U, s.F
        n, rl = self.length(st)
        HS = self.HS
        U = s.U
        k = s.k
        # the place of the last block: every chunk above it is empty
        if ex.small:
            d = ex.choose('depth', list(range(k + 1)))
        elif k == 0:
            d = 0
        else:
            d = fint('depth')
            st.assume(0 <= d, d <= zi(U.n))
        self.d = zi(d)
        own = U.nd(d) if not (k == 0) else s.ib
        self.each(ex, st, U, lambda q, j: None)
        if ex.small:
            for j in range(d):
                st.assume(self.top(U.nd(j)) == HS)
        elif k != 0:
            j = z3.Int('?j')
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < d), self.top(U.nd(j)) == HS), patterns=[U.nd(j)]))
        top = self.top(own)
        st.assume(z3.ULE(rl, top - HS))
        if isinstance(own, int) and own == 0:
            p = NULL      # (an empty block of a resource without memory)
        else:
            p = P(Elem('chunk', own), simp(top - rl))
        outs = self.outs(st, 'drv_dealloc', s.r, p, n)
        self.ok(st, any(ex.feasible(q) for q, _ in outs), 'deallocate returns')
        for q, oc in outs:
            if not ex.feasible(q):
                continue
            self.ok(q, oc[0] == 'ret', 'no throw')
            self.ok(q, self.isat(self.fld(q, s.r, self.B), own, HS), 'the chunk of the block is current again')
            self.ok(q, self.isat(self.fld(q, s.r, self.M), own, top - rl), 'the block, and nothing else, is free again')
            self.ok(q, self.isat(self.fld(q, s.r, self.E), own, self.end(own)), 'the chunk is as big as before')
            self.kept(q, s, d)
            self.free_kept(q, s)
            self.free_is(q, s, s.r, popped=d)
            self.held(q, s)
            self.ok(q, q.g['new'] == (), 'no memory is asked for')


class Reuse(Stack):
    covers = ('stack_resource::reuse_memory', 'stack_resource::drop_cur_chunk', 'stack_resource::prev_chunk', 'freelist_t::push')

    def post(self, ex, st, oc):
        s = self.mk(ex, st, fmax=1, kmax=3)
        self.U, self.F = s.U, s.F
        outs = self.outs(st, 'drv_reuse', s.r)
        self.ok(st, any(ex.feasible(q) for q, _ in outs), 'reuse_memory returns')
        for q, oc in outs:
            if not ex.feasible(q):
                continue
            self.ok(q, oc[0] == 'ret', 'no throw')
            for o, f in ((self.M, z3.BitVecVal(self.HS, 64)), (self.E, self.end(s.ib)), (self.B, z3.BitVecVal(self.HS, 64))):
                self.ok(q, self.isat(self.fld(q, s.r, o), s.ib, f), 'the initial buffer is current and empty')
            self.free_kept(q, s)
            self.free_is(q, s, s.r, popped=s.U.n)
            self.held(q, s)
            self.ok(q, q.g['new'] == (), 'no memory is asked for')


class Life(Stack):
    """construction, destruction, moves"""

    def empty(self, st, r, msg):
        """as a resource constructed without a buffer"""
        ex = self.ex
        z = P(ex.new_region(st, 'fresh', self.RS, 'param'), 0)
        s, _ = self.c(st, 'drv_ctor0', z)
        for o in (self.B, self.M, self.E, self.IB, self.TOP):
            self.ok(s, ex.is_null(s, ex.norm(ex.int2p(self.fld(s, z, o)))), 'a resource without a buffer owns nothing')
            self.ok(s, ex.is_null(s, ex.norm(ex.int2p(self.fld(s, r, o)))), msg)
        self.ok(s, simp(bv(self.fld(s, z, self.IN), 64) == 0), 'a resource without a buffer owns nothing')
        self.ok(s, simp(bv(self.fld(s, r, self.IN), 64) == 0), msg)
        return s

    def moved(self, st, d, s, old, msg):
        for o in (self.B, self.M, self.E, self.IB, self.TOP):
            a, b = self.ex.int2p(self.fld(st, d, o)), self.ex.int2p(old[o])
            self.ok(st, self.ex.ptr_eq(st, a, b), msg)
        self.ok(st, simp(bv(self.fld(st, d, self.IN), 64) == bv(old[self.IN], 64)), msg)
        self.kept(st, s, msg=msg)
        self.free_kept(st, s, msg=msg)
        self.held(st, s, msg)

    def gone(self, st, s, msg='each chunk is given back'):
        for L in (s.U, s.F):
            self.each(self.ex, st, L, lambda q, j: self.ok(q, simp(z3.Not(zb(self.ex.owned(q, 'chunk', L.nd(j))))), msg))

    def whole(self, st, s):
        """ghost list of all chunks in the order the destructor leaves them: rev(U) ++ F"""
        U, F = s.U, s.F
        if self.ex.small or s.k == 0:
            return
        k = zi(U.n)
        V = GList(s.tag + 'V', 'chunk', k + zi(F.n),
                  lambda j: z3.If(zi(j) < k, zi(U.nd(k - 1 - zi(j))), zi(F.nd(zi(j) - k))),
                  lambda x: z3.If(U.member(x), k - 1 - U.pos(x), k + F.pos(x)))
        V.member = lambda x: z3.Or(U.member(x), F.member(x))
        st.lists = dict(st.lists)
        st.lists[V.name] = V


class Ctor(Life):
    covers = ('stack_resource::stack_resource(std::span)',)

    def post(self, ex, st, oc):
        buf = ex.choose('buffer', ['some', 'null'])
        r = P(ex.new_region(st, 'resource', self.RS, 'param'), 0)
        if buf == 'null':
            s, _ = self.c(st, 'drv_ctor', r, NULL, 0)
            return self.empty(s, r, 'a resource without a buffer owns nothing')
        ib = fint('initial')
        SB = fbv(64, 'initial_size')
        st.assume(ib > 0, z3.ULT(SB, z3.BitVecVal(1 << 40, 64)), (self.addr(ib) + self.HS) & C16 == 0)
        b = P(Elem('chunk', ib), self.HS)
        s, _ = self.c(st, 'drv_ctor', r, b, SB)
        for o, v in ((self.B, self.HS), (self.IB, self.HS), (self.M, self.HS), (self.E, SB + self.HS)):
            self.ok(s, self.isat(self.fld(s, r, o), ib, v), 'the initial buffer is current, empty, and as big as given')
        self.ok(s, simp(bv(self.fld(s, r, self.IN), 64) == SB), 'the initial buffer is as big as given')
        self.ok(s, simp(self.head(s, r) == 0), 'no free chunks')


class Dtor(Life):
    covers = ('stack_resource::~stack_resource', 'stack_resource::reuse_memory', 'freelist_t::drop_all')

    def post(self, ex, st, oc):
        s = self.mk(ex, st)
        self.U, self.F = s.U, s.F
        self.whole(st, s)
        outs = self.outs(st, 'drv_dtor', s.r)
        self.ok(st, any(ex.feasible(q) for q, _ in outs), 'the destructor returns')
        for q, oc in outs:
            if ex.feasible(q):
                self.ok(q, oc[0] == 'ret', 'no throw')
                self.gone(q, s)


class MoveCtor(Life):
    covers = ('stack_resource::stack_resource(stack_resource&&)',)

    def post(self, ex, st, oc):
        s = self.mk(ex, st)
        old = self.cells_of(st, s)
        d = P(ex.new_region(st, 'target', self.RS, 'param'), 0)
        q, _ = self.c(st, 'drv_move', d, s.r)
        self.moved(q, d, s, old, 'the target has everything')
        q = self.empty(q, s.r, 'the source owns nothing')
        q, _ = self.c(q, 'drv_dtor', s.r)
        self.moved(q, d, s, old, 'destroying the source changes nothing')


class MoveAssign(Life):
    covers = ('stack_resource::operator=(stack_resource&&)',)

    def dtor(self, ex, d, arrs):
        """the contract of the destructor (discharged by 'stack_resource destruction'), for the target in its entry state"""
        def h(ex, st, a, I):
            p = ex.norm(ex.int2p(a[0]))
            if not (p.base is d.r.base and same(p.off, 0) and
                    all(same(self.fld(st, d.r, o), v) for o, v in d.cells.items()) and
                    all(key in arrs and same(v, arrs[key]) for key, v in st.arrs.items() if key[0] == 'chunk')):
                return ex.run_fn(st, [F for F in ex.mod.funcs.values() if F.dem == DTOR][0], a, I)
            x = z3.Int('?x')
            gone = lambda x: z3.Or(d.U.member(x), d.F.member(x)) if d.k != 0 else d.F.member(x)
            own0 = ex.ownarr(st, 'chunk')
            own = z3.FreshConst(own0.sort(), 'own')
            st.assume(z3.ForAll([x], z3.Select(own, x) == z3.And(z3.Select(own0, x), z3.Not(gone(x))), patterns=[z3.Select(own, x)]))
            st.own = dict(st.own)
            st.own['chunk'] = own
            for key, a0 in list(st.arrs.items()):
                if key[0] == 'chunk':
                    a1 = z3.FreshConst(a0.sort(), 'gone')
                    st.assume(z3.ForAll([x], z3.Implies(z3.Not(gone(x)), z3.Select(a1, x) == z3.Select(a0, x)), patterns=[z3.Select(a1, x)]))
                    st.arrs[key] = a1
            st.wcells(d.r.base).clear()
            return None
        return h

    def post(self, ex, st, oc):
        d = self.mk(ex, st, 'd', fmax=1, kmax=1)
        s = self.mk(ex, st, 's', fmax=1, kmax=1, one=True)
        self.U, self.F = d.U, d.F
        self.whole(st, d)
        # (the loops walk the chunks of the target only: no invariants over the lists of the source are looked for)
        st.lists = {n: L for n, L in st.lists.items() if L is not s.U and L is not s.F}
        old = self.cells_of(st, s)
        if not ex.small:
            ex.overrides.append((re.compile('^%s$' % re.escape(DTOR)), self.dtor(ex, d, dict(st.arrs))))
        outs = self.outs(st, 'drv_assign', d.r, s.r)
        self.ok(st, any(ex.feasible(q) for q, _ in outs), 'move assignment returns')
        for q, oc in outs:
            if not ex.feasible(q):
                continue
            self.ok(q, oc[0] == 'ret', 'no throw')
            self.gone(q, d, 'what the target had is given back')
            self.moved(q, d.r, s, old, 'the target has everything')
            self.empty(q, s.r, 'the source owns nothing')


ALL = [('allocate', Alloc), ('deallocate', Dealloc), ('reuse_memory', Reuse), ('construction', Ctor), ('destruction', Dtor),
       ('move construction', MoveCtor), ('move assignment', MoveAssign)]


def targets(c02):
    out = []
    for n, c in ALL:
        if c02 or c not in (Dtor, MoveAssign):
            out.append(type(c.__name__ + ('2' if c02 else '1'), (c,), dict(name='stack_resource ' + n, c02=c02)))
    return out
