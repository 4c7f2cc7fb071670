"""C04 polymorphic resources: the one selected on this thread applies to one coroutine, otherwise the current default;
what a resource gave comes back to it with the same size and alignment (frames, the arrays of a pool)."""
from props.common import *
from props.scen import *
from props.pool import *
from props import c07, c08
import itertools
import loops

NDR = -1


class Res:
    """contract of std::pmr::memory_resource: allocate gives a fresh block, deallocate needs a live block of this resource"""

    def res_base(self, ex, st):
        ex.fam('mres', {}, perm=False)
        st.g.update(blocks=(), freed=())
        self.fail_alloc = False
        o = ex.overrides
        o.insert(0, (re.compile(r'^std::pmr::memory_resource::(allocate|deallocate)\('), self.mem))
        o.insert(0, (re.compile(r'^std::pmr::new_delete_resource\(\)$'), lambda ex, st, a, I: self.mr(NDR)))

    def mr(self, i):
        return P(Elem('mres', i if isinstance(i, int) and i < 0 else i), 0)

    def newmr(self, st, name):
        i = fint(name)
        st.assume(i > 0)
        return self.mr(i)

    def mk_block(self, ex, st, by, al):
        r = ex.new_region(st, 'block', by, 'param', 16)
        st.assume(simp(r.addr != 0), simp(z3.ULE(r.addr, z3.BitVecVal(1 << 63, 64))))
        if isinstance(al, int) and al > 1:
            st.assume(simp((r.addr & (al - 1)) == 0))
        return r

    def mem(self, ex, st, a, I):
        who = ex.norm(ex.int2p(a[0]))
        if len(a) == 3:
            if self.fail_alloc:
                return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excid']), 0), None)))]
            r = self.mk_block(ex, st, a[1], a[2])
            st.g['blocks'] = st.g['blocks'] + ((r, who, a[1], a[2]),)
            return P(r, 0)
        p = ex.norm(ex.int2p(a[1]))
        R = p.base.reg if isinstance(p.base, Arr) else p.base
        off = p.off if not isinstance(p.base, Arr) else (p.off if same(p.base.idx, 0) else None)
        b = [x for x in st.g['blocks'] if x[0] is R]
        if not self.ok(st, len(b) == 1 and off is not None and simp(bv(off, 64) == 0), 'what is given back is what a resource returned'):
            return []
        r, w, by, al = b[0]
        if not self.ok(st, r not in st.dead, 'memory is given back once'):
            return []
        self.ok(st, ex.ptr_eq(st, who, w), 'memory goes back to the resource it came from')
        self.ok(st, simp(bv(a[2], 64) == bv(by, 64)), 'memory is given back with its size')
        self.ok(st, simp(bv(a[3], 64) == bv(al, 64)), 'memory is given back with its alignment')
        self.before_free(ex, st, r)
        st.dead = st.dead | {r}

    def before_free(self, ex, st, r):
        pass

    def all_back(self, s):
        for r, *_ in s.g['blocks']:
            self.ok(s, r in s.dead, 'all memory is given back')


# ---------------------------------------------------------------- fixed_array
class FA(Res, Scen):
    fn = 'drv_nop'
    T = 'e24'
    small_unroll = 4
    covers = ('fixed_array',)

    def setup(self, ex, st):
        Scen.base(self, ex, st)
        self.res_base(ex, st)
        ex.extra_cands = self.cands
        o = ex.overrides
        o.append((re.compile('^ext_ctor$'), lambda ex, st, a, I: self.elem(ex, st, a[0], I, True)))
        o.append((re.compile('^ext_dtor$'), lambda ex, st, a, I: self.elem(ex, st, a[0], I, False)))
        st, self.size = self.c(st, 'drv_sizeof_' + self.T)
        st, self.align = self.c(st, 'drv_alignof_' + self.T)
        self.arrs = []
        return []

    def d(self, op):
        return 'drv_fa_%s_%s' % (op, self.T)

    def length(self, ex, st):
        if ex.small:
            return ex.choose('n', [0, 1, 2, 3])
        n = z3.BitVec(fresh_name('n'), 64)
        st.assume(z3.ULT(n, 1 << 32))
        return n

    # an element is constructed / destroyed: liveness per index
    def elem(self, ex, st, p, I, make):
        p = ex.norm(ex.int2p(p))
        b = p.base
        if isinstance(b, Region) and b.stride:
            b = Arr(b, 0)
        if not (isinstance(b, Arr) and p.off == 0):
            ex.fail(st, 'an element of the array', I)
            return []
        ex.arr_check(st, b, I)
        k = 'live%d' % b.reg.no
        i = bv(b.idx, 64)
        v = simp(S(st.g[k], i))
        ex.prove(st, bnot(v) if make else v, 'an element is constructed once' if make else 'an element is destroyed once', I)
        st.g[k] = z3.Store(st.g[k], i, z3.BoolVal(make))

    def mk_block(self, ex, st, by, al):
        n = self.pending
        self.ok(st, n is not None and simp(bv(by, 64) == bv(n, 64) * self.size), 'memory for exactly the elements')
        self.ok(st, al == self.align, 'memory aligned for the elements')
        r = Region('array', None, 'param')
        r.stride, r.count, r.efields = self.size, n, {}
        r.no = len(self.arrs)
        self.arrs.append(r)
        st.mem[r] = {}
        st.cow.add(r)
        st.g['live%d' % r.no] = z3.K(BV64, z3.BoolVal(False))
        self.pending = None
        return r

    def count(self, st, r, want, msg):
        L = st.g['live%d' % r.no]
        n = r.count
        if isinstance(n, int):
            for i in range(n):
                self.ok(st, simp(S(L, z3.BitVecVal(i, 64)) == z3.BoolVal(want)), msg)
        else:
            i = fbv(64, 'i')
            self.ok(st, z3.Implies(z3.ULT(i, n), S(L, i) == z3.BoolVal(want)), msg)

    def before_free(self, ex, st, r):
        self.count(st, r, False, 'the elements are destroyed before their memory goes back')

    def cands(self, ex, L, st0, env0, init, kinds, bsnap):
        out = []
        for r in self.arrs:
            g = ('g', 'live%d' % r.no)
            if 'live%d' % r.no not in st0.g or r in st0.dead:
                continue
            n = bv(r.count, 64)
            A = lambda v, g=g, s0=st0: S_(v[g] if g in v else s0.g[g[1]])

            def S_(a):
                return a
            for k, kd in kinds.items():
                if k[0] != 'phi' or not kd:
                    continue
                def pos(v, k=k, kd=kd, r=r):
                    return z3.BitVecVal(0, 64)
                idx = None
                if kd[0] == 'arr':
                    idx = lambda v, k=k: bv(v[k], 64)
                elif kd[0] in ('int', 'bv') and L.fn.vty[k[1]] == ('i', 64):
                    idx = lambda v, k=k, n=n: bv(v[k], 64)
                    rem = lambda v, k=k, n=n: n - bv(v[k], 64)
                    for up in (True, False):
                        out.append(loops.Cand('live%d %s n-%s' % (r.no, up, k), lambda v, it, ib, x, rem=rem, up=up, g=g, n=n, s0=st0: z3.Implies(
                            z3.ULT(x, n), S(v[g] if g in v else s0.g[g[1]], x) == (z3.ULT(x, rem(v)) if up else z3.UGE(x, rem(v)))), 'bv',
                            lambda v, x, g=g, s0=st0: S(v[g] if g in v else s0.g[g[1]], x)))
                if idx is None:
                    continue
                for up in (True, False):
                    out.append(loops.Cand('live%d %s %s' % (r.no, up, k), lambda v, it, ib, x, idx=idx, up=up, g=g, n=n, s0=st0: z3.Implies(
                        z3.ULT(x, n), S(v[g] if g in v else s0.g[g[1]], x) == (z3.ULT(x, idx(v)) if up else z3.UGE(x, idx(v)))), 'bv',
                        lambda v, x, g=g, s0=st0: S(v[g] if g in v else s0.g[g[1]], x)))
        return out

    def ctor(self, s, name, nores=False):
        ex = self.ex
        a = self.h(s, name, 64)
        n = self.length(ex, s)
        r = self.newmr(s, 'res_' + name)
        self.pending = n
        nb = len(s.g['blocks'])
        outs = self.outs(s, self.d('nores'), a, n) if nores else self.outs(s, self.d('ctor'), a, n, r)
        if nores:
            r = self.mr(NDR)
        res = []
        for s, oc in outs:
            if not self.ok(s, oc[0] == 'ret', 'no exception'):
                continue
            bl = s.g['blocks'][nb:]
            self.ok(s, len(bl) <= 1, 'at most one block is asked for')
            self.ok(s, simp(zb((bv(n, 64) == 0) == z3.BoolVal(not bl))), 'memory is asked for if there are elements')
            for x in bl:
                self.ok(s, ex.ptr_eq(s, x[1], r), 'memory comes from the given resource')
                self.count(s, x[0], True, 'every element is constructed')
            res.append((s, a, n, r, bl))
        self.pending = None
        return res

    def holds(self, s, a, n, r, bl, what):
        s, q = self.c(s, self.d('res'), a)
        self.ok(s, self.same(s, q, r), what + ': reports its resource')
        s, m = self.c(s, self.d('size'), a)
        self.ok(s, simp(bv(m, 64) == bv(n, 64)), what + ': has its size')
        s, p = self.c(s, self.d('data'), a)
        self.ok(s, self.same(s, p, P(bl[0][0], 0) if bl else NULL), what + ': holds its elements')
        return s

    def free(self, s, a):
        outs = self.outs(s, self.d('dtor'), a)
        out = []
        for s, oc in outs:
            if self.ok(s, oc[0] == 'ret', 'no exception'):
                out.append(s)
        return out


class FA1(FA):
    def play(self, st):
        for nores in (False, True):
            for s, a, n, r, bl in self.ctor(st.fork(), 'a', nores):
                s = self.holds(s, a, n, r, bl, 'constructed')
                for s in self.free(s, a):
                    self.all_back(s)
        # the resource has nothing left
        if not self.ex.small:
            s = st.fork()
            n = z3.BitVec(fresh_name('n'), 64)
            s.assume(z3.UGT(n, 0), z3.ULT(n, 1 << 32))
            self.fail_alloc = True
            for s2, oc in self.outs(s, self.d('ctor'), self.h(s, 'a', 64), n, self.newmr(s, 'r')):
                self.ok(s2, oc[0] == 'throw' and self.is_exc(s2, oc[1].ptr), 'the exception of the resource reaches the caller')
                self.ok(s2, s2.g['blocks'] == (), 'nothing is held')
            self.fail_alloc = False


class FAMove(FA):
    def play(self, st):
        for s0, a, n, r, bl in self.ctor(st.fork(), 'a'):
            # move construction; source destroyed first or last
            for order in (0, 1):
                s = s0.fork()
                b = self.h(s, 'b', 64)
                s, _ = self.c(s, self.d('move'), b, a)
                s = self.holds(s, b, n, r, bl, 'moved to')
                for s in self.free(s, (a, b)[order]):
                    for s in self.free(s, (b, a)[order]):
                        self.all_back(s)
            # move assignment to itself
            s = s0.fork()
            s, _ = self.c(s, self.d('assign'), a, a)
            s = self.holds(s, a, n, r, bl, 'assigned to itself')
            for s in self.free(s, a):
                self.all_back(s)
            # to an empty one
            s = s0.fork()
            b = self.h(s, 'b', 64)
            s, _ = self.c(s, self.d('def'), b)
            s, _ = self.c(s, self.d('assign'), b, a)
            s = self.holds(s, b, n, r, bl, 'assigned')
            for s in self.free(s, a):
                for s in self.free(s, b):
                    self.all_back(s)


class FAAssign(FA):
    def play(self, st):
        for s0, a, n, r, bl in self.ctor(st.fork(), 'a'):
            for s1, b, m, q, cl in self.ctor(s0, 'b'):
                for order in (0, 1):
                    s = s1.fork()
                    s, _ = self.c(s, self.d('assign'), b, a)
                    s = self.holds(s, b, n, r, bl, 'assigned')
                    for s in self.free(s, (a, b)[order]):
                        for s in self.free(s, (b, a)[order]):
                            self.all_back(s)


# ---------------------------------------------------------------- default resource, shared by all threads
class Shared:
    shared = True

    def __init__(self, tg):
        self.tg = tg

    def cur(self, st):
        v = self.tg.newmr(st, 'default_now')
        return v

    def load(self, ex, st, p, ty, order, I):
        ex.prove(st, order in ACQUIRE, 'the default is read with acquire', I)
        v = self.cur(st)
        st.g['seen'] = st.g['seen'] + (v,)
        return [(st, v)]

    def store(self, ex, st, p, ty, v, order, I):
        ex.prove(st, order in RELEASE, 'the default is replaced with release', I)
        st.g['wrote'] = st.g['wrote'] + ((self.cur(st), v),)
        return [(st, None)]

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op != 'xchg':
            raise E.Unsupported('rmw ' + op)
        ex.prove(st, order in ('acq_rel', 'seq_cst'), 'the default is replaced with acquire and release', I)
        o = self.cur(st)
        st.g['wrote'] = st.g['wrote'] + ((o, v),)
        return [(st, o)]

    def cmpxchg(self, ex, st, p, ty, exp, des, so, fo, weak, I):
        o = self.cur(st)
        eq = ex.ptr_eq(st, o, exp)
        s2 = st.fork()
        s2.nd += 1
        if not weak:
            s2.assume(bnot(eq))
        st.assume(eq)
        ex.prove(st, so in ('acq_rel', 'seq_cst'), 'the default is replaced with acquire and release', I)
        st.g['wrote'] = st.g['wrote'] + ((o, des),)
        return [(s2, [o, False]), (st, [o, True])]


class Poly(Res, Scen):
    fn = 'drv_nop'
    covers = ('polymorphic_resource',)

    def setup(self, ex, st):
        ex.max_steps = 4000000
        Scen.base(self, ex, st)
        self.res_base(ex, st)
        ex.overrides.append((re.compile(r'^std::(__atomic_base<bool>|atomic<bool>)::(notify_one|notify_all|wait)\('), lambda ex, st, a, I: None))
        return []

    # what another thread does in between: its own thread-locals
    def elsewhere(self, s, f):
        ex = self.ex
        tls = [r for n, r in ex.gregs.items() if ex.mod.globals[n].tls and r in s.mem]
        save = [(r, s.mem[r]) for r in tls]
        for r in tls:
            del s.mem[r]
            s.cow.discard(r)
        s = f(s)
        for n, r in ex.gregs.items():
            if ex.mod.globals[n].tls and r in s.mem:
                del s.mem[r]
                s.cow.discard(r)
        for r, c in save:
            s.mem[r] = dict(c)
            s.cow.add(r)
        return s

    def pass_(self, s, r):
        s, _ = self.c(s, 'drv_pass', r)
        return s

    def shared_default(self):
        h = Shared(self)

        def any_(ex, st, p, I):
            if isinstance(p.base, Region) and p.base.kind == 'global':
                return h if not ex.mod.globals[p.base.name[1:]].name.startswith('_ZGV') else None
            return None
        self.ex.atomic_any = any_


class Fresh(Poly):
    name = 'default resource before anything is set'

    def play(self, st):
        s, r = self.c(st.fork(), 'drv_get')
        self.ok(s, self.same(s, r, self.mr(NDR)), 'the default is new_delete_resource')
        m, m2 = self.newmr(st, 'm'), self.newmr(st, 'm2')
        s, r = self.c(st.fork(), 'drv_set', m)
        self.ok(s, self.same(s, r, self.mr(NDR)), 'setting returns the previous default')
        s, r = self.c(s, 'drv_get')
        self.ok(s, self.same(s, r, m), 'the default is what was set')
        s, r = self.c(s, 'drv_set', m2)
        self.ok(s, self.same(s, r, m), 'setting returns the previous default')
        s, r = self.c(s, 'drv_get')
        self.ok(s, self.same(s, r, m2), 'the default is what was set')
        s, r = self.c(self.elsewhere(s, lambda s: s), 'drv_get')
        self.ok(s, self.same(s, r, m2), 'the default is the same for every thread')
        for setd in (False, True):
            s = st.fork()
            if setd:
                s, _ = self.c(s, 'drv_set', m)
            h = self.h(s, 'poly', 8)
            s, _ = self.c(s, 'drv_poly', h)
            s, b = self.c(s, 'drv_alloc', h, fbv(64, 'bytes'))
            self.ok(s, self.same(s, s.g['blocks'][-1][1], m if setd else self.mr(NDR)), 'allocates from the default')


class Default(Poly):
    name = 'default resource under concurrent replacement'

    def play(self, st):
        st, _ = self.c(st, 'drv_get')    # initialised already
        self.shared_default()
        st.g.update(seen=(), wrote=())
        s, r = self.c(st.fork(), 'drv_get')
        self.ok(s, s.g['wrote'] == () and len(s.g['seen']) >= 1, 'reading does not replace')
        self.ok(s, bool(s.g['seen']) and self.same(s, r, s.g['seen'][-1]), 'the default read is a current one')
        m = self.newmr(st, 'm')
        for s, oc in self.outs(st.fork(), 'drv_set', m):
            if not self.ok(s, oc[0] == 'ret' and len(s.g['wrote']) == 1, 'replaced exactly once'):
                continue
            self.ok(s, self.same(s, s.g['wrote'][0][1], m), 'replaced by the given one')
            self.ok(s, self.same(s, oc[1], s.g['wrote'][0][0]), 'returns the one it replaced')
        s = st.fork()
        h = self.h(s, 'poly', 8)
        s, _ = self.c(s, 'drv_poly', h)
        self.ok(s, s.g['wrote'] == (), 'creating does not replace the default')
        seen = s.g['seen']
        s, b = self.c(s, 'drv_alloc', h, fbv(64, 'bytes'))
        s2 = s
        self.ok(s2, bool(seen) and self.same(s2, s2.g['blocks'][-1][1], seen[-1]), 'allocates from a current default')


class Direct(Poly):
    """polymorphic_resource and frames of any size through it"""
    name = 'polymorphic_resource: any size'

    def play(self, st):
        ex = self.ex
        n = fbv(64, 'bytes')
        st.assume(z3.UGE(n, 1), z3.ULT(n, 1 << 62))
        m, d = self.newmr(st, 'm'), self.newmr(st, 'd')
        st, _ = self.c(st, 'drv_set', d)

        def spoil(s):    # whatever happens between allocation and deallocation
            s = self.pass_(s, self.newmr(s, 'later'))
            s, _ = self.c(s, 'drv_set', self.newmr(s, 'later_default'))
            return s
        for sel in (False, True):
            for how in ('poly', 'polyarg', 'new', 'newarg', 'chnew'):
                s = self.pass_(st.fork(), m) if sel else st.fork()
                x = self.newmr(s, 'x')
                want = x if how in ('polyarg', 'newarg', 'chnew') else m if sel else d
                if how.startswith('poly'):
                    h = self.h(s, 'poly', 8)
                    s, _ = self.c(s, 'drv_' + how, h, *([x] if how == 'polyarg' else []))
                    s, p = self.c(s, 'drv_alloc', h, n)
                else:
                    s, p = self.c(s, 'drv_' + how, n, *([x] if how != 'new' else []))
                if not self.ok(s, len(s.g['blocks']) == 1, 'one block is asked for'):
                    continue
                r, w, by, al = s.g['blocks'][0]
                self.ok(s, ex.ptr_eq(s, w, want), 'asked for from the selected resource')
                self.ok(s, simp(z3.UGE(bv(by, 64), n)), 'enough memory is asked for')
                self.ok(s, isinstance(al, int) and al >= 16, 'memory is aligned for a coroutine frame')
                # the selection was used by this one (if at all): the next uses the default
                nxt = d if (how in ('poly', 'new') or not sel) else m
                s2, q = self.c(s.fork(), 'drv_new', n)
                self.ok(s2, ex.ptr_eq(s2, s2.g['blocks'][-1][1], nxt), 'a selection applies to exactly one coroutine')
                s = spoil(s)
                if how.startswith('poly'):
                    s, _ = self.c(s, 'drv_dealloc', h, p, n)
                else:
                    s, _ = self.c(s, 'drv_chdel' if how == 'chnew' else 'drv_del', p, n)
                self.ok(s, len(s.g['blocks']) == 1, 'giving back asks for nothing')
                self.all_back(s)


KINDS = ('task', 'gen', 'chan', 'async', 'thr')


class Coros(Poly):
    """real coroutines: every pair of creations, under every selection, with another thread doing the same in between"""
    k = 'task'

    def create(self, s, how, k, x):
        p = self.h(s, 'object', 64)
        nb = len(s.g['blocks'])
        s, _ = self.c(s, 'drv_%s_%s' % (how, k), p, *([x] if how != 'def' else []))
        if not self.ok(s, len(s.g['blocks']) == nb + 1, 'the frame is one block'):
            raise Stop()
        return s, p, s.g['blocks'][-1]

    def other(self, s):
        """another thread passes its own resource (maybe without using it) and runs coroutines"""
        def f(s):
            y = self.newmr(s, 'other_thread')
            s, p, b = self.create(s, 'def', 'task', None)
            self.ok(s, self.same(s, b[1], self.dflt), 'the selection of one thread is not seen by another')
            s, _ = self.c(s, 'drv_dtor_task', p)
            s = self.pass_(s, y)
            return s
        return self.elsewhere(s, f)

    def play(self, st):
        ex = self.ex
        self.dflt = d = self.newmr(st, 'd')
        st, _ = self.c(st, 'drv_set', d)
        m, m2 = self.newmr(st, 'm'), self.newmr(st, 'm2')
        for npass in (0, 1, 2):
            for h1, h2 in itertools.product(('def', 'arg', 'arg2'), repeat=2):
                for k2 in KINDS:
                    for first in (0, 1):
                        s = st.fork()
                        x, y = self.newmr(s, 'x'), self.newmr(s, 'y')
                        for i in range(npass):
                            s = self.pass_(s, (m2, m)[i] if npass == 2 else m)
                        sel = m if npass else None
                        s = self.other(s)
                        s, p1, b1 = self.create(s, h1, self.k, x)
                        want = x if h1 != 'def' else sel or d
                        self.ok(s, self.same(s, b1[1], want), 'the frame comes from the selected resource')
                        if h1 == 'def':
                            sel = None
                        s = self.other(s)
                        s, p2, b2 = self.create(s, h2, k2, y)
                        want = y if h2 != 'def' else sel or d
                        self.ok(s, self.same(s, b2[1], want), 'a selection applies to exactly one coroutine')
                        s, _ = self.c(s, 'drv_set', self.newmr(s, 'later_default'))
                        s = self.pass_(s, self.newmr(s, 'later'))
                        a = [(p1, self.k, b1), (p2, k2, b2)]
                        for p, k, b in a if first else a[::-1]:
                            self.ok(s, b[0] not in s.dead, 'a frame keeps its memory')
                            s, _ = self.c(s, 'drv_dtor_' + k, p)
                            self.ok(s, b[0] in s.dead, 'the frame is given back with its coroutine')
                        self.all_back(s)
                        self.all_dead(s)


class PoolRes(Scen):
    name, fn = 'thread_pool::get_resource', 'drv_pool_resource'
    covers = ('thread_pool::get_resource',)

    def setup(self, ex, st):
        self.ex = ex
        self.M = mk_pool(ex, st)
        return [P(self.M.pool, 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret' and ex.ptr_eq(st, ex.int2p(oc[1]), P(self.M.res, 0)), 'reports the resource the pool was constructed with')


PROPERTY = 'C04'
DRIVER = 'c04.cpp'
TRUSTED = ['std::pmr::memory_resource: allocate returns fresh memory of the requested size and alignment or throws']
TARGETS = [Fresh, Default, Direct, PoolRes]
for t in ('e24', 'e64'):
    for C, w in ((FA1, 'construct, destroy'), (FAMove, 'move'), (FAAssign, 'move assignment')):
        TARGETS.append(type(C.__name__ + '_' + t, (C,), dict(name='fixed_array<%s> %s' % (t, w), T=t)))
for k in KINDS:
    TARGETS.append(type('Coros_' + k, (Coros,), dict(name='pmr coroutines: %s then any' % k, k=k, no_small=True, weight=5)))
for T, drv in ((c07.PoolDtor, c07.DRIVER), (c07.PoolCtor, c07.DRIVER), (c08.Schedule, c08.DRIVER), (c08.Schedule1, c08.DRIVER)):
    TARGETS.append(type('Pool_' + T.__name__, (T,), dict(name='pool memory: ' + T.name, driver=drv)))
