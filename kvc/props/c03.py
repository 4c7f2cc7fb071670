"""C03 coroutine frame memory: one request to the selected resource, large enough for frame and kept copy; given back to
the same resource once, with the same pointer and size, after the copy is destroyed and without touching the block again."""
from props.common import *
from props.scen import *
import re

WIDTH = {'byte': 7, 'odd': 31}
OWNED = ('own', 'ownal', 'def')      # kept copies with an identity and a destructor


class Mem(Scen):
    kind = 'triv'
    n = None                         # frame size when operator new is called directly
    nothrow = True

    def base(self, ex, st):
        Scen.base(self, ex, st)
        st.g.update(blocks=(), live=(), acc=(), watch=None, hold=())
        self.rid = fbv(64, 'resource')
        st.assume(simp(z3.ULT(self.rid, z3.BitVecVal(1 << WIDTH.get(self.kind, 62), 64))))
        if self.kind in ('empty', 'cempty'):
            self.rid = 0
        o = ex.overrides

        def R(n, h):
            o.insert(0, (re.compile('^ext_%s$' % n), h))
        R('alloc', self.alloc)
        R('dealloc', self.dealloc)
        R('after', lambda ex, st, a, I: self.ok(st, self.isid(a[0]), 'the resource is still the same after deallocating') and None)
        R('made', self.made)
        R('died', self.died)
        R('id', self.newid)
        R('copy', self.copy)

    def isid(self, v):
        return simp(bv(v, 64) == bv(self.rid, 64))

    def newid(self, ex, st, a, I):
        if self.kind != 'def':
            raise E.Unsupported('default construction')
        v = fbv(64, 'default')
        if st.g.get('first'):
            return v        # construction by delete and the like: another resource
        st.g['first'] = True
        return self.rid

    def copy(self, ex, st, a, I):
        st.g['ncopy'] = st.g.get('ncopy', 0) + 1
        if not self.nothrow and st.g['ncopy'] == 2:     # the copy into the frame
            return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excid']), 0), None)))]

    def alloc(self, ex, st, a, I):
        self.ok(st, self.isid(a[0]), 'the memory is taken from the given resource')
        if getattr(self, 'exhausted', False):
            return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excid']), 0), None)))]
        r = ex.new_region(st, 'block', a[1], 'param', 16)
        st.assume(simp(r.addr != 0), simp((r.addr & 15) == 0), simp(z3.ULE(r.addr, z3.BitVecVal(1 << 63, 64))))
        st.g['blocks'] = st.g['blocks'] + ((r, a[1]),)
        return P(r, 0)

    def dealloc(self, ex, st, a, I):
        self.ok(st, self.isid(a[0]), 'the memory goes back to the resource it came from')
        p = ex.norm(ex.int2p(a[1]))
        b = [x for x in st.g['blocks'] if x[0] is p.base]
        if not self.ok(st, len(b) == 1 and simp(bv(p.off, 64) == 0) if b else False, 'what is given back is what the resource returned'):
            return []
        r, n = b[0]
        if not self.ok(st, r not in st.dead, 'a block is given back once'):
            return []
        self.ok(st, simp(bv(a[2], 64) == bv(n, 64)), 'the size given back is the size asked for')
        self.ok(st, not any(q.base is r for q in st.g['live']), 'the kept copy is destroyed before its memory goes back')
        st.dead = st.dead | {r}

    def made(self, ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        if not isinstance(p.base, Region):
            raise E.Unsupported('object at %r' % (p,))
        al = {'ownal': 16}.get(self.kind, 8)
        if p.base in [b for b, _ in st.g['blocks']]:
            ad = simp(p.base.addr + bv(p.off, 64))
            self.ok(st, simp((ad & (al - 1)) == 0), 'the copy is suitably aligned')
        for q in st.g['live']:
            if q.base is p.base:
                self.ok(st, bnot(ex.ptr_eq(st, p, q)), 'a copy is not constructed over another')
        st.g['live'] = st.g['live'] + (p,)

    def died(self, ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        for q in st.g['live']:
            if q.base is p.base:
                e = ex.ptr_eq(st, p, q)
                if e is True or (e is not False and ex.pr.query(st.pc, [bnot(e)], 5000)[0] == z3.unsat):
                    st.g['live'] = tuple(x for x in st.g['live'] if x is not q)
                    return
        ex.fail(st, 'a copy is destroyed once', I)
        return []

    # the with_resource<R> object of the caller
    def resource(self, s):
        if self.kind == 'def' and not getattr(self, 'arg', False):
            return s, NULL
        w = self.h(s, 'with_resource', 32)
        if self.kind == 'big':
            b = self.h(s, 'big')
            self.ex.store_raw(s, b, 8, self.rid, None)
            s, _ = self.c(s, 'drv_mk_big', w, b)
        elif self.kind == 'cempty':
            s, _ = self.c(s, 'drv_mk_cempty', w, self.h(s, 'r_empty', 1))
        else:
            s, _ = self.c(s, 'drv_mk_' + self.kind, w, self.rid)
        return s, w

    def done(self, s, w, blocks=1):
        if self.kind in OWNED and w is not NULL:
            s, _ = self.c(s, 'drv_rm_' + self.kind, w)
        self.ok(s, len(s.g['blocks']) == blocks, 'exactly one block is asked for')
        for r, n in s.g['blocks']:
            self.ok(s, r in s.dead, 'the block is given back')
        self.ok(s, s.g['live'] == (), 'every copy of the resource is destroyed')
        return s


class Direct(Mem):
    """operator new / operator delete of the promise base for every frame size"""
    fn = 'drv_nop'
    covers = ('overload_new_delete',)
    how = 'newarg'

    def setup(self, ex, st):
        self.base(ex, st)
        self.arg = self.how != 'new'
        self.n = fbv(64, 'frame_size')
        st.assume(simp(z3.UGE(self.n, z3.BitVecVal(1, 64))), simp(z3.ULT(self.n, z3.BitVecVal(1 << 62, 64))))

        def acc(st, p, size, write, I):
            if isinstance(p, P) and isinstance(p.base, Region) and any(p.base is b for b, _ in st.g['blocks']):
                st.g['acc'] = st.g['acc'] + ((p.base, p.off, size),)
            return None
        ex.on_access = acc
        return []

    def new(self, s, w):
        if self.how == 'new':
            return self.outs(s, 'drv_new_' + self.kind, self.n)
        a = 7 if self.how == 'newarg' else self.h(s, 'int', 4)
        return self.outs(s, 'drv_%s_%s' % (self.how, self.kind), self.n, a, w)

    def play(self, st):
        ex = self.ex
        st, sz = self.c(st, 'drv_size_' + self.kind)
        st, al = self.c(st, 'drv_align_' + self.kind)
        # the resource has nothing left
        self.exhausted = True
        s, w = self.resource(st.fork()) if self.arg else (st.fork(), NULL)
        o = self.new(s, w)
        self.ok(s, len(o) == 1, 'one outcome')
        for s2, oc in o:
            self.ok(s2, oc[0] == 'throw' and self.is_exc(s2, oc[1].ptr), 'the exception of the resource reaches the caller')
            self.done(s2, w, 0)
        self.exhausted = False
        s, w = self.resource(st) if self.arg else (st, NULL)
        o = self.new(s, w)
        self.ok(s, len(o) == 1, 'one outcome')
        for s, oc in o:
            if not self.ok(s, oc[0] == 'ret', 'no exception'):
                continue
            p = ex.norm(ex.int2p(oc[1]))
            if not self.ok(s, len(s.g['blocks']) == 1 and p.base is s.g['blocks'][0][0], 'the frame is in the one block asked for'):
                continue
            blk, req = s.g['blocks'][0]
            po = bv(p.off, 64)
            self.ok(s, simp(z3.And(z3.ULE(bv(self.n, 64), bv(req, 64)), z3.ULE(po, bv(req, 64) - bv(self.n, 64)))), 'the block holds the whole frame')
            self.ok(s, simp(z3.URem(blk.addr + po, z3.BitVecVal(16, 64)) == 0), 'the frame is aligned')
            self.clear(s, po, 'creating')
            base = self.copybase(s)
            self.ok(s, (base is not None) == bool(sz), 'a resource with state is kept')
            if base is not None:
                b = bv(base, 64)
                self.ok(s, simp(z3.URem(blk.addr + b, z3.BitVecVal(al, 64)) == 0), 'the kept copy is aligned')
                self.ok(s, simp(z3.And(z3.ULE(z3.BitVecVal(sz, 64), bv(req, 64)), z3.ULE(b, bv(req, 64) - sz))), 'the kept copy is inside the block')
                self.ok(s, simp(z3.Or(z3.ULE(po + self.n, b), z3.ULE(b + sz, po))), 'the kept copy does not overlap the frame')
            # the caller's resource object goes away or lives on
            if self.arg and self.kind in OWNED:
                s, _ = self.c(s, 'drv_rm_' + self.kind, w)
                w = NULL
            s.g['acc'] = ()
            for s2, oc2 in self.outs(s, 'drv_del_' + self.kind, p, self.n):
                self.ok(s2, oc2[0] == 'ret', 'no exception')
                self.clear(s2, po, 'destroying')
                self.done(s2, NULL)

    def copybase(self, s):
        b = None
        for r, off, n in s.g['acc']:
            o = bv(off, 64)
            if b is None or self.ex.pr.query(s.pc, [z3.ULT(o, b)], 5000)[0] == z3.sat:
                b = o
        return b

    def clear(self, s, po, what):
        for r, off, n in s.g['acc']:
            o = bv(off, 64)
            self.ok(s, simp(z3.Or(z3.ULE(po + self.n, o), z3.ULE(o + bv(n, 64), po))), '%s does not touch the frame' % what)


class Coro(Mem):
    """real coroutines: created with the resource, then destroyed in every state they can be in"""
    fn = 'drv_nop'
    covers = ('overload_new_delete',)

    def setup(self, ex, st):
        self.base(ex, st)
        ex.overrides.append((re.compile(r'^std::(__atomic_base<bool>|atomic<bool>)::notify_(one|all)\('), lambda ex, st, a, I: None))
        return []

    def d(self, what):
        return 'drv_%s_%s' % (what, self.kind)

    def make(self, st, what, x):
        s, w = self.resource(st)
        t = self.h(s, 'object', 64)
        self.frames0 = len(s.g['blocks'])
        s, _ = self.c(s, self.d(what), t, x, w)
        self.ok(s, len(s.g['blocks']) == 1, 'exactly one block is asked for')
        if self.kind in OWNED and w is not NULL:
            s, _ = self.c(s, 'drv_rm_' + self.kind, w)   # the caller's object is gone before the frame
        return s, t

    def alive(self, s):
        self.ok(s, all(r not in s.dead for r, n in s.g['blocks']), 'the frame keeps its memory')

    def end(self, s):
        self.done(s, NULL)
        self.all_dead(s)

    def run_observer(self, s, t, drv):
        h = self.cell(s, 'h')
        s, _ = self.c(s, drv, t, h)
        f = self.rd(s, h)
        s, _ = self.c(s, 'drv_resume', f)
        return s, f

    def play(self, st):
        v = fbv(32, 'a')
        # not started
        for what in ('task', 'gen', 'chan', 'cp'):
            s, t = self.make(st.fork(), what, v)
            self.alive(s)
            s, _ = self.c(s, 'drv_%s_dtor' % {'cp': 'task'}.get(what, what), t)
            self.end(s)
        # task run to its end
        s, t = self.make(st.fork(), 'task', v)
        s, f = self.run_observer(s, t, 'drv_observe')
        self.expect(s, [('got', simp(v + 1))], 'the task ran')
        self.alive(s)
        s, _ = self.c(s, 'drv_task_dtor', t)
        s, _ = self.c(s, 'drv_destroy', f)
        self.end(s)
        # generator
        s, t = self.make(st.fork(), 'gen', v)
        s, _ = self.c(s, 'drv_gen_drain', t)
        self.expect(s, [('got', v)], 'the generator ran')
        s, _ = self.c(s, 'drv_gen_dtor', t)
        self.end(s)
        # channel
        s, t = self.make(st.fork(), 'chan', v)
        s, f = self.run_observer(s, t, 'drv_observe_ch')
        self.expect(s, [('got', v)], 'the channel ran')
        s, _ = self.c(s, 'drv_chan_dtor', t)
        s, _ = self.c(s, 'drv_destroy', f)
        self.end(s)
        # eager ones: run to the end at once, or suspended and resumed later
        for gate in (False, True):
            for what, ends in (('job', ('',)), ('async', ('dtor', 'detach')), ('thr', ('dtor', 'detach'))):
                for e in ends:
                    if what == 'job' and self.kind == 'def' and not gate:
                        continue    # clang puts the return object of resourced<job> into the (destroyed) frame: not the code's doing
                    s = st.fork()
                    h = self.cell(s, 'h') if gate else NULL
                    s, t = self.make(s, what, h)
                    if what != 'job':
                        self.alive(s)
                    if gate:
                        self.alive(s)
                        if e == 'detach':
                            s, _ = self.c(s, 'drv_%s_detach' % what, t)
                            self.alive(s)
                        s, _ = self.c(s, 'drv_resume', self.rd(s, h))
                        if e == 'dtor':
                            self.alive(s)
                    elif e == 'detach':
                        s, _ = self.c(s, 'drv_%s_detach' % what, t)
                    if e:
                        s, _ = self.c(s, 'drv_%s_dtor' % what, t)
                    self.end(s)
        # creation fails
        for exhausted in (True, False):
            self.exhausted, self.nothrow = exhausted, exhausted
            s, w = self.resource(st.fork())
            t = self.h(s, 'object', 64)
            if exhausted:
                o = self.outs(s, self.d('task'), t, v, w)
            else:
                o = self.outs(s, self.d('cp'), t, v, w)
            self.ok(s, len(o) == 1, 'one outcome')
            for s2, oc in o:
                self.ok(s2, oc[0] == 'throw' and self.is_exc(s2, oc[1].ptr), 'the exception reaches the creator')
                self.done(s2, w, 0 if exhausted else 1)
                self.all_dead(s2)
            self.exhausted, self.nothrow = False, True


PROPERTY = 'C03'
DRIVER = 'c03.cpp'
TARGETS = []
for k, how in [(k, 'newarg') for k in ('empty', 'triv', 'byte', 'odd', 'al', 'own', 'ownal', 'def', 'big', 'cempty')] + \
        [(k, 'newconst') for k in ('own', 'triv')] + [(k, 'new') for k in ('empty', 'def', 'cempty')]:
    TARGETS.append(type('Direct_%s_%s' % (k, how), (Direct,), dict(name='operator %s/delete of a frame of any size, %s resource' % (how, k), kind=k, how=how)))
for k in ('triv', 'own', 'ownal', 'big', 'empty', 'odd', 'def'):
    TARGETS.append(type('Coro_' + k, (Coro,), dict(name='coroutines with a %s resource' % k, kind=k)))
