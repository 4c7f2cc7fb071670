from props.pool import *
from props.c21 import frames, resume, attach_contract


class Place(PoolModel):
    """queues record what is pushed and where"""

    def push(self, ex, st, a, I):
        i = self.qidx(ex, st, a[0], I)
        if i is None:
            return []
        return self.hand(ex, st, ex.norm(ex.int2p(a[1])), i, I)

    def hand(self, ex, st, n, i, I):
        b = n.base
        if b is None:
            ex.fail(st, 'push of a null node', I)
            return []
        if isinstance(b, Elem) and b.fam == 'node':
            ex.check_perm(st, 'node', b.id, I, 'push')
            ex.prove(st, bnot(ex.is_null(st, ex.elem_get(st, 'node', b.id, 8))), 'the pushed node has a task', I)
            log_add(ex, st, 'push', node=b.id)
            st.g['pushes'] = simp(zi(st.g['pushes']) + 1)
            ex.setown(st, 'node', b.id, False)
            st.g['at'] = i
        elif isinstance(b, Region):
            if not ex.region_ok(st, b, n.off, 24, I):
                return []
            st.g['pushes'] = simp(zi(st.g['pushes']) + 1)
            st.g['at'] = i
            st.g['pushed'] = (b, n.off, ex.load_raw(st, P(b, n.off + 8), 8, I))
            st.lost = st.lost | {b}
        else:
            raise E.Unsupported('push of %r' % (n,))
        return None

    def push_list(self, ex, st, a, I):
        f, l = ex.int2p(a[1]), (ex.int2p(a[2]) if len(a) > 2 else None)
        if l is not None:
            ex.prove(st, ex.ptr_eq(st, f, l), 'a single node is pushed', I)
        n = ex.norm(f)
        nx = ex.int2p(ex.load_raw(st, n, 8, I))
        ex.prove(st, ex.is_null(st, nx), 'the node pushed as a list is terminated', I)
        i = self.qidx(ex, st, a[0], I)
        return [] if i is None else self.hand(ex, st, n, i, I)

    def memres(self, ex, st, a, I):
        r = ex.int2p(a[0])
        if len(a) == 3:
            b = ex.new_region(st, 'frame', a[1], 'heap', 16)
            st.assume(b.addr != 0, (b.addr & 15) == 0)
            st.g['frames'] = st.g.get('frames', ()) + ((b, r, a[1]),)
            return P(b, 0)
        p = ex.int2p(a[1])
        ent = [e for e in st.g.get('frames', ()) if e[0] is p.base]
        if not ex.prove(st, len(ent) == 1 and p.off == 0 and p.base not in st.dead, 'frame given back once', I):
            return []
        ex.prove(st, ex.ptr_eq(st, r, ent[0][1]), 'frame given back to its resource', I)
        ex.prove(st, simp(bv(a[2], 64) == bv(ent[0][2], 64)), 'frame given back with its size', I)
        st.dead = st.dead | {p.base}
        return None

    def cands(self, *a):
        return []


def call1(ex, st, fn, args):
    outs = ex.run_fn(st.fork(), ex.mod.funcs[fn], args)
    assert len(outs) == 1 and outs[0][1][0] == 'ret'
    return outs[0]


class PT(Target):
    small_sizes_ = (1, 2, 3)

    def pool(self, ex, st):
        node_fams(ex)
        if ex.small:
            n = ex.choose('threads', [1, 2, 3])
        else:
            n = fbv(64, 'n')
            st.assume(z3.UGE(n, 1), z3.ULT(n, THR_MAX))
        self.M = M = Place(ex, st, n)
        M.arrays(ex, st)
        M.mk(ex, st, n)
        self.p = pool = M.pool
        self.res = M.res
        st.g['pushes'] = 0
        st.g['at'] = z3.BitVecVal(0, 64)
        log_init(st, 'push', 'node')
        return P(pool, 0)

    def select(self, ex, st, h):
        s2, oc = call1(ex, st, 'drv_select', [P(self.p, 0), h])
        i = self.M.qidx(ex, s2, oc[1], None)
        st.pc += s2.pc[len(st.pc):]
        return i

    def hash_of(self, ex, st, p):
        return call1(ex, st, 'drv_hash', [p])[1][1]

    def at_hash(self, ex, st, h, what):
        ex.prove(st, simp(zi(st.g['pushes']) == 1), 'pushed onto exactly one queue, once')
        ex.prove(st, simp(bv(st.g['at'], 64) == bv(self.select(ex, st, h), 64)), what)


class Select(PT):
    name, fn = 'thread_pool::select_queue', 'drv_select'

    def setup(self, ex, st):
        p = self.pool(ex, st)
        self.h = fbv(64, 'hash')
        return [p, self.h]

    def post(self, ex, st, oc):
        import loops
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        i = self.M.qidx(ex, st, oc[1], None)
        ex.prove(st, z3.ULT(bv(i, 64), bv(self.M.n, 64)), 'the chosen queue is one of the pool')
        ok = {str(self.h)} | ({str(self.M.n)} if is_sym(self.M.n) else set())
        ex.prove(st, loops.vars_of(i) <= ok, 'the choice depends on nothing but the hash and the number of queues')


class Strand(Select):
    name, fn = 'thread_pool::get_strand', 'drv_strand'

    def post(self, ex, st, oc):
        super().post(ex, st, oc)
        ex.prove(st, simp(bv(self.M.qidx(ex, st, oc[1], None), 64) == bv(self.select(ex, st, self.h), 64)), 'a strand uses the queue selected for its hash')


class HashT(PT):
    name, fn = 'calculate_operation_hash(handle)', 'drv_hash_job'

    def setup(self, ex, st):
        self.a = ex.new_region(st, 'frame', 64, 'param')
        return [P(self.a, 0)]

    def post(self, ex, st, oc):
        import loops
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        v = bv(oc[1], 64)
        ex.prove(st, simp(v == bv(self.hash_of(ex, st, P(self.a, 0)), 64)), 'the hash of a coroutine does not depend on the handle type')
        ex.prove(st, loops.vars_of(v) <= {str(self.a.addr)}, 'the hash of a coroutine depends only on which coroutine it is')


class HashR(HashT):
    name, fn = 'calculate_operation_hash(resourced handle)', 'drv_hash_res'


class Attach(PT):
    name, fn = 'thread_pool::attach', 'drv_attach'

    def args(self, ex, st, p):
        self.h = None
        return [p]

    def setup(self, ex, st):
        p = self.pool(ex, st)
        n = fresh_elem(ex, st, 'node', 'n')
        c = fresh_elem(ex, st, 'coro', 'c', owned=False)
        ex.elem_set(st, 'node', n, 8, P(Elem('coro', c), 0))
        self.n, self.c = n, c
        return self.args(ex, st, p) + [P(Elem('node', n), 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        ex.prove(st, simp(zi(log_get(st, 'push', 'node', 0)) == zi(self.n)), 'that node is pushed')
        h = self.h if self.h is not None else self.hash_of(ex, st, P(Elem('coro', self.c), 0))
        self.at_hash(ex, st, h, 'the queue is the one selected for the operation hash')


class StrandAttach(Attach):
    name, fn = 'strand::attach', 'drv_strand_attach'

    def args(self, ex, st, p):
        self.h = fbv(64, 'hash')
        return [p, self.h]


class WorkerAttach(PT):
    name, fn = 'worker::attach', 'drv_worker_attach'

    def setup(self, ex, st):
        node_fams(ex)
        self.M = M = Place(ex, st, 1)
        w = M.worker(ex, st)
        st.g['pushes'] = 0
        st.g['at'] = None
        log_init(st, 'push', 'node')
        self.n = n = fresh_elem(ex, st, 'node', 'n')
        ex.elem_set(st, 'node', n, 8, P(Elem('coro', fresh_elem(ex, st, 'coro', 'c', owned=False)), 0))
        return [P(w, 0), P(Elem('node', n), 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        ex.prove(st, simp(zi(st.g['pushes']) == 1), "pushed once, onto the worker's queue")
        ex.prove(st, simp(zi(log_get(st, 'push', 'node', 0)) == zi(self.n)), 'that node is pushed')


class WorkerStrand(WorkerAttach):
    name, fn = 'strand(worker)::attach', 'drv_worker_strand_attach'


class AttachListPool(PT):
    name, fn = 'attach_list(thread_pool)', 'drv_attach_list'
    small_unroll = 4

    def setup(self, ex, st):
        p = self.pool(ex, st)
        n = ex.choose('len', [0, 1, 2, 3]) if ex.small else None
        self.L = L = mk_list(ex, st, 'node', 'L', n)
        if ex.small:
            for x in L.items:
                ex.elem_set(st, 'node', x, 8, P(Elem('coro', new_id()), 0))
        else:
            x = z3.Int('?x')
            ta = ex.arr(st, 'node', 8)
            st.assume(z3.ForAll([x], z3.Select(ta, x) > 0, patterns=[z3.Select(ta, x)]))
        return [p, P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL]

    def post(self, ex, st, oc):
        L = self.L
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        ex.prove(st, simp(zi(st.g['len:push']) == zi(L.n)), 'as many tasks are pushed as the list has')
        if L.items is not None:
            for j, x in enumerate(L.items):
                ex.prove(st, simp(zi(log_get(st, 'push', 'node', j)) == x), 'each task of the list is pushed exactly once, in order')
        else:
            j = fint('j')
            ex.prove(st, z3.Implies(z3.And(0 <= j, j < L.n), zi(log_get(st, 'push', 'node', j)) == L.nd(j)), 'each task of the list is pushed exactly once, in order')


class JumpPool(PT):
    name, fn = 'jump_on(thread_pool)', 'drv_jump'

    def extra(self):
        self.h = None
        return []

    def setup(self, ex, st):
        p = self.pool(ex, st)
        self.o = ex.new_region(st, 'out', 4, 'param')
        r = ex.new_region(st, 'ret', 8, 'param')
        a = [p, P(self.o, 0)] + self.extra()
        F = ex.mod.funcs[self.fn]
        return ([P(r, 0)] if len(F.blocks and F.params) == len(a) + 1 else []) + a

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        if not ex.prove(st, 'pushed' in st.g, 'the coroutine is pushed'):
            return
        reg, off, task = st.g['pushed']
        fr = frames(ex, st)
        ex.prove(st, len(fr) == 1 and isinstance(task, P) and task.base is fr[0] and task.off == 0, 'the pushed task is the suspended coroutine')
        h = self.h if self.h is not None else self.hash_of(ex, st, P(fr[0], 0))
        self.at_hash(ex, st, h, 'the queue is the one selected for the operation hash')
        st.lost = frozenset()
        s = fbv(32, 'status')
        st.assume(z3.ULT(s, 4))
        ex.store_raw(st, P(reg, off + 16), 4, s, None)
        for s2, oc2 in resume(ex, st, fr[0]):
            ex.prove(s2, oc2[0] == 'ret', 'resumption does not throw')
            v = ex.load_raw(s2, P(self.o, 0), 4, None)
            ex.prove(s2, simp(bv(v, 32) == z3.If(s == 0, s, s + 100)), 'the awaited expression reports the stored status')


class JumpStrand(JumpPool):
    name, fn = 'jump_on(strand)', 'drv_jump_strand'

    def extra(self):
        self.h = fbv(64, 'hash')
        return [self.h]


class Schedule(PT):
    name, fn = 'thread_pool::schedule(f, hash)', 'drv_schedule'
    hashed = True

    def calls(self, ex, st):
        st.g['calls'] = 0

        def ext_call(ex, st, a, I):
            ex.prove(st, ex.ptr_eq(st, a[0], P(self.f, 0)), 'the scheduled callable is invoked', I)
            st.g['calls'] = simp(zi(st.g['calls']) + 1)
            return None
        ex.overrides.append((re.compile(r'^ext_call$'), ext_call))

    def setup(self, ex, st):
        p = self.pool(ex, st)
        self.f = ex.new_region(st, 'callable', 1, 'param')
        self.h = fbv(64, 'hash')
        self.calls(ex, st)
        return [p, P(self.f, 0)] + ([self.h] if self.hashed else [])

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        ex.prove(st, simp(zi(st.g['pushes']) == 1), 'pushed onto exactly one queue, once')
        ex.prove(st, simp(zi(st.g['calls']) == 0), 'not invoked by the scheduling thread')
        if not ex.prove(st, 'pushed' in st.g, 'a task is pushed'):
            return
        reg, off, task = st.g['pushed']
        fl = st.g.get('frames', ())
        if not ex.prove(st, len(fl) == 1 and isinstance(task, P) and task.base is fl[0][0], "the task lives in memory of the pool's resource"):
            return
        ex.prove(st, ex.ptr_eq(st, fl[0][1], P(self.res, 0)), "the task lives in memory of the pool's resource")
        if self.hashed:
            self.at_hash(ex, st, self.h, 'the queue is the one selected for the given hash')
        self.fin(ex, st, reg, off)

    def fin(self, ex, st, reg, off):
        st.lost = frozenset()
        s = fbv(32, 'status')
        st.assume(z3.ULT(s, 4))
        ex.store_raw(st, P(reg, off + 16), 4, s, None)
        for s2, oc2 in resume(ex, st, reg):
            ex.prove(s2, oc2[0] == 'ret', 'resumption does not throw')
            ex.prove(s2, simp(zi(s2.g['calls']) == z3.If(s == 0, 1, 0)), 'the callable runs exactly once, and only if the task was not cancelled')
            ex.prove(s2, reg in s2.dead, 'the memory of the task is released')


class Schedule1(Schedule):
    name, fn, hashed = 'thread_pool::schedule(f)', 'drv_schedule1', False


class ScheduleTo(Schedule):
    name, fn = 'schedule_to', 'drv_schedule_to'

    def setup(self, ex, st):
        node_fams(ex)
        ex.overrides.append(attach_contract())
        self.f = ex.new_region(st, 'callable', 1, 'param')
        self.e = ex.new_region(st, 'exe', 8, 'param')
        self.calls(ex, st)
        return [P(self.e, 0), P(self.f, 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        ex.prove(st, simp(zi(st.g['calls']) == 0), 'not invoked by the scheduling thread')
        evs = [x for x in st.g.get('ev', ()) if x[0] == 'attach']
        if not ex.prove(st, len(evs) == 1, 'attached exactly once'):
            return
        _, exe, reg, off, task = evs[0]
        ex.prove(st, ex.ptr_eq(st, exe, P(self.e, 0)), 'attached to the given executor')
        ex.prove(st, isinstance(task, P) and task.base is reg, 'the attached task is the one holding the node')
        self.fin(ex, st, reg, off)


PROPERTY = 'C08'
DRIVER = 'c08.cpp'
TRUSTED = ['task_queue::push/attach by their contracts (C05)', 'std::pmr::memory_resource: allocate returns fresh memory of the requested size']
TARGETS = [Select, Strand, HashT, HashR, Attach, StrandAttach, WorkerAttach, WorkerStrand, AttachListPool, JumpPool, JumpStrand, Schedule, Schedule1, ScheduleTo]
