"""Shared contracts of threads, queues and pool memory for C07 / C08 / C04."""
from props.common import *
import re

S = z3.Select
BV64 = z3.BitVecSort(64)
THR_MAX = 1 << 32


def forall(ex, st, n, f, *pats):
    if ex.small:
        for k in range(n if isinstance(n, int) else 1):
            st.assume(simp(f(z3.BitVecVal(k, 64))))
    else:
        i = z3.BitVec('?i', 64)
        for p in pats:
            st.assume(z3.ForAll([i], f(i), patterns=[p(i)]))


class PoolModel:
    """queues[0..n) and threads[0..n); thread ids are non-zero bit vectors, qof(id) = index of the queue its worker drains"""

    keep = False

    def __init__(self, ex, st, n):
        self.ex = ex
        node_fams(ex)
        self.n = n
        self.QSZ = lay(ex, 'dd::task_queue')[0]
        self.WSZ, self.WQ, self.WT = 8, 0, 0
        if 'dd::worker' in ex.mod.layout:
            self.WSZ = lay(ex, 'dd::worker')[0]
            self.WQ, self.WT = member(ex, 'dd::worker', r'^task_queue$'), member(ex, 'dd::worker', r'^thread$')
        self.qoff = 0
        self.PSZ = lay(ex, 'dd::thread_pool')[0]
        self.arrs = []      # (offset in the pool, struct name)
        for t in ('dd::task_queue', 'std::thread'):
            f = 'noexport::fixed_array<%s>' % t
            self.arrs.append((member(ex, 'dd::thread_pool', '^fixed_array<%s>$' % t), member(ex, f, r'\*$', name='arr'),
                              member(ex, f, r'^unsigned long$', name='n'), member(ex, f, r'^memory_resource\*$', name='resource')))
        self.qof = z3.Function(fresh_name('qof'), BV64, BV64)
        # a worker may have met an earlier stop marker: then the one pushed now stays in its queue
        self.stays = z3.Function(fresh_name('stays'), BV64, BoolS)
        st.g['pillq'] = z3.BitVecVal(0, 64)
        st.g['pill'] = z3.K(BV64, z3.BoolVal(False))
        st.g['joined'] = z3.K(BV64, z3.IntVal(0))
        st.g['final'] = z3.K(BV64, z3.BoolVal(False))    # queues collected after every worker was joined
        st.g['pend'] = 0                                 # what was collected last and not cancelled yet
        st.g['pendq'] = z3.BitVecVal(0, 64)
        st.g['pillbusy'] = False
        self.Q = self.T = None
        self.qregion = None          # single queue (worker)
        ov = ex.overrides
        ex.extra_cands = self.cands
        R = lambda rx, h: ov.append((re.compile(rx), h))
        R(r'^dd::task_queue::push\(dd::task_node\*\)$', self.push)
        R(r'^dd::task_queue::attach\(dd::task_node\*\)$', self.push)
        R(r'^dd::task_queue::push_list\(dd::task_node\*, dd::task_node\*\)$', self.push_list)
        R(r'^dd::task_queue::pop_all\(\)$', self.pop_all)
        R(r'^dd::noexport::cancel_tasks\(dd::task_node\*\)$', self.cancel)
        R(r'^std::thread::join\(\)$', self.join)
        R(r'^std::thread::thread<', self.thread_ctor)
        R(r'^std::condition_variable::~?condition_variable\(\)$', lambda ex, st, a, I: None)
        R(r'^std::pmr::memory_resource::(deallocate|allocate)\(', self.memres)
        R(r'^pthread_self$', self.self_)
        self.ndr = ex.new_region(st, 'new_delete_resource', 8, 'param')
        R(r'^std::pmr::new_delete_resource\(\)$', lambda ex, st, a, I: P(self.ndr, 0))
        R(r'^dd::task_queue::~task_queue\(\)$', self.queue_dtor)
        R(r'^dd::task_queue::task_queue\(\)$', lambda ex, st, a, I: None)

    def arrays(self, ex, st):
        self.Q = Region('queues', None, 'heap')
        self.Q.stride, self.Q.count, self.Q.efields = self.QSZ, self.n, {}
        self.T = Region('threads', None, 'heap')
        self.T.stride, self.T.count, self.T.efields = 8, self.n, {0: ('int', 64)}
        for r in (self.Q, self.T):
            st.mem[r] = {}
            st.cow.add(r)

    def mk(self, ex, st, n):
        self.pool = ex.new_region(st, 'pool', self.PSZ, 'param')
        self.res = ex.new_region(st, 'resource', 8, 'param')
        for (base, a, c, r), arr in zip(self.arrs, (self.Q, self.T)):
            ex.store_raw(st, P(self.pool, base + a), 8, P(arr, 0), None)
            ex.store_raw(st, P(self.pool, base + c), 8, n, None)
            ex.store_raw(st, P(self.pool, base + r), 8, P(self.res, 0), None)

    def worker(self, ex, st):
        w = ex.new_region(st, 'worker', self.WSZ, 'param')
        self.qregion, self.qoff = w, self.WQ
        return w

    def tid(self, st, i):
        return S(self.ex.aarr(st, self.T, 0), bv(i, 64))

    # -- which queue / thread a pointer designates
    def qidx(self, ex, st, p, I):
        p = ex.norm(ex.int2p(p))
        b = p.base
        if self.Q is not None and b is self.Q and same(p.off, 0):
            return z3.BitVecVal(0, 64)
        if isinstance(b, Arr) and b.reg is self.Q and same(p.off, 0):
            ex.arr_check(st, b, I)
            return bv(b.idx, 64)
        if self.qregion is not None and b is self.qregion and p.off == self.qoff:
            return z3.BitVecVal(0, 64)
        ex.fail(st, "not one of the pool's queues", I)
        return None

    def push(self, ex, st, a, I):
        i = self.qidx(ex, st, a[0], I)
        if i is None:
            return []
        n = ex.norm(ex.int2p(a[1]))
        if not isinstance(n.base, Region):
            raise E.Unsupported('push of %r' % (n,))
        if not ex.region_ok(st, n.base, n.off, 24, I):
            return []
        t = ex.load_raw(st, P(n.base, n.off + 8), 8, I)
        ex.prove(st, ex.is_null(st, ex.int2p(t)), 'the node pushed is a stop marker', I)
        ex.prove(st, bnot(zb(tobool(st.g['pillbusy']))), 'a stop marker is in one queue at a time', I)
        st.g['pill'] = z3.Store(st.g['pill'], i, z3.BoolVal(True))
        st.g['pillbusy'] = True
        st.g['pillq'] = i
        return None

    def push_list(self, ex, st, a, I):
        i = self.qidx(ex, st, a[0], I)
        if i is None:
            return []
        f, l = ex.norm(ex.int2p(a[1])), ex.norm(ex.int2p(a[2]))
        if not (isinstance(f.base, Region) and isinstance(l.base, Region)):
            raise E.Unsupported('push_list of %r' % (f,))
        if not ex.region_ok(st, f.base, f.off, 24, I) or not ex.region_ok(st, l.base, l.off, 24, I):
            return []
        ld = lambda p, o: ex.int2p(ex.load_raw(st, P(p.base, p.off + o), 8, I))
        ex.prove(st, ex.is_null(st, ld(f, 8)), 'the first node is a stop marker', I)
        ex.prove(st, ex.ptr_eq(st, ld(f, 0), l), 'the marker is followed by the node that keeps it alive', I)
        ex.prove(st, ex.is_null(st, ld(l, 0)), 'list pushed is terminated', I)
        task = ld(l, 8)
        ok = isinstance(task.base, Region) and task.base is l.base
        ex.prove(st, ok, 'the node behind the marker resumes the coroutine that owns both', I)
        if ok:
            st.lost = st.lost | {l.base}
        if self.keep:
            st.g['frame'] = l.base
            st.g['last'] = l.off
        st.g['pill'] = z3.Store(st.g['pill'], i, z3.BoolVal(True))
        return None

    def pop_all(self, ex, st, a, I):
        i = self.qidx(ex, st, a[0], I)
        if i is None:
            return []
        if self.T is not None:
            ex.prove(st, simp(self.tid(st, i) == 0), 'pending tasks are collected only after the worker of the queue is joined', I)
            if ex.small:
                J = z3.And([self.tid(st, z3.BitVecVal(k, 64)) == 0 for k in range(self.n)])
            else:
                J, k = z3.Bool(fresh_name('alljoined')), fbv(64, 'k')
                st.assume(z3.Or(J, z3.And(z3.ULT(k, bv(self.n, 64)), self.tid(st, k) != 0)))
        elif self.qregion is not None:
            v = ex.load_raw(st, P(self.qregion, self.WT), 8, I)
            ex.prove(st, simp(bv(v, 64) == 0), 'pending tasks are collected only after the worker thread is joined', I)
            J = True
        else:
            raise E.Unsupported('pop_all')
        ex.prove(st, simp(zi(st.g['pend']) == 0), 'what was collected before is cancelled before more is collected', I)
        h = fint('hd')
        st.assume(h >= 0, z3.Implies(z3.And(zb(tobool(st.g['pillbusy'])), st.g['pillq'] == i), h != 0))
        st.g['final'] = z3.Store(st.g['final'], i, zb(J))
        st.g['pend'] = h
        st.g['pendq'] = i
        return P(Elem('node', h), 0)

    def cancel(self, ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        if p.base is None:
            return None
        if not (isinstance(p.base, Elem) and p.base.fam == 'node'):
            raise E.Unsupported('cancel of %r' % (p,))
        x = zi(p.base.id)
        pend = zi(st.g['pend'])
        ex.prove(st, simp(z3.Or(x == 0, x == pend)), 'the tasks cancelled are those collected', I)
        st.g['pillbusy'] = simp(z3.And(zb(tobool(st.g['pillbusy'])), z3.Not(z3.And(x != 0, st.g['pillq'] == st.g['pendq']))))
        st.g['pend'] = simp(z3.If(x == 0, pend, 0))
        return None

    def join(self, ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        v = bv(ex.load(st, p, ('i', 64), I), 64)
        ex.prove(st, simp(v != 0), 'join of a joinable thread', I)
        q = self.qof(v)
        ex.prove(st, simp(S(st.g['pill'], q)), 'join of a thread that was told to stop (otherwise it blocks forever)', I)
        ex.store(st, p, ('i', 64), 0, I)
        st.g['joined'] = z3.Store(st.g['joined'], q, simp(S(st.g['joined'], q) + 1))
        st.g['pillbusy'] = False if st.g['pillbusy'] is False else simp(z3.And(zb(tobool(st.g['pillbusy'])), z3.Or(st.g['pillq'] != q, self.stays(q))))
        return None

    def thread_ctor(self, ex, st, a, I):
        this, jobp, refp = a[0], a[1], a[2]
        j = ex.load_raw(st, jobp, 8, I)
        ex.prove(st, ex.ptr_eq(st, ex.int2p(j), st.g['job']), 'the thread runs the given job', I)
        q = ex.load_raw(st, refp, 8, I)
        i = self.qidx(ex, st, q, I)
        if i is None:
            return []
        s2 = st.fork()
        s2.g['failed'] = True
        tid = fbv(64, 'tid')
        st.assume(tid != 0, self.qof(tid) == i)
        ex.store(st, ex.int2p(this), ('i', 64), tid, I)
        st.g['started'] = z3.Store(st.g['started'], i, S(st.g['started'], i) + 1)
        return [(st, ('ret', None)), (s2, ('throw', E.Exc(P(Elem('exc', fint('syserr')), 0), '_ZTISt12system_error')))]

    def queue_dtor(self, ex, st, a, I):
        """the queues are used by the workers until these are joined"""
        if self.T is not None and self.T not in st.dead and any(e[0] is self.T for e in st.g.get('mem', ())):
            k = fbv(64, 'k')
            ex.prove(st, z3.Implies(z3.ULT(k, bv(self.n, 64)), self.tid(st, k) == 0), 'queues outlive the worker threads', I)
        return None

    def memres(self, ex, st, a, I):
        r = ex.int2p(a[0])
        if len(a) == 3:          # allocate(this, bytes, align)
            if ex.alloc_throws:
                s2 = st.fork()
                s2.g['failed'] = True
            by = bv(a[1], 64)
            k = len(st.g.get('mem', ()))
            size = [self.QSZ, 8][k] if k < 2 else None
            if size is None:
                raise E.Unsupported('third array')
            ok = ex.prove(st, simp(by == bv(self.n, 64) * size), 'array of the right size requested', I)
            ex.prove(st, isinstance(a[2], int) and a[2] == 8, 'array alignment', I)
            R = (self.Q, self.T)[k]
            if k == 1:
                ex.aarr(st, R, 0)
            st.g['mem'] = st.g.get('mem', ()) + ((R, r),)
            outs = [(st, ('ret', P(R, 0)))]
            if ex.alloc_throws:
                outs.append((s2, ('throw', E.Exc(P(Elem('exc', fint('bad_alloc')), 0), '_ZTISt9bad_alloc'))))
            return outs
        p = ex.norm(ex.int2p(a[1]))
        R = p.base.reg if isinstance(p.base, Arr) else p.base
        ent = [e for e in st.g.get('mem', ()) if e[0] is R]
        if not ex.prove(st, len(ent) == 1 and R not in st.dead, 'array given back exactly once', I):
            return []
        ex.prove(st, ex.ptr_eq(st, r, ent[0][1]), 'array given back to the resource it came from', I)
        ex.prove(st, simp(bv(a[2], 64) == bv(self.n, 64) * R.stride), 'array given back with its size', I)
        ex.prove(st, a[3] == 8, 'array given back with its alignment', I)
        st.dead = st.dead | {R}
        return None

    def cands(self, ex, L, st0, env0, init, kinds, bsnap):
        import loops
        out = []
        if self.T is None or (('arr', (self.T, 0, '')) not in init):
            return out
        n = bv(self.n, 64)
        T = lambda v: v[('arr', (self.T, 0, ''))]
        out.append(loops.Cand('every thread drains its own queue', lambda v, it, ib, x: z3.Or(z3.UGE(x, n), S(T(v), x) == 0, self.qof(S(T(v), x)) == x), 'bv',
                              lambda v, x: S(T(v), x)))
        for k, kd in kinds.items():
            if kd and k[0] == 'phi' and kd[0] in ('int', 'bv') and L.fn.vty[k[1]] == ('i', 64):
                out.append(loops.Cand('threads before %s started' % (k,), lambda v, it, ib, x, k=k: z3.Implies(
                    z3.ULT(x, bv(v[k], 64)), S(T(v), x) != 0), 'bv', lambda v, x: S(T(v), x)))
                out.append(loops.Cand('threads from %s not started' % (k,), lambda v, it, ib, x, k=k: z3.Implies(
                    z3.And(z3.UGE(x, bv(v[k], 64)), z3.ULT(x, n)), S(T(v), x) == 0), 'bv', lambda v, x: S(T(v), x)))
        for b in ('started',):
            if 'started' in st0.g:
                out.append(loops.Cand('%s matches' % b, lambda v, it, ib, x, b=b: z3.Implies(z3.ULT(x, n),
                    S(v[('g', 'started')], x) == S(v[('g', 'joined')], x) + z3.If(S(T(v), x) != 0, 1, 0)), 'bv', lambda v, x: S(v[('g', b)], x)))
                out.append(loops.Cand('%s matches*' % b, lambda v, it, ib, x, b=b: z3.Implies(z3.ULT(x, n),
                    S(v[('g', 'started')], x) == S(v[('g', 'joined')], x) + z3.If(S(T(v), x) != 0, 1, 0)), 'bv', lambda v, x: S(v[('g', 'joined')], x)))
        return out

    def self_(self, ex, st, a, I):
        if 'self' not in st.g:
            raise E.Unsupported('pthread_self')
        return st.g['self']


def mk_pool(ex, st, small_n=(1, 2, 3), resource=True):
    """a constructed pool object satisfying the pool invariant"""
    if ex.small:
        n = ex.choose('threads', list(small_n))
    else:
        n = z3.BitVec(fresh_name('n'), 64)
        st.assume(z3.UGE(n, 1), z3.ULT(n, THR_MAX))
    M = PoolModel(ex, st, n)
    M.arrays(ex, st)
    M.mk(ex, st, n)
    st.g['mem'] = ((M.Q, P(M.res, 0)), (M.T, P(M.res, 0)))
    ids = ex.aarr(st, M.T, 0)
    forall(ex, st, n, lambda i: z3.Implies(S(ids, i) != 0, M.qof(S(ids, i)) == i), lambda i: S(ids, i))
    st.g['live'] = z3.FreshConst(z3.ArraySort(BV64, BoolS), 'live')
    live = st.g['live']
    forall(ex, st, n, lambda i: S(live, i) == (S(ids, i) != 0), lambda i: S(ids, i), lambda i: S(live, i))
    M.ids0 = ids
    return M
