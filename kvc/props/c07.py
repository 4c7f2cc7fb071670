from props.pool import *


def forall_i(ex, st, n, f, msg):
    if ex.small:
        for i in range(n):
            ex.prove(st, simp(f(z3.BitVecVal(i, 64))), msg)
    else:
        i = fbv(64, 'i')
        ex.prove(st, z3.Implies(z3.ULT(i, n), f(i)), msg)


class PoolDtor(Target):
    name, fn = 'thread_pool::~thread_pool', 'drv_pool_dtor'
    small_unroll = 4

    def setup(self, ex, st):
        self.M = mk_pool(ex, st)
        return [P(self.M.pool, 0)]

    def post(self, ex, st, oc):
        M = self.M
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        g = st.g
        forall_i(ex, st, M.n, lambda i: S(g['joined'], i) == z3.If(S(M.ids0, i) != 0, 1, 0), 'every thread still running is joined exactly once')
        forall_i(ex, st, M.n, lambda i: S(g['final'], i), 'the pending tasks of every queue are collected after all threads ended')
        ex.prove(st, simp(zi(g['pend']) == 0), 'what was collected is cancelled')
        ex.prove(st, bnot(zb(tobool(g['pillbusy']))), 'no queue refers to the stop marker after it is gone')
        ex.prove(st, M.Q in st.dead and M.T in st.dead, 'both arrays are given back')


class WaitStop(PoolDtor):
    name, fn = 'thread_pool::wait_stop', 'drv_wait_stop'

    def setup(self, ex, st):
        a = super().setup(ex, st)
        M = self.M
        # precondition: request_stop was called before, not a worker thread
        st.g['pill'] = z3.K(BV64, z3.BoolVal(True))
        s = fbv(64, 'self')
        st.assume(s != 0)
        forall(ex, st, M.n, lambda i: S(M.ids0, i) != s, lambda i: S(M.ids0, i))
        st.g['self'] = s
        return a

    def post(self, ex, st, oc):
        M = self.M
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        g = st.g
        forall_i(ex, st, M.n, lambda i: S(g['joined'], i) == z3.If(S(M.ids0, i) != 0, 1, 0), 'every thread still running is joined exactly once')
        forall_i(ex, st, M.n, lambda i: S(g['final'], i), 'the pending tasks of every queue are collected after all threads ended')
        ex.prove(st, simp(zi(g['pend']) == 0), 'what was collected is cancelled')


class RequestStop(Target):
    name, fn = 'thread_pool::request_stop', 'drv_request_stop'
    small_unroll = 4

    def setup(self, ex, st):
        self.M = mk_pool(ex, st)
        return [P(self.M.pool, 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        forall_i(ex, st, self.M.n, lambda i: S(st.g['pill'], i), 'the stop request reaches every queue')


class PushPill(Target):
    name, fn = 'push_deadpill', 'drv_push_deadpill'

    def setup(self, ex, st):
        self.M = M = PoolModel(ex, st, 1)
        M.keep = True
        q = ex.new_region(st, 'queue', M.QSZ, 'param')
        M.qregion = q
        r = ex.new_region(st, 'ret', 8, 'param')
        return [P(r, 0), P(q, 0)] if len(ex.mod.funcs[self.fn].blocks and ex.mod.funcs[self.fn].params) == 2 else [P(q, 0)]

    def post(self, ex, st, oc):
        from props.c21 import resume
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        if not ex.prove(st, 'frame' in st.g, 'a stop marker was pushed'):
            return
        fr = st.g['frame']
        heap = st.g.get('heap', ())
        # the worker cancels the node behind the marker: the coroutine ends and frees both
        st.lost = frozenset()
        ex.store_raw(st, P(fr, st.g['last'] + 16), 4, 1, None)
        for s2, oc2 in resume(ex, st, fr):
            ex.prove(s2, oc2[0] == 'ret', 'resumption does not throw')
            ex.prove(s2, all(r in s2.dead for r in heap), 'the marker and its frame are released when it is cancelled')


class PoolCtor(Target):
    name, fn = 'thread_pool::thread_pool', 'drv_pool_ctor'
    small_unroll = 4

    def setup(self, ex, st):
        if ex.small:
            n0 = ex.choose('threads', [0, 1, 2, 3])
            n = max(1, n0)
        else:
            n0 = z3.BitVec(fresh_name('n'), 64)
            st.assume(z3.ULT(n0, THR_MAX))
            n = z3.If(z3.ULT(n0, 1), z3.BitVecVal(1, 64), n0)
        self.M = M = PoolModel(ex, st, n)
        M.arrays(ex, st)
        ex.alloc_throws = True
        pool = ex.new_region(st, 'pool', M.PSZ, 'param')
        res = ex.new_region(st, 'resource', 8, 'param')
        job = ex.new_region(st, 'job', 1, 'param')
        st.g['job'] = P(job, 0)
        st.g['started'] = z3.K(BV64, z3.IntVal(0))
        forall(ex, st, n, lambda i: z3.Not(M.stays(i)), M.stays)     # nobody else knows the queues
        M.pool, M.res = pool, res
        st.g['pillq'] = z3.BitVecVal(0, 64)
        st.g['failed'] = False
        return [P(pool, 0), n0, P(job, 0), P(res, 0)]

    def post(self, ex, st, oc):
        M, g = self.M, st.g
        if oc[0] == 'throw':
            ex.prove(st, bool(st.g['failed']), 'throws only if a resource or thread could not be obtained')
            for R, r in g.get('mem', ()):
                ex.prove(st, R in st.dead, 'a failed constructor gives its arrays back')
            forall_i(ex, st, M.n, lambda i: S(g['joined'], i) == S(g['started'], i), 'a failed constructor joins exactly the threads it started')
            ex.prove(st, bnot(zb(tobool(g['pillbusy']))), 'no queue refers to the stop marker after it is gone')
            return
        forall_i(ex, st, M.n, lambda i: S(g['started'], i) == 1, 'one thread started per queue')
        forall_i(ex, st, M.n, lambda i: z3.And(M.tid(st, i) != 0, M.qof(M.tid(st, i)) == i), 'the i-th thread drains the i-th queue')
        if ex.prove(st, M.Q is not None and M.T is not None, 'arrays allocated'):
            for (b, oa, oc_, orr), A in zip(M.arrs, (M.Q, M.T)):
                ex.prove(st, ex.ptr_eq(st, ex.int2p(ex.load_raw(st, P(M.pool, b + oa), 8, None)), P(A, 0)), 'pool holds its arrays')
                ex.prove(st, simp(bv(ex.load_raw(st, P(M.pool, b + oc_), 8, None), 64) == bv(M.n, 64)), 'pool size is max(1, threads)')
                ex.prove(st, ex.ptr_eq(st, ex.int2p(ex.load_raw(st, P(M.pool, b + orr), 8, None)), P(M.res, 0)), 'pool remembers the resource its arrays came from')


class WorkerDtor(Target):
    name, fn = 'worker::~worker', 'drv_worker_dtor'

    def setup(self, ex, st):
        self.M = M = PoolModel(ex, st, 1)
        w = M.worker(ex, st)
        t = fbv(64, 'tid')
        st.assume(M.qof(t) == 0)
        self.t0 = t
        ex.store_raw(st, P(w, M.WT), 8, t, None)
        return [P(w, 0)]

    def post(self, ex, st, oc):
        M, g, z = self.M, st.g, z3.BitVecVal(0, 64)
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        ex.prove(st, simp(S(g['joined'], z) == z3.If(self.t0 != 0, 1, 0)), 'the thread is joined exactly once')
        ex.prove(st, simp(S(g['final'], z)), 'pending tasks collected')
        ex.prove(st, simp(zi(g['pend']) == 0), 'pending tasks cancelled')
        ex.prove(st, bnot(zb(tobool(g['pillbusy']))), 'the queue does not refer to the stop marker after it is gone')


class WorkerCtor(Target):
    name, fn = 'worker::worker', 'drv_worker_ctor'

    def setup(self, ex, st):
        self.M = M = PoolModel(ex, st, 1)
        w = M.worker(ex, st)
        job = ex.new_region(st, 'job', 1, 'param')
        st.g['job'] = P(job, 0)
        st.g['started'] = z3.K(BV64, z3.IntVal(0))
        st.g['failed'] = False
        self.w = w
        return [P(w, 0), P(job, 0)]

    def post(self, ex, st, oc):
        if oc[0] == 'throw':
            ex.prove(st, st.g['failed'], 'throws only if no thread could be started')
            return
        ex.prove(st, simp(S(st.g['started'], z3.BitVecVal(0, 64)) == 1), 'one thread started on its own queue')
        v = bv(ex.load_raw(st, P(self.w, self.M.WT), 8, None), 64)
        ex.prove(st, simp(z3.And(v != 0, self.M.qof(v) == 0)), 'the worker owns the thread')


PROPERTY = 'C07'
DRIVER = 'c07.cpp'
TRUSTED = ['std::thread: construction starts the job on the given queue or throws; join returns after the job ended, and the job ends once a stop marker is in its queue (C05, C06)',
           'task_queue::push/push_list/pop_all and cancel_tasks by their contracts (C05, C06)',
           'tasks resumed with status cancelled do not attach new tasks (documented requirement of the library)',
           ]
TARGETS = [PoolDtor, WaitStop, RequestStop, PushPill, PoolCtor, WorkerDtor, WorkerCtor]
