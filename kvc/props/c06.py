from props.common import *
import re

S = z3.Select


class Runner(Target):
    """The queue delivers the sequence S[0..n) in batches (task_queue::pop_all_not_empty, contract C05): a batch ends
    at j iff end(j).  S[D] is the first stop marker (null task); the batch containing it is the last one.
    R(j) = number of tasks (non markers) among S[0..j), T(k) = position of the k-th task."""
    small_unroll = 4

    def seq(self, ex, st, n=None, D=None, pills=(), ends=()):
        node_fams(ex)
        L = mk_list(ex, st, 'node', 'S', n, link=None)
        st.g['L'] = L
        if ex.small:
            for k, x in enumerate(L.items):
                ex.elem_set(st, 'node', x, 8, NULL if k in pills else P(Elem('coro', new_id()), 0))
                ex.elem_set(st, 'node', x, 0, NULL if k in ends or k == n - 1 else P(Elem('node', L.items[k + 1]), 0))
                ex.elem_set(st, 'node', x, 16, 0)
        st.g['cnt'] = 0       # resumed so far
        ex.extra_cands = self.cands
        self.task = ex.arr(st, 'node', 8)
        if not ex.small:
            self.R = z3.Function(fresh_name('R'), IntS, IntS)
            self.T = z3.Function(fresh_name('T'), IntS, IntS)
            R, T = self.R, self.T
            j = z3.Int('?j')
            isT = lambda j: S(self.task, L.nd(j)) != 0
            st.assume(R(0) == 0)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.n), z3.And(
                R(j + 1) == R(j) + z3.If(isT(j), 1, 0), z3.Implies(isT(j), T(R(j)) == j), S(self.task, L.nd(j)) >= 0)), patterns=[S(self.task, L.nd(j))]))
        else:
            self.order = [k for k in range(n) if k not in pills]

        def res(ex, st, cof, args, I):
            ex.prove(st, cof.which == 'resume', 'the task is resumed, not destroyed', I)
            k = st.g['cnt']
            if ex.small:
                if not ex.prove(st, k < len(self.order), 'every task resumed at most once', I):
                    return []
                p = self.order[k]
                x = L.items[p]
            else:
                p = T(zi(k))
                x = L.nd(p)
                ex.prove(st, z3.And(0 <= p, p < zi(L.n), R(p) == zi(k)), 'every task resumed at most once', I)
            ex.prove(st, simp(zi(cof.id) == S(self.task, zi(x))), 'the task resumed is the next one in queue order', I)
            ex.prove(st, simp(S(ex.ownarr(st, 'node'), zi(x))), 'a task is resumed after it was taken from the queue', I)
            self.on_task(ex, st, p, S(ex.arr(st, 'node', 16), zi(x)), I)
            ex.setown(st, 'node', x, False)
            st.g['cnt'] = k + 1 if ex.small else simp(zi(k) + 1)
            return [(st, ('ret', None))]
        ex.on_resume = res
        return L

    def cands(self, ex, Lp, st0, env0, init, kinds, bsnap):
        """after `it` iterations from a node S[p], everything before S[p+it] is done"""
        import loops
        L = st0.g['L']
        out = []
        A = lambda name, f, q=None, pat=None: out.append(loops.Cand(name, f, q, pat))
        cnt = lambda v: zi(v[('g', 'cnt')])
        R = self.R
        for k, kd in kinds.items():
            if not kd or kd[0] != 'elem' or kd[1] != 'node':
                continue
            v0 = init[k]
            if v0 is UNDEF or not isinstance(v0, P):
                continue
            v0 = ex.norm(v0)
            i0 = zi(0) if v0.base is None else zi(v0.base.id)
            V = lambda v, k=k: zi(ex.as_id(st0, v[k], 'node', 0))
            p0 = z3.If(i0 == 0, zi(L.n), L.pos(i0))
            A('%s==S[pos0+it]' % (k,), lambda v, it, ib, V=V, p0=p0: V(v) == L.nd(p0 + it))
            A('cnt==R[pos0+it] by %s' % (k,), lambda v, it, ib, p0=p0: cnt(v) == R(p0 + it))
            A('pos0+it<=n by %s' % (k,), lambda v, it, ib, p0=p0: p0 + it <= zi(L.n))
            if ('own', 'node') in kinds:
                o0 = init[('own', 'node')]
                A('rest owned by %s' % (k,), lambda v, it, ib, x, p0=p0, o0=o0: z3.Implies(
                    z3.And(p0 + it <= x, x < zi(L.n)), S(v[('own', 'node')], L.nd(x)) == S(o0, L.nd(x))), 'int', lambda v, x: L.nd(x))
            self.more(ex, A, L, V, k, init, kinds, cnt)
        if ('own', 'node') in kinds:
            o0 = init[('own', 'node')]
            A('tasks not reached yet stay owned', lambda v, it, ib, x, o0=o0: z3.Implies(
                z3.And(cnt(v) <= x, x < zi(L.n)), S(v[('own', 'node')], L.nd(x)) == S(o0, L.nd(x))), 'int', lambda v, x: L.nd(x))
        self.more0(ex, A, L, init, kinds, cnt)
        return out

    def more(self, *a):
        pass

    def more0(self, *a):
        pass

    def on_task(self, ex, st, p, status, I):
        pass

    def finished(self, ex, st, oc):
        L = st.g['L']
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        if ex.small:
            ex.prove(st, st.g['cnt'] == len(self.order), 'every task resumed')
        else:
            ex.prove(st, zi(st.g['cnt']) == self.R(L.n), 'every task resumed')


class Cancel(Runner):
    name, fn = 'cancel_tasks', 'drv_cancel'

    def setup(self, ex, st):
        if ex.small:
            n = ex.choose('n', [0, 1, 2, 3])
            pill = ex.choose('pill', [-1, 0, 1])
            if pill >= n:
                return None
            L = self.seq(ex, st, n, pills=(pill,))
        else:
            L = self.seq(ex, st)
            x = z3.Int('?x')
            a = ex.arr(st, 'node', 0)
            j = z3.Int('?j')
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.n), S(a, L.nd(j)) == L.nd(j + 1)), patterns=[S(a, L.nd(j))]))
        return [P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL]

    def on_task(self, ex, st, p, status, I):
        ex.prove(st, simp(status == 1), 'cancelled tasks see status cancelled', I)

    def post(self, ex, st, oc):
        self.finished(ex, st, oc)


class Worker(Runner):
    name, fn = 'default_worker_job', 'drv_worker_job'

    def setup(self, ex, st):
        if ex.small:
            n = ex.choose('n', [1, 2, 3, 4])
            D = ex.choose('D', list(range(4)))
            end = ex.choose('end', [-1, 0, 1, 2])
            pill2 = ex.choose('pill2', [-1, n - 1])
            if D >= n or end >= D and end != -1 or (pill2 != -1 and pill2 <= D):
                return None
            L = self.seq(ex, st, n, pills=(D, pill2), ends=(end,))
            self.ends = sorted({end, n - 1} - {-1})
            self.D = D
            for x in L.items:
                ex.setown(st, 'node', x, False)
        else:
            L = self.seq(ex, st)
            D = z3.Int(fresh_name('D'))
            self.D = D
            endf = z3.Function(fresh_name('end'), IntS, BoolS)
            self.end = endf
            nxe = z3.Function(fresh_name('nxend'), IntS, IntS)      # end of the batch that starts here
            self.nxe = nxe
            j = z3.Int('?j')
            a = ex.arr(st, 'node', 0)
            st.assume(0 <= D, D < L.n)
            s0 = ex.arr(st, 'node', 16)
            def ax(body, *pats):
                st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.n), body), patterns=list(pats)))
            ax(z3.And(S(a, L.nd(j)) == z3.If(endf(j), 0, L.nd(j + 1)), z3.Implies(j >= D, endf(j) == (j == L.n - 1))), S(a, L.nd(j)))
            ax(z3.Implies(j >= D, endf(j) == (j == L.n - 1)), endf(j))
            ax(z3.And(z3.Implies(j < D, S(self.task, L.nd(j)) != 0), z3.Implies(j == D, S(self.task, L.nd(j)) == 0),
                      z3.Implies(j <= D, self.R(j) == j)), S(self.task, L.nd(j)))     # R(j)=j: induction, no marker before D
            ax(S(s0, L.nd(j)) == 0, S(s0, L.nd(j)))
            # nothing popped yet
            own = ex.ownarr(st, 'node')
            o1 = z3.FreshConst(own.sort(), 'own')
            x = z3.Int('?x')
            st.assume(z3.ForAll([x], S(o1, x) == z3.And(S(own, x), z3.Not(L.member(x))), patterns=[S(o1, x)]))
            st.own['node'] = o1
        st.g['popped'] = 0          # how many of S have been taken from the queue
        q = ex.new_region(st, 'queue', lay(ex, 'dd::task_queue')[0], 'param')
        st.g['q'] = q

        def pop(ex, st, a, I):
            p = ex.int2p(a[0])
            ex.prove(st, isinstance(p.base, Region) and p.base is q and p.off == 0, 'takes from its own queue', I)
            k = st.g['popped']
            if ex.small:
                ex.prove(st, st.g['cnt'] == k, 'every task taken before has been run before more are taken', I)
                e = next(e for e in self.ends if e >= k) if k < L.n else None
                if e is None:
                    ex.fail(st, 'keeps running after the stop marker', I)
                    return []
                for i in range(k, e + 1):
                    ex.setown(st, 'node', L.items[i], True)
                st.g['popped'] = e + 1
                return P(Elem('node', L.items[k]), 0)
            k = zi(k)
            ex.prove(st, zi(st.g['cnt']) == k, 'every task taken before has been run before more are taken', I)
            ex.prove(st, k <= self.D, 'stops at the stop marker', I)
            e = fint('e')
            j = z3.Int('?j')
            x = z3.Int('?x')
            st.assume(e > k, e <= L.n, self.end(e - 1),
                      z3.ForAll([j], z3.Implies(z3.And(k <= j, j < e - 1), z3.Not(self.end(j))), patterns=[self.end(j)]))
            own = ex.ownarr(st, 'node')
            o1 = z3.FreshConst(own.sort(), 'own')
            st.assume(z3.ForAll([x], S(o1, x) == z3.Or(S(own, x), z3.And(L.member(x), k <= L.pos(x), L.pos(x) < e)), patterns=[S(o1, x)]))
            st.own['node'] = o1
            st.g['popped'] = e
            return P(Elem('node', L.nd(k)), 0)
        ex.overrides.append((re.compile(r'^dd::task_queue::pop_all_not_empty\(\)$'), pop))
        if not ex.small:
            ex.overrides.append((re.compile(r'^dd::noexport::cancel_tasks\(dd::task_node\*\)$'), self.cancel))
        return [P(q, 0)]

    def cancel(self, ex, st, a, I):
        """the contract proved for cancel_tasks (target Cancel): the rest of the list is resumed in order as cancelled"""
        L = st.g['L']
        p = ex.norm(ex.int2p(a[0]))
        x = zi(0) if p.base is None else zi(ex.as_id(st, p, 'node', 0))
        k = L.pos(x)
        j = fint('j')
        own, nxt, s0 = ex.ownarr(st, 'node'), ex.arr(st, 'node', 0), ex.arr(st, 'node', 16)
        ex.prove(st, z3.Implies(x != 0, z3.And(L.member(x), zi(st.g['cnt']) == self.R(k))), 'the list cancelled starts with the next task', I)
        ex.prove(st, z3.Implies(x != 0, k >= self.D), 'status ok before the stop marker, cancelled behind it', I)
        rng = z3.And(x != 0, k <= j, j < zi(L.n))
        ex.prove(st, z3.Implies(rng, S(own, L.nd(j))), 'a task is resumed after it was taken from the queue', I)
        ex.prove(st, z3.Implies(rng, S(nxt, L.nd(j)) == L.nd(j + 1)), 'the list cancelled is the rest of the queue', I)
        o1 = z3.FreshConst(own.sort(), 'own')
        s1 = z3.FreshConst(s0.sort(), 'status')
        y = z3.Int('?y')
        done = lambda e: z3.And(x != 0, L.member(e), L.pos(e) >= k)
        st.assume(z3.ForAll([y], S(o1, y) == z3.And(S(own, y), z3.Not(done(y))), patterns=[S(o1, y)]))
        st.assume(z3.ForAll([y], z3.Implies(z3.Not(done(y)), S(s1, y) == S(s0, y)), patterns=[S(s1, y)]))
        st.own['node'] = o1
        st.arrs[('node', 16, '')] = s1
        st.g['cnt'] = simp(z3.If(x == 0, zi(st.g['cnt']), self.R(L.n)))
        return None

    def on_task(self, ex, st, p, status, I):
        if ex.small:
            ex.prove(st, simp(status == (0 if p < self.D else 1)), 'status ok before the stop marker, cancelled behind it', I)
        else:
            ex.prove(st, status == z3.If(p < self.D, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)), 'status ok before the stop marker, cancelled behind it', I)

    def more(self, ex, A, L, V, k, init, kinds, cnt):
        pop = lambda v: zi(v[('g', 'popped')])
        A('%s==next unrun' % (k,), lambda v, it, ib: V(v) == z3.If(cnt(v) == pop(v), 0, L.nd(cnt(v))))
        A('%s==S[cnt]' % (k,), lambda v, it, ib: V(v) == L.nd(cnt(v)))
        p0 = lambda v: L.pos(V(v))

    def more0(self, ex, A, L, init, kinds, cnt):
        pop = lambda v: zi(v[('g', 'popped')])
        A('cnt<=D', lambda v, it, ib: cnt(v) <= self.D)
        A('cnt<popped', lambda v, it, ib: cnt(v) < pop(v))
        A('cnt<=popped', lambda v, it, ib: cnt(v) <= pop(v))
        A('cnt==popped', lambda v, it, ib: cnt(v) == pop(v))
        A('0<=cnt', lambda v, it, ib: cnt(v) >= 0)
        A('popped<=n', lambda v, it, ib: pop(v) <= zi(L.n))
        A('batch end', lambda v, it, ib: z3.Implies(pop(v) > 0, self.end(pop(v) - 1)))
        A('no end inside the batch', lambda v, it, ib, x: z3.Implies(z3.And(cnt(v) <= x, x < pop(v) - 1), z3.Not(self.end(x))), 'int', lambda v, x: self.end(x))
        A('popped or not', lambda v, it, ib, x: z3.Implies(z3.And(cnt(v) <= x, x < zi(L.n)), S(v.get(('own', 'node')), L.nd(x)) == (x < pop(v))), 'int', lambda v, x: L.nd(x))
        st = kinds.get(('arr', ('node', 16, '')))
        if st:
            A('status still ok ahead', lambda v, it, ib, x: z3.Implies(z3.And(cnt(v) <= x, x < zi(L.n)), S(v[('arr', ('node', 16, ''))], L.nd(x)) == 0), 'int', lambda v, x: L.nd(x))

    def post(self, ex, st, oc):
        L = st.g['L']
        self.finished(ex, st, oc)
        ex.prove(st, simp(zi(st.g['popped']) == zi(L.n)), 'everything taken')


PROPERTY = 'C06'
DRIVER = 'c06.cpp'
TRUSTED = ['task.resume() returns normally; it may destroy the node (ownership of the node is given up)',
           'task_queue::pop_all_not_empty by its contract, proved under C05',
           'arithmetic fact used as an axiom: with no marker before D the number of tasks before j is j, for j <= D (induction on j)']
TARGETS = [Cancel, Worker]
