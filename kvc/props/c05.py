from props.common import *
import re



class DL:
    """ghost sequence held in the state (so that loops can carry it): n, nd[], pos[]"""

    def __init__(self, st, name):
        g = st.g if isinstance(st, E.St) else None
        self.name = name
        k = 'D:' + name
        self.n, self.nd, self.pos = st.g[k + ':n'], st.g[k + ':nd'], st.g[k + ':pos']


def content_fresh(ex, st, minlen=0):
    """arbitrary well-formed content of the queue, owned while the lock is held"""
    if ex.small:
        n = st.g.get('pick')
        own = ex.ownarr(st, 'node')
        items = [new_id() for _ in range(n)]
        for k, x in enumerate(items):
            ex.elem_set(st, 'node', x, 0, P(Elem('node', items[k + 1] if k + 1 < n else 0), 0))
            ex.setown(st, 'node', x, True)
        nd, pos = z3.K(IntS, z3.IntVal(0)), z3.K(IntS, z3.IntVal(-1))
        for k, x in enumerate(items):
            nd = z3.Store(nd, k, z3.IntVal(x))
            pos = z3.Store(pos, x, z3.IntVal(k))
        st.g['C:n'], st.g['C:nd'], st.g['C:pos'] = z3.IntVal(n), nd, pos
        q = st.g['q']
        f = P(Elem('node', items[0]), 0) if items else NULL
        l = P(Elem('node', items[-1]), 0) if items else P(Elem('node', new_id()), 0)
    else:
        n = fint('Cn')
        nd = z3.FreshConst(z3.ArraySort(IntS, IntS), 'Cnd')
        pos = z3.FreshConst(z3.ArraySort(IntS, IntS), 'Cpos')
        own0 = ex.ownarr(st, 'node')
        nx0 = ex.arr(st, 'node', 0)
        own1 = z3.FreshConst(own0.sort(), 'own')
        nx1 = z3.FreshConst(nx0.sort(), 'next')
        j, x = z3.Int('?j'), z3.Int('?x')
        S = z3.Select
        st.assume(n >= minlen)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(S(nd, j) > 0, S(pos, S(nd, j)) == j,
                                                                           z3.Not(S(own0, S(nd, j))))), patterns=[S(nd, j)]))
        st.assume(S(nd, n) == 0)
        mem = lambda e: z3.And(0 <= S(pos, e), S(pos, e) < n, S(nd, S(pos, e)) == e)
        st.assume(z3.ForAll([x], S(own1, x) == z3.Or(S(own0, x), mem(x)), patterns=[S(own1, x)]))
        st.assume(z3.ForAll([x], S(nx1, x) == z3.If(mem(x), S(nd, S(pos, x) + 1), S(nx0, x)), patterns=[S(nx1, x)]))
        st.own['node'] = own1
        st.arrs[('node', 0, '')] = nx1
        st.g['C:n'], st.g['C:nd'], st.g['C:pos'] = n, nd, pos
        f = P(Elem('node', S(nd, z3.IntVal(0))), 0)
        lv = fint('last')
        st.assume(z3.Implies(n > 0, lv == S(nd, n - 1)), lv >= 0)
        # with an empty queue `last` is unspecified and may dangle
        l = P(Elem('node', lv), 0)
    q = st.g['q']
    st.wcells(q)[ex.qFIRST] = (8, f)
    st.wcells(q)[ex.qLAST] = (8, l)


def cid(ex, st, off):
    v = ex.load_cell(st, st.g['q'], off, 8)
    if v is UNDEF:
        return None
    return zi(ex.as_id(st, v, 'node', 0))


class QTarget(Target):
    """the caller owns the ghost list L (possibly empty); the queue's content is protected by its mutex"""
    pushes = False
    small_unroll = 2

    def base(self, ex, st):
        node_fams(ex)
        Q = 'dd::task_queue'
        ex.qFIRST, ex.qLAST = member(ex, Q, r'^task_node\*$', 0, 'first'), member(ex, Q, r'^task_node\*$', 1, 'last')
        ex.qMTX, ex.qCV = member(ex, Q, r'mutex$'), member(ex, Q, r'condition_variable')
        q = ex.new_region(st, 'queue', lay(ex, Q)[0], 'param')
        st.g['q'] = q
        st.g['held'] = False
        st.g['locks'] = 0
        st.g['notified'] = False
        st.g['tran'] = False     # content went from empty to non-empty
        if ex.small:
            st.g['pick'] = ex.choose('content', [0, 1, 2])
        ex.on_loop = None
        self.q = q

        def acc(st, p, size, write, inst):
            if isinstance(p.base, Region) and p.base is q and p.off in (ex.qFIRST, ex.qLAST):
                ex.prove(st, zb(tobool(st.g['held'])), 'queue fields accessed only under its mutex', inst)
            return None
        ex.on_access = acc
        O = ex.overrides
        O.append((re.compile(r'^pthread_mutex_lock$'), self.lock))
        O.append((re.compile(r'^pthread_mutex_unlock$'), self.unlock))
        O.append((re.compile(r'^std::condition_variable::notify_(one|all)\(\)'), self.notify))
        O.append((re.compile(r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)$'), self.wait))
        ex.extra_cands = self.cands
        return q

    def ismtx(self, ex, st, p, I):
        p = ex.int2p(p)
        ok = isinstance(p.base, Region) and p.base is st.g['q'] and p.off == ex.qMTX
        return ex.prove(st, ok, "the lock taken is the queue's mutex", I)

    def lock(self, ex, st, a, I):
        if not self.ismtx(ex, st, a[0], I):
            return []
        ex.prove(st, bnot(zb(tobool(st.g['held']))), 'mutex not locked twice', I)
        st.g['held'] = True
        st.g['locks'] = simp(zi(st.g['locks']) + 1)
        content_fresh(ex, st)
        return 0

    def wait(self, ex, st, a, I):
        p = ex.int2p(a[0])
        ex.prove(st, isinstance(p.base, Region) and p.base is st.g['q'] and p.off == ex.qCV, "waits on the queue's condition variable", I)
        lk = ex.int2p(a[1])
        m = ex.load_raw(st, lk, 8, I)
        if m is UNDEF or not self.ismtx(ex, st, m, I):
            return []
        ex.prove(st, zb(tobool(st.g['held'])), 'wait holds the lock', I)
        # a notification is due only after this point: the consumer must have seen an empty queue under this lock
        f = cid(ex, st, ex.qFIRST)
        ex.prove(st, simp(f == 0), 'sleeps only when the queue is empty (a notification was sent only for the transition)', I)
        self.release(ex, st, I, False)
        st.nd += 1
        if ex.small:
            st.g['pick'] = st.g['pick'] + 1 if st.g['pick'] < 2 else 2
        content_fresh(ex, st)
        return None

    def notify(self, ex, st, a, I):
        p = ex.int2p(a[0])
        ex.prove(st, isinstance(p.base, Region) and p.base is st.g['q'] and p.off == ex.qCV, "notifies the queue's condition variable", I)
        st.g['notified'] = True
        return None

    def unlock(self, ex, st, a, I):
        if not self.ismtx(ex, st, a[0], I):
            return []
        ex.prove(st, zb(tobool(st.g['held'])), 'unlocks a mutex it holds', I)
        self.release(ex, st, I)
        st.g['held'] = False
        return 0

    def release(self, ex, st, I, final=True):
        """the mutex invariant must hold again: content is the old content, or old ++ pushed, or empty (all popped)"""
        S = z3.Select
        n, nd, pos = st.g['C:n'], st.g['C:nd'], st.g['C:pos']
        f, l = cid(ex, st, ex.qFIRST), cid(ex, st, ex.qLAST)
        nx, own = ex.arr(st, 'node', 0), ex.ownarr(st, 'node')
        L = st.g.get('L')
        push = L is not None and not st.g.get('pushed')
        if push:
            Ln = zi(L.n)
            Lnd = lambda j: zi(L.nd(j)) if L.items is None else _chain(L, j)
            tot = n + Ln
            at = lambda j: z3.If(j < n, S(nd, j), z3.If(j < tot, Lnd(j - n), z3.IntVal(0)))
            st.g['pushed'] = True
            st.g['tran'] = simp(z3.And(n == 0, Ln > 0))
        else:
            # popped or unchanged
            popped = simp(f == 0)
            tot = z3.If(f == 0, z3.IntVal(0), n)
            at = lambda j: z3.If(z3.And(j < n, f != 0), S(nd, j), z3.IntVal(0))
            if st.g.get('popping') and final:
                st.g['res:n'], st.g['res:nd'], st.g['res:pos'] = n, nd, pos
                st.g['res:pop'] = simp(f == 0)
        ex.prove(st, f == at(z3.IntVal(0)), 'queue head is the oldest node not yet popped', I)
        if l is None:
            ex.prove(st, tot == 0, 'tail pointer set for a non-empty queue', I)
        else:
            ex.prove(st, z3.Implies(tot > 0, l == at(tot - 1)), 'queue tail is the newest node', I)
        if ex.small:
            for j in range(6):
                jj = z3.IntVal(j)
                ex.prove(st, simp(z3.Implies(jj < tot, z3.And(S(nx, at(jj)) == at(jj + 1), S(own, at(jj))))),
                         'queue links: old content followed by the pushed nodes in order, null terminated', I)
        else:
            j = fint('j')
            ex.prove(st, z3.Implies(z3.And(0 <= j, j < tot), z3.And(S(nx, at(j)) == at(j + 1), S(own, at(j)))),
                     'queue links: old content followed by the pushed nodes in order, null terminated', I)
        # what is in the queue belongs to the queue again
        if ex.small:
            o = own
            for j in range(6):
                e = simp(z3.If(z3.IntVal(j) < tot, at(z3.IntVal(j)), z3.IntVal(-5)))
                o = z3.Store(o, zi(e), z3.BoolVal(False))
            st.own['node'] = o
        else:
            x = z3.Int('?x')
            o1 = z3.FreshConst(own.sort(), 'own')
            memC = z3.And(0 <= S(pos, x), S(pos, x) < n, S(nd, S(pos, x)) == x)
            keep = z3.And(S(own, x), z3.Not(z3.And(memC, z3.BoolVal(True) if push else f != 0)))
            if push:
                keep = z3.And(keep, z3.Not(L.member(x)))
            st.assume(z3.ForAll([x], S(o1, x) == keep, patterns=[S(o1, x)]))
            st.own['node'] = o1
        st.wcells(st.g['q'])[ex.qFIRST] = (8, P(Elem('node', fint('stale')), 0))
        st.wcells(st.g['q'])[ex.qLAST] = (8, P(Elem('node', fint('stale')), 0))

    def cands(self, ex, L, st0, env0, init, kinds, bsnap):
        """while the lock is held: the ghost content matches the memory"""
        import loops
        S = z3.Select
        out = []
        if ('g', 'C:n') not in init:
            return out
        q = st0.g['q']
        G = lambda v, k: v[('g', k)]
        cell = lambda v, o: (lambda c: None if c is None or c is UNDEF else zi(ex.as_id(st0, c, 'node', 0)))(v.get(('cell', q, o, 8)))
        if cell(init, ex.qFIRST) is None:
            return out
        nx = lambda v: v.get(('arr', ('node', 0, ''))) if v.get(('arr', ('node', 0, ''))) is not None else ex.arr(st0, 'node', 0)
        ow = lambda v: v.get(('own', 'node')) if v.get(('own', 'node')) is not None else ex.ownarr(st0, 'node')
        n = lambda v: G(v, 'C:n')
        nd = lambda v, j: S(G(v, 'C:nd'), j)
        A = lambda name, f, q=None, pat=None: out.append(loops.Cand(name, f, q, pat))
        A('content length', lambda v, it, ib: n(v) >= 0)
        A('first is the head', lambda v, it, ib: cell(v, ex.qFIRST) == nd(v, z3.IntVal(0)))
        A('content terminated', lambda v, it, ib: nd(v, n(v)) == 0)
        A('last is the tail', lambda v, it, ib: z3.Implies(n(v) > 0, cell(v, ex.qLAST) == nd(v, n(v) - 1)))
        A('content linked and owned', lambda v, it, ib, x: z3.Implies(z3.And(0 <= x, x < n(v)), z3.And(
            nd(v, x) > 0, S(G(v, 'C:pos'), nd(v, x)) == x, S(nx(v), nd(v, x)) == nd(v, x + 1), S(ow(v), nd(v, x)))), 'int',
          lambda v, x: nd(v, x))
        return out

    def common_post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'does not throw')
        ex.prove(st, bnot(zb(tobool(st.g['held']))), 'mutex released on return')


def _chain(L, j):
    e = z3.IntVal(0)
    for k in range(len(L.items) - 1, -1, -1):
        e = z3.If(zi(j) == k, z3.IntVal(L.items[k]), e)
    return e


class Push(QTarget):
    name, fn = 'task_queue::push', 'drv_push'

    def setup(self, ex, st):
        q = self.base(ex, st)
        # one node with arbitrary stale link
        L = mk_list(ex, st, 'node', 'L', 1 if ex.small else z3.IntVal(1), link=None)
        st.g['L'] = L
        x = L.nd(0)
        ex.elem_set(st, 'node', x, 8, P(Elem('coro', new_id() if ex.small else _pos(st)), 0))
        return [P(q, 0), P(Elem('node', x), 0)]

    def post(self, ex, st, oc):
        self.common_post(ex, st, oc)
        ex.prove(st, bool(st.g.get('pushed')), 'the node was pushed')
        ex.prove(st, bimp(st.g['tran'], zb(tobool(st.g['notified']))), 'a consumer blocked on the empty queue is woken')


def _pos(st):
    c = fint('c')
    st.assume(c > 0)
    return c


class Attach(Push):
    name, fn = 'task_queue::attach', 'drv_attach'


class PushList2(QTarget):
    name, fn = 'task_queue::push_list(first,last)', 'drv_push_list2'
    two = True

    def setup(self, ex, st):
        q = self.base(ex, st)
        n = ex.choose('len', ([1, 2, 3] if self.two else [0, 1, 2, 3])) if ex.small else None
        L = mk_list(ex, st, 'node', 'L', n, minlen=1 if self.two else 0)
        st.g['L'] = L
        a = P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL
        if self.two:
            return [P(q, 0), a, P(Elem('node', L.nd(n - 1 if ex.small else L.n - 1)), 0)]
        return [P(q, 0), a]

    def post(self, ex, st, oc):
        L = st.g['L']
        self.common_post(ex, st, oc)
        if not st.g.get('pushed'):
            ex.prove(st, simp(zi(L.n) == 0), 'a non-empty list is pushed')
        else:
            ex.prove(st, bimp(st.g['tran'], zb(tobool(st.g['notified']))), 'a consumer blocked on the empty queue is woken')


class PushList1(PushList2):
    name, fn, two = 'task_queue::push_list(first)', 'drv_push_list1', False


class Pop(QTarget):
    name, fn = 'task_queue::pop_all', 'drv_pop_all'
    blocking = False

    def setup(self, ex, st):
        q = self.base(ex, st)
        st.g['popping'] = True
        return [P(q, 0)]

    def post(self, ex, st, oc):
        self.common_post(ex, st, oc)
        if oc[0] != 'ret':
            return
        S = z3.Select
        if not ex.prove(st, 'res:n' in st.g, 'the queue was locked'):
            return
        n, nd = st.g['res:n'], st.g['res:nd']
        r = oc[1]
        r = zi(ex.as_id(st, r, 'node', 0))
        ex.prove(st, simp(z3.If(n > 0, st.g['res:pop'], True)), 'nothing that was returned stays in the queue')
        ex.prove(st, simp(r == S(nd, z3.IntVal(0))), 'returns everything in the queue, from the oldest node')
        nx, own = ex.arr(st, 'node', 0), ex.ownarr(st, 'node')
        if ex.small:
            for j in range(3):
                ex.prove(st, simp(z3.Implies(j < n, z3.And(S(nx, S(nd, j)) == S(nd, j + 1), S(own, S(nd, j))))),
                         'the list returned is complete, in push order and terminated')
        else:
            j = fint('j')
            ex.prove(st, z3.Implies(z3.And(0 <= j, j < n), z3.And(S(nx, S(nd, j)) == S(nd, j + 1), S(own, S(nd, j)))),
                     'the list returned is complete, in push order and terminated')
        if self.blocking:
            ex.prove(st, simp(n > 0), 'the blocking pop returns a non-empty list')


class PopWait(Pop):
    name, fn, blocking = 'task_queue::pop_all_not_empty', 'drv_pop_wait', True


PROPERTY = 'C05'
DRIVER = 'c05.cpp'
TRUSTED = ['std::mutex: mutual exclusion; while it is held the queue content is arbitrary but well formed (the mutex invariant, re-proved at every unlock)',
           'std::condition_variable::wait returns only after re-acquiring the mutex, possibly spuriously; notify_one wakes one waiter if any']
TARGETS = [Push, Attach, PushList2, PushList1, Pop, PopWait]
