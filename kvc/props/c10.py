"""C10 latch.  Rely/guarantee protocol: the counter only goes down, a call that must still give up n units keeps it at
n or more; whoever brings it to zero, or has published a waiter and then sees zero, owes one take-all followed by an
attach of every node taken."""
from props.common import *
from props.c21 import attach_contract, frames, resume, exe_id
import re

SEQ = {'acq_rel', 'seq_cst'}


class Counter:
    shared = True

    def env(self, ex, st):
        c = fbv(64, 'c')
        st.assume(z3.And(c <= st.g['c'], c >= st.g['mine'], c >= 0))
        st.g['c'] = c
        return c

    def seen(self, ex, st, c):
        st.g['check'] = simp(z3.And(zb(tobool(st.g['check'])), c == 0))

    def load(self, ex, st, p, ty, order, I):
        c = self.env(ex, st)
        if st.g['published']:
            ex.prove(st, order in ACQUIRE or not st.g['check'] is True, 'the counter is re-read with acquire after the waiter was published', I)
        if order not in ACQUIRE:
            st.g['relaxed_read'] = True
        else:
            st.g['relaxed_read'] = False
        self.seen(ex, st, c)
        st.g['seen0'] = simp(z3.Or(zb(tobool(st.g['seen0'])), c == 0)) if order in ACQUIRE else st.g['seen0']
        return [(st, c)]

    def store(self, ex, st, p, ty, v, order, I):
        ex.fail(st, 'plain overwrite of the shared counter loses concurrent count-downs', I)
        return []

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op not in ('sub', 'add'):
            raise E.Unsupported('rmw ' + op)
        v = bv(v, 64) if op == 'sub' else -bv(v, 64)
        c = self.env(ex, st)
        ex.prove(st, simp(v == st.g['mine']), 'the counter goes down by exactly the requested amount, once', I)
        ex.prove(st, order in SEQ, 'count-down is acquire and release', I)
        n = simp(c - v)
        st.g['mine'] = z3.BitVecVal(0, 64)
        st.g['c'] = n
        st.g['subs'] += 1
        st.g['wake'] = simp(z3.Or(zb(tobool(st.g['wake'])), z3.And(n == 0, v != 0)))
        self.seen(ex, st, n)
        if st.g['published']:
            st.lost = st.lost | {st.g['published'][0]}
        return [(st, c)]

    def cmpxchg(self, ex, st, p, ty, exp, des, so, fo, weak, I):
        c = self.env(ex, st)
        e, d = bv(exp, 64), bv(des, 64)
        s2 = st.fork()
        s2.nd += 1
        if not weak:
            s2.assume(c != e)
        self.seen(ex, s2, c)
        st.assume(c == e)
        st.g['c'] = c
        outs = [(s2, [c, False])]
        for s3, _ in self.rmw_at(ex, st, p, ty, simp(c - d), so, I, c):
            outs.append((s3, [c, True]))
        return outs

    def rmw_at(self, ex, st, p, ty, v, order, I, c):
        env = self.env
        self.env = lambda ex, st: c
        try:
            return self.rmw(ex, st, p, ty, 'sub', v, order, I)
        finally:
            del self.env


class Stack:
    shared = True

    def cur(self, ex, st):
        t = z3.Int(fresh_name('top'))
        if ex.small:
            st.assume(z3.Or(t == 0, t == 7, t == 8))
        st.assume(t >= 0)
        st.assume(z3.Implies(t != 0, z3.Not(z3.Select(ex.ownarr(st, 'node'), t))))
        return t

    def load(self, ex, st, p, ty, order, I):
        return [(st, P(Elem('node', self.cur(ex, st)), 0))]

    def store(self, ex, st, p, ty, v, order, I):
        ex.fail(st, 'plain overwrite of the shared waiter stack loses concurrently added waiters', I)
        return []

    def cmpxchg(self, ex, st, p, ty, exp, des, so, fo, weak, I):
        t = self.cur(ex, st)
        cur = P(Elem('node', t), 0)
        eq = ex.ptr_eq(st, cur, exp)
        s2 = st.fork()
        s2.nd += 1
        if not weak:
            s2.assume(bnot(eq))
        st.assume(eq)
        outs = [(s2, [cur, False])]
        if self.publish(ex, st, ex.norm(ex.int2p(des)), t, so, I):
            outs.append((st, [cur, True]))
        return outs

    def publish(self, ex, st, des, old, order, I):
        if des.base is None:
            ex.fail(st, 'the waiter stack is emptied without waking the waiters', I)
            return False
        if not isinstance(des.base, Region):
            raise E.Unsupported('publication of %r' % (des,))
        ex.prove(st, order in SEQ, 'the waiter is published with acquire and release (pairs with the count-down)', I)
        ex.prove(st, not st.g['published'], 'the waiter is published once', I)
        ex.prove(st, ex.ptr_eq(st, ex.load_raw(st, P(des.base, des.off), 8, I), P(Elem('node', old), 0)),
                 'the published node continues with the head it replaces', I)
        task = ex.int2p(ex.load_raw(st, P(des.base, des.off + 8), 8, I))
        st.g['published'] = (des.base, des.off, task)
        st.g['check'] = True
        if st.g['mine_zero']:
            st.lost = st.lost | {des.base}
        return True

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op != 'xchg':
            raise E.Unsupported('rmw ' + op)
        v = ex.int2p(v)
        ex.prove(st, ex.is_null(st, v), 'take-all leaves an empty stack', I)
        ex.prove(st, order in SEQ, 'take-all is acquire and release', I)
        ex.prove(st, simp(st.g['c'] == 0), 'waiters are released only when the counter is zero', I)
        ex.prove(st, st.g.get('L') is None, 'at most one take-all per call', I)
        n = st.g['ln'] if ex.small else None
        L = mk_list(ex, st, 'node', 'L', n)
        st.g['L'] = L
        if ex.small:
            for x in L.items:
                ex.elem_set(st, 'node', x, 8, P(Elem('coro', new_id()), 0))
        else:
            x = z3.Int('?x')
            ta = ex.arr(st, 'node', 8)
            st.assume(z3.ForAll([x], z3.Select(ta, x) > 0, patterns=[z3.Select(ta, x)]))
        st.g['wake'] = False
        st.g['check'] = False
        return [(st, P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL)]


class LT(Target):
    def latch(self, ex, st, mine=0, count=None):
        node_fams(ex)
        ex.overrides.append(attach_contract())
        R = ex.mod.funcs
        (s2, oc), = ex.run_fn(st, R['drv_size'], [])
        lt = ex.new_region(st, 'latch', oc[1], 'param')
        e = ex.new_region(st, 'exe', 8, 'param')
        n = fbv(64, 'count')
        st.assume(n >= 0)
        outs = ex.run_fn(st, R['drv_ctor'], [P(lt, 0), n, P(e, 0)])
        outs = [o for o in outs if o[1][0] == 'ret']
        assert len(outs) == 1 and outs[0][0] is st
        offs = {}
        for o, (sz, v) in st.cells(lt).items():
            if is_sym(v) and z3.is_bv(v) and v.eq(n):
                offs['c'] = o
            elif isinstance(v, P) and v.base is None or (isinstance(v, int) and v == 0 and sz == 8):
                offs['s'] = o
        for k in list(st.cells(lt)):
            if isinstance(k, tuple) and 's' not in offs:
                offs['s'] = k[1]
        if 'c' not in offs or 's' not in offs:
            raise E.Unsupported('cannot locate the latch state after construction')
        ex.atomic[(lt, offs['c'])] = Counter()
        ex.atomic[(lt, offs['s'])] = Stack()
        st.g.update(e=e, c=fbv(64, 'c0'), mine=bv(mine, 64), wake=False, check=False, published=None, subs=0, seen0=False,
                    mine_zero=isinstance(mine, int) and mine == 0, L=None)
        st.assume(st.g['c'] >= st.g['mine'], st.g['c'] >= 0)
        st.g['ln'] = ex.choose('len', [0, 1, 2, 3]) if ex.small else None
        log_init(st, 'attach', 'exe', 'node')
        return lt

    def woken(self, ex, st):
        """nothing owed, everything taken was attached"""
        ex.prove(st, simp(z3.Not(zb(tobool(st.g['wake'])))), 'whoever brings the counter to zero takes all waiters')
        ex.prove(st, simp(z3.Not(zb(tobool(st.g['check'])))), 'a waiter that was published too late for the last count-down is taken by its own call')
        L = st.g['L']
        if L is None:
            ex.prove(st, simp(zi(st.g['len:attach']) == 0), 'nothing attached without a take-all')
            return
        ex.prove(st, simp(zi(st.g['len:attach']) == zi(L.n)), 'as many waiters attached as were taken')
        if L.items is not None:
            for j, x in enumerate(L.items):
                ex.prove(st, simp(zi(log_get(st, 'attach', 'node', j)) == x), 'every taken waiter attached once')
                ex.prove(st, simp(zi(log_get(st, 'attach', 'exe', j)) == st.g['e'].id), "on the latch's executor")
        else:
            j = fint('j')
            rng = z3.And(0 <= j, j < L.n)
            ex.prove(st, z3.Implies(rng, zi(log_get(st, 'attach', 'node', j)) == L.nd(j)), 'every taken waiter attached once')
            ex.prove(st, z3.Implies(rng, zi(log_get(st, 'attach', 'exe', j)) == st.g['e'].id), "on the latch's executor")


class Ctor(LT):
    name, fn = 'latch::latch', 'drv_ctor'

    def setup(self, ex, st):
        node_fams(ex)
        (s2, oc), = ex.run_fn(st, ex.mod.funcs['drv_size'], [])
        self_ = ex.new_region(st, 'latch', oc[1], 'param')
        e = ex.new_region(st, 'exe', 8, 'param')
        n = fbv(64, 'count')
        st.assume(n >= 0)
        st.g.update(lt=self_, n=n, e=e)
        return [P(self_, 0), n, P(e, 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        for s2, o2 in ex.run_fn(st, ex.mod.funcs['drv_ready'], [P(st.g['lt'], 0)]):
            ex.prove(s2, simp(zb(tobool(o2[1])) == (st.g['n'] == 0)), 'a new latch is ready exactly if its count is zero')


class Exe(LT):
    name, fn = 'get_executor', 'drv_exe'

    def setup(self, ex, st):
        lt = self.latch(ex, st)
        n = fresh_elem(ex, st, 'node', 'n')
        ex.elem_set(st, 'node', n, 8, P(Elem('coro', new_id()), 0))
        st.g['n'] = n
        return [P(lt, 0), P(Elem('node', n), 0)]

    def post(self, ex, st, oc):
        ex.prove(st, simp(zi(st.g['len:attach']) == 1), 'one attach')
        ex.prove(st, simp(zi(log_get(st, 'attach', 'exe', 0)) == st.g['e'].id), 'the executor given at construction')


class CountDown(LT):
    name, fn = 'count_down', 'drv_count_down'

    def setup(self, ex, st):
        n = fbv(64, 'n')
        st.assume(n >= 0)
        lt = self.latch(ex, st, n)
        return [P(lt, 0), n]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        ex.prove(st, st.g['subs'] == 1, 'the counter is decremented once')
        self.woken(ex, st)


class Ready(LT):
    name, fn = 'ready', 'drv_ready'

    def setup(self, ex, st):
        return [P(self.latch(ex, st), 0)]

    def post(self, ex, st, oc):
        ex.prove(st, simp(zb(tobool(oc[1])) == (st.g['c'] == 0)), 'ready exactly if the counter is zero')
        ex.prove(st, not st.g.get('relaxed_read'), 'ready acquires what was done before the count-downs')
        ex.prove(st, st.g['subs'] == 0 and st.g['L'] is None, 'ready changes nothing')


class Wait(LT):
    name, fn = 'wait', 'drv_wait'
    args = ()

    def mk(self, ex, st):
        return self.latch(ex, st), []

    def setup(self, ex, st):
        lt, a = self.mk(ex, st)
        o = ex.new_region(st, 'out', 4, 'param')
        ex.store_raw(st, P(o, 0), 4, 0, None)
        st.g['o'] = o
        F = ex.mod.funcs[self.fn]
        F.blocks
        r = ex.new_region(st, 'ret', 8, 'param')
        args = [P(lt, 0)] + a + [P(o, 0)]
        return ([P(r, 0)] if len(F.params) == len(args) + 1 else []) + args

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        self.woken(ex, st)
        o = st.g['o']
        v = ex.load_raw(st, P(o, 0), 4, None)
        heap = st.g['heap']
        ex.prove(st, len(heap) == 1, 'one frame')
        fr = heap[0]
        if v == 1:
            ex.prove(st, st.g['published'] is None, 'a waiter that does not suspend is not queued')
            ex.prove(st, simp(zb(tobool(st.g['seen0']))), 'continues without suspending only when the counter is zero')
            ex.prove(st, fr in st.dead, 'frame destroyed at the end')
            return
        if not ex.prove(st, st.g['published'] is not None, 'a suspended waiter is queued'):
            return
        reg, off, task = st.g['published']
        ex.prove(st, reg is fr and task.base is fr, 'the queued node resumes the waiter')
        if v != 0 or not isinstance(v, int):
            raise E.Unsupported('output %r' % (v,))
        st.lost = frozenset()
        for s2, oc2 in resume(ex, st, fr):
            ex.prove(s2, oc2[0] == 'ret' and ex.load_raw(s2, P(o, 0), 4, None) == 1 and fr in s2.dead, 'the waiter continues after its await when resumed')


class Arrive(Wait):
    name, fn = 'arrive_and_wait', 'drv_arrive'

    def mk(self, ex, st):
        if ex.choose('n', ['0', '>0']) == '0':
            return self.latch(ex, st, 0), [0]
        n = fbv(64, 'n')
        st.assume(n > 0)
        return self.latch(ex, st, n), [n]

    def post(self, ex, st, oc):
        ex.prove(st, st.g['subs'] <= 1 and simp(st.g['mine'] == 0) is True, 'the counter is decremented once')
        super().post(ex, st, oc)


PROPERTY = 'C10'
DRIVER = 'c10.cpp'
TARGETS = [Ctor, Exe, CountDown, Ready, Wait, Arrive]
