"""Concurrent protocol of a shared lock-free stack head (nonowner_lockfree_stack::top): the environment may push and
take at any time; publication needs release, take-all needs acquire; a published node belongs to the taker."""
from props.common import *
from props.c21 import attach_contract, frames, resume


class Head:
    shared = True

    def __init__(self, name='head', acq_push=False, handover=True):
        self.name, self.acq_push, self.handover = name, acq_push, handover

    def cur(self, ex, st):
        t = z3.Int(fresh_name('top'))
        if ex.small:
            st.assume(z3.Or(t == 0, t == 7, t == 8))
        st.assume(t >= 0)
        st.assume(z3.Implies(t != 0, z3.Not(z3.Select(ex.ownarr(st, 'node'), t))))
        return t

    def load(self, ex, st, p, ty, order, I):
        return [(st, P(Elem('node', self.cur(ex, st)), 0))]

    def store(self, ex, st, p, ty, v, order, I):
        ex.fail(st, 'plain overwrite of the shared head loses concurrently added nodes', I)
        return []

    def cmpxchg(self, ex, st, p, ty, exp, des, so, fo, weak, I):
        t = self.cur(ex, st)
        cur = P(Elem('node', t), 0)
        eq = ex.ptr_eq(st, cur, exp)
        s2 = st.fork()
        s2.nd += 1
        if not weak:
            s2.assume(bnot(eq))
        st.assume(eq)
        outs = [(s2, [cur, False])]
        if self.publish(ex, st, ex.norm(ex.int2p(des)), t, so, I):
            outs.append((st, [cur, True]))
        return outs

    def publish(self, ex, st, des, old, order, I):
        if des.base is None:
            ex.fail(st, 'the subscribers are dropped', I)
            return False
        if not isinstance(des.base, Region):
            raise E.Unsupported('publication of %r' % (des,))
        ex.prove(st, order in RELEASE, 'publication has release ordering', I)
        ex.prove(st, ex.ptr_eq(st, ex.load_raw(st, P(des.base, des.off), 8, I), P(Elem('node', old), 0)),
                 'the published node continues with the head it replaces', I)
        task = ex.int2p(ex.load_raw(st, P(des.base, des.off + 8), 8, I))
        st.g['pub'] = st.g.get('pub', ()) + ((self.name, des.base, des.off, task),)
        if self.handover:
            st.lost = st.lost | {des.base}
        self.published(ex, st, I)
        return True

    def published(self, ex, st, I):
        pass

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op != 'xchg':
            raise E.Unsupported('rmw ' + op)
        v = ex.int2p(v)
        ex.prove(st, ex.is_null(st, v), 'take-all leaves nothing behind', I)
        ex.prove(st, order in ACQUIRE, 'take-all acquires what subscribers wrote', I)
        return self.take(ex, st, I)

    def take(self, ex, st, I):
        ex.prove(st, st.g.get('L') is None, 'one take-all', I)
        n = st.g['ln'] if ex.small else None
        L = mk_list(ex, st, 'node', 'L', n)
        st.g['L'] = L
        if ex.small:
            for x in L.items:
                ex.elem_set(st, 'node', x, 8, P(Elem('coro', new_id()), 0))
        else:
            x = z3.Int('?x')
            ta = ex.arr(st, 'node', 8)
            st.assume(z3.ForAll([x], z3.Select(ta, x) > 0, patterns=[z3.Select(ta, x)]))
        return [(st, P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL)]


def all_attached(ex, st, L, exe):
    ex.prove(st, simp(zi(st.g['len:attach']) == zi(L.n)), 'as many handed over as were taken')
    if L.items is not None:
        for j, x in enumerate(L.items):
            ex.prove(st, simp(zi(log_get(st, 'attach', 'node', j)) == x), 'each one handed over once')
            ex.prove(st, simp(zi(log_get(st, 'attach', 'exe', j)) == exe.id), 'on the given executor')
    else:
        j = fint('j')
        rng = z3.And(0 <= j, j < L.n)
        ex.prove(st, z3.Implies(rng, zi(log_get(st, 'attach', 'node', j)) == L.nd(j)), 'each one handed over once')
        ex.prove(st, z3.Implies(rng, zi(log_get(st, 'attach', 'exe', j)) == exe.id), 'on the given executor')


def call_drv(ex, st, fn, args):
    """run a driver that may return a struct through a hidden pointer; args exclude it"""
    F = ex.mod.funcs[fn]
    F.blocks
    if len(F.params) == len(args) + 1:
        args = [P(ex.new_region(st, 'ret', 64, 'param'), 0)] + args
    return ex.run_fn(st, F, args)


def drv_args(ex, st, fn, args):
    F = ex.mod.funcs[fn]
    F.blocks
    if len(F.params) == len(args) + 1:
        return [P(ex.new_region(st, 'ret', 64, 'param'), 0)] + args
    return args
