from props.common import *


class StackProto:
    """Concurrent protocol of the atomic head: between any two of our steps other threads may push or take, so
    every operation sees an arbitrary current head; a push publishes (release) a chain that we own and that ends
    in exactly the head it replaces; a take acquires everything."""
    shared = True

    def __init__(self, small):
        self.small = small

    def cur(self, ex, st):
        # environment step: arbitrary head, not something we own
        if ex.small:
            t = z3.Int(fresh_name('top'))
            st.assume(z3.Or(t == 0, t == 7, t == 8))
        else:
            t = z3.Int(fresh_name('top'))
        st.assume(t >= 0)
        st.assume(z3.Implies(t != 0, z3.Not(z3.Select(ex.ownarr(st, 'node'), t))))
        return t

    def load(self, ex, st, p, ty, order, I):
        return [(st, P(Elem('node', self.cur(ex, st)), 0))]

    def store(self, ex, st, p, ty, v, order, I):
        ex.fail(st, 'plain overwrite of the shared head loses concurrently pushed nodes', I)
        return []

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op != 'xchg':
            raise E.Unsupported('rmw ' + op)
        v = ex.int2p(v)
        t = self.cur(ex, st)
        ex.prove(st, ex.is_null(st, v), 'take-all leaves an empty stack', I)
        ex.prove(st, order in ACQUIRE, 'take-all acquires what pushers wrote', I)
        log_add(ex, st, 'lin', op=2, val=t)
        st.g['taken'] = t
        return [(st, P(Elem('node', t), 0))]

    def cmpxchg(self, ex, st, p, ty, exp, des, so, fo, weak, I):
        t = self.cur(ex, st)
        cur = P(Elem('node', t), 0)
        eq = ex.ptr_eq(st, cur, exp)
        outs = []
        # failure (spurious or real)
        s2 = st.fork()
        s2.nd += 1
        if not weak:
            s2.assume(bnot(eq))
        outs.append((s2, [cur, False]))
        s3 = st
        s3.assume(eq)
        self.publish(ex, s3, ex.int2p(des), t, so, I)
        outs.append((s3, [cur, True]))
        return outs

    def publish(self, ex, st, des, old, order, I):
        L = st.g.get('chain')
        ex.prove(st, order in RELEASE, 'publication has release ordering', I)
        first, last = st.g['first'], st.g['last']
        if des.base is None:
            ex.prove(st, False, 'published head is the pushed node', I)
            return
        ex.prove(st, simp(zi(des.base.id) == zi(first)), 'published head is the pushed node', I)
        ex.prove(st, simp(z3.Select(ex.arr(st, 'node', 0), zi(last)) == zi(old)),
                 'pushed chain continues with the head it replaces', I)
        if L is not None:
            # inner links intact
            if L.items is not None:
                for k in range(len(L.items) - 1):
                    ex.prove(st, simp(z3.Select(ex.arr(st, 'node', 0), zi(L.items[k])) == L.items[k + 1]),
                             'inner links of the pushed list kept', I)
            else:
                j = fint('j')
                ex.prove(st, z3.Implies(z3.And(0 <= j, j < L.n - 1),
                                        z3.Select(ex.arr(st, 'node', 0), L.nd(j)) == L.nd(j + 1)),
                         'inner links of the pushed list kept', I)
        log_add(ex, st, 'lin', op=1, val=first)
        # ownership of every pushed node is given away
        own = ex.ownarr(st, 'node')
        if L is None:
            ex.setown(st, 'node', first, False)
        elif L.items is not None:
            for x in L.items:
                ex.setown(st, 'node', x, False)
        else:
            x = z3.Int('?x')
            o1 = z3.FreshConst(own.sort(), 'own')
            st.assume(z3.ForAll([x], z3.Select(o1, x) == z3.And(z3.Select(own, x), z3.Not(L.member(x))),
                                patterns=[z3.Select(o1, x)]))
            st.own['node'] = o1


class StackTarget(Target):
    def mk(self, ex, st):
        node_fams(ex)
        S = ex.new_region(st, 'stack', 8, 'param')
        ex.atomic[(S, 0)] = StackProto(ex.small)
        log_init(st, 'lin', 'op', 'val')
        return P(S, 0)

    def lin(self, ex, st, n, msg):
        ex.prove(st, simp(zi(st.g['len:lin']) == n), msg)


class Push(StackTarget):
    name, fn = 'push', 'drv_push'

    def setup(self, ex, st):
        s = self.mk(ex, st)
        n = fresh_elem(ex, st, 'node', 'n')
        st.g['first'] = st.g['last'] = n
        return [s, P(Elem('node', n), 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'push does not throw')
        self.lin(ex, st, 1, 'push takes effect exactly once')


class PushStack(StackTarget):
    name, fn = 'push_stack', 'drv_push_stack'

    def setup(self, ex, st):
        s = self.mk(ex, st)
        if ex.small:
            n = ex.choose('len', [0, 1, 2, 3])
        else:
            n = None
        L = mk_list(ex, st, 'node', 'L', n)
        st.g['chain'] = L
        if ex.small:
            st.g['first'] = L.nd(0)
            st.g['last'] = L.nd(n - 1) if n else 0
        else:
            st.g['first'] = L.nd(0)
            st.g['last'] = L.nd(L.n - 1)
        return [s, P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL]

    def post(self, ex, st, oc):
        L = st.g['chain']
        ex.prove(st, oc[0] == 'ret', 'push_stack does not throw')
        self.lin(ex, st, z3.If(zi(L.n) == 0, 0, 1), 'push_stack takes effect exactly once (not at all for an empty list)')


class Pop(StackTarget):
    name, fn = 'try_pop_all', 'drv_pop'

    def setup(self, ex, st):
        return [self.mk(ex, st)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'try_pop_all does not throw')
        self.lin(ex, st, 1, 'try_pop_all takes effect exactly once')
        if oc[0] == 'ret':
            v = ex.int2p(oc[1])
            i = 0 if v.base is None else v.base.id
            ex.prove(st, simp(zi(i) == zi(st.g.get('taken', -1))), 'try_pop_all returns the head it took')


PROPERTY = 'C09'
DRIVER = 'c09.cpp'
TARGETS = [Push, PushStack, Pop]
