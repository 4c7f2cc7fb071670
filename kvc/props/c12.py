"""C12 when_all / when_any of events.  The waiter may be resumed (and destroyed) by another thread from the moment the
last (when_all) / first (when_any) subscription is published; a callback that is not the last may see it vanish right
after its count is added.  All completion orders are explored for the instantiated packs."""
from props.common import *
from props.shared import *
from props.c11 import payload
import re, itertools


class EHead(Head):
    def published(self, ex, st, I):
        n = st.g['npub'] = st.g['npub'] + 1
        if n >= ex.target.lose_at():
            st.lost = st.lost | {st.g['heap'][0]}


class Multi(Target):
    max_cases = 60

    def lose_at(self):
        return len(self.tys) if self.all else 1

    def setup(self, ex, st):
        node_fams(ex)
        evs = []
        for i, t in enumerate(self.tys):
            e = ex.new_region(st, 'event%d' % i, 8, 'param')
            assert len(ex.run_fn(st, ex.mod.funcs['drv_new_' + t], [P(e, 0)])) == 1
            ex.atomic[(e, 0)] = EHead(i)
            evs.append(e)
        o = ex.new_region(st, 'out', 24, 'param')
        for k in range(5):
            ex.store_raw(st, P(o, 4 * k), 4, 0 if k != 4 else 99, None)
        st.g.update(o=o, evs=tuple(evs), npub=0)
        self.order = ex.choose('order', list(itertools.permutations(range(len(self.tys)))))
        ex.overrides.append((re.compile(r'__is_single_threaded'), lambda ex, st, a, I: False))
        return drv_args(ex, st, self.fn, [P(e, 0) for e in evs] + [P(o, 0)])

    def post(self, ex, st, oc):
        N = len(self.tys)
        ex.prove(st, oc[0] == 'ret', 'no throw')
        pub = st.g.get('pub', ())
        if not ex.prove(st, sorted(p[0] for p in pub) == list(range(N)), 'one subscription per event'):
            return
        o = st.g['o']
        ex.prove(st, ex.load_raw(st, P(o, 12), 4, None) == 0, 'the waiter is suspended')
        main = st.g['heap'][0]
        vals = [fbv(32, 'v%d' % i) for i in range(N)]
        cur = [st]
        offs = {t: payload(ex, t) for t in self.tys if t != 'void'}
        for step, k in enumerate(self.order):
            _, reg, off, task = [p for p in pub if p[0] == k][0]
            last = step == N - 1

            def after(ex, st, p, op, old, order, I):
                if self.all:
                    ex.prove(st, order in ('acq_rel', 'seq_cst'), 'the count is acquire and release', I)
                    if not last:
                        st.lost = st.lost | {main}
            ex.after_rmw = after
            nxt = []
            for s in cur:
                s.lost = frozenset()
                ex.prove(s, task.base is reg, 'the queued node resumes the callback')
                if self.tys[k] != 'void':
                    ex.store_raw(s, P(reg, off + offs[self.tys[k]]), 4, vals[k], None)
                for s2, oc2 in resume(ex, s, reg):
                    if not ex.feasible(s2):
                        continue
                    ex.prove(s2, oc2[0] == 'ret', 'no throw')
                    s2.lost = frozenset()
                    ex.prove(s2, reg in s2.dead, 'the callback is gone after it ran')
                    self.after_event(ex, s2, step, k, vals, main)
                    nxt.append(s2)
            cur = nxt
            ex.prove(st, len(cur) > 0, 'the callback returns')
        for s in cur:
            ex.prove(s, all(r in s.dead for r in s.g['heap']), 'nothing allocated is leaked')

    def after_event(self, ex, s, step, k, vals, main):
        o = s.g['o']
        cnt = ex.load_raw(s, P(o, 12), 4, None)
        N = len(self.tys)
        ld = lambda i: bv(ex.load_raw(s, P(o, 4 * i), 4, None), 32)
        if self.all:
            ex.prove(s, simp(bv(cnt, 32) == (1 if step == N - 1 else 0)), 'the waiter is resumed once, by the last event')
            if step == N - 1:
                for i, t in enumerate(self.tys):
                    if t != 'void':
                        ex.prove(s, simp(ld(i) == vals[i]), "each event's value in its place")
        else:
            ex.prove(s, simp(bv(cnt, 32) == 1), 'the waiter is resumed once, by the first event')
            f = self.order[0]
            ex.prove(s, simp(ld(4) == f), 'index of the first event')
            if self.tys[f] != 'void':
                ex.prove(s, simp(ld(f) == vals[f]), 'value of the first event')
        if cnt == 1:
            ex.prove(s, main in s.dead, 'waiter ran to its end')


def mk(fn, all, tys):
    nm = '%s(%s)' % ('when_all' if all else 'when_any', ','.join(tys))
    return type('M_' + fn, (Multi,), dict(name=nm, fn=fn, all=all, tys=tys))


PROPERTY = 'C12'
DRIVER = 'c11.cpp'
TARGETS = [mk('drv_all1', True, ['int']), mk('drv_all2', True, ['int', 'void']), mk('drv_all3', True, ['int', 'void', 'mval']),
           mk('drv_all3b', True, ['mval', 'mval', 'mval']), mk('drv_any2', False, ['int', 'void']),
           mk('drv_any3', False, ['int', 'void', 'mval']), mk('drv_any3b', False, ['mval', 'mval', 'mval'])]
