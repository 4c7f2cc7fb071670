"""C17 when_any(tasks): the first success, or the last failure if all fail; the state of a when_any that is gone is never
touched.  A completing child may find at any point that another one has won, so outside of the critical section it
may touch neither the awaiting frames nor (without the lock) the shared state, unless it is the one that wins."""
from props.common import *
from props.scen import *
from props.c16 import orders
import re, itertools


class WY(Scen):
    events = ()
    max_cases = 1000

    def setup(self, ex, st):
        self.base(ex, st)
        n = self.n
        self.res = ex.choose('outcomes', [''.join(x) for x in itertools.product('rt', repeat=n) if ''.join(x).startswith(self.pre)])
        self.order = ex.choose('gated', orders(n))
        ol = [int(c) for c in self.order if c != '-']
        self.mode = ex.choose('mode', ['drop', 'keep'] + (['race-lock', 'race-unlock'] if n > 1 and ol else []) + (['mid'] if n > 1 and 0 in ol else []) +
                              ['abandon%d' % k for k in range(len(ol))])
        st.g.update(vals=tuple(fbv(32, 'v%d' % i) for i in range(n)), excs=tuple(fint('e%d' % i) for i in range(n)),
                    started=(), fin=(), ended=(), raced=False, awaiting=(), running=None, held=None, mine=False, conc=False, parked=())
        st.assume(*[e > 0 for e in st.g['excs']])

        def val(ex, st, a, I):
            i = a[0]
            st.g['ended'] = st.g['ended'] + (i,)
            st.g['running'] = i
            if self.res[i] == 't':
                return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excs'][i]), 0), None)))]
            return st.g['vals'][i]

        def body(ex, st, a, I):
            ex.prove(st, a[0] not in st.g['started'], 'a child is started at most once', I)
            st.g['started'] = st.g['started'] + (a[0],)
            if self.mode == 'mid' and a[0] == 1:
                outs = []
                lost = st.lost
                for s2, oc in self.finish(st, 0):
                    s2.lost = lost
                    outs.append((s2, ('ret', None)))
                return outs

        def parked(ex, st, a, I):
            # from now on this child may complete on another thread, and the when_any may be gone
            st.g['parked'] = st.g['parked'] + (a[0],)
            st.lost = st.lost | set(st.g['awaiting'])

        def log(name, k):
            def h(ex, st, a, I):
                st.g['tr'] = st.g['tr'] + ((name,) + tuple(a[:k]),)
            return h
        o = ex.overrides
        o.append((re.compile(r'^ext_(val|effect)_of$'), val))
        o.append((re.compile(r'^ext_body_of$'), body))
        o.append((re.compile(r'^ext_parked$'), parked))
        for nm, k in (('owner', 2), ('start', 1), ('end', 1), ('res', 3), ('err', 2)):
            o.append((re.compile(r'^ext_%s$' % nm), log(nm, k)))
        o.append((re.compile(r'__is_single_threaded'), lambda ex, st, a, I: False))

        def add_ref(ex, st, a, I):
            """contract of weak_ptr::lock's increment (libstdc++): fails exactly if there is no owner any more"""
            p = ex.norm(ex.int2p(a[0]))
            c = P(p.base, p.off + 8)
            v = ex.coerce(st, ex.load_raw(st, c, 4, I), ('i', 32))
            if not isinstance(v, int):
                raise E.Unsupported('symbolic use count')
            if v:
                ex.store_raw(st, c, 4, v + 1, I)
            return 1 if v else 0
        o.append((re.compile(r'_Sp_counted_base<.*>::_M_add_ref_lock_nothrow\(\)$'), add_ref))
        o.append((re.compile(r'^pthread_mutex_lock$'), self.lock))
        o.append((re.compile(r'^pthread_mutex_unlock$'), self.unlock))
        ex.on_access = self.access
        self.gates = [self.cell(st, 'gate%d' % i) for i in range(3)]
        self.keep = self.cell(st, 'keep')
        return [self.keep if self.mode == 'keep' else NULL] + [self.gates[i] if i in ol else NULL for i in range(n)]

    # ---- the oracle: who wins
    def wins(self, st):
        """does the child that completes now decide the outcome?"""
        f = st.g['fin']
        i = st.g['running']
        if any(self.res[k] == 'r' for k in f if k != i):
            return False
        return self.res[i] == 'r' or len(f) == self.n

    def outcome(self, fin):
        for k in fin:
            if self.res[k] == 'r':
                return k
        return fin[-1] if len(fin) == self.n else None

    def race(self, st):
        """another parked child completes on another thread, entirely, at this point"""
        ks = [int(c) for c in self.order if c != '-']
        ks = [k for k in ks if k in st.g['parked'] and k not in st.g['ended']]
        if not ks or st.g['raced']:
            return [st]
        st.g['raced'] = True
        sv = {k: st.g[k] for k in ('mine', 'running', 'held', 'conc')}
        lost = st.lost
        outs = []
        for s, oc in self.finish(st, ks[0]):
            s.g.update(sv)
            s.lost = lost
            outs.append(s)
        return outs

    def lock(self, ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        if not isinstance(p.base, Region):
            ex.fail(st, 'the mutex locked belongs to a shared state that is still there', I)
            return []
        if not ex.region_ok(st, p.base, p.off, 40, I):
            return []
        ex.prove(st, st.g['held'] is None, 'the mutex is not locked twice', I)
        outs = []
        for s in (self.race(st) if self.mode == 'race-lock' else [st]):
            s.g['held'] = p.base
            s.g['fin'] = s.g['fin'] + (s.g['running'],)
            s.lost = frozenset()
            outs.append((s, ('ret', 0)))
        return outs

    def unlock(self, ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        ex.prove(st, st.g['held'] is p.base, 'unlocks the mutex it holds', I)
        st.g['S'] = p.base
        st.g['held'] = None
        if self.wins(st):
            st.g['mine'] = True
            if self.mode == 'race-unlock':
                return [(s, ('ret', 0)) for s in self.race(st)]
        elif st.g['conc'] or any(k not in st.g['ended'] for k in st.g['parked']):
            st.lost = st.lost | set(st.g['awaiting'])
        return 0

    def access(self, st, p, size, write, I):
        S = st.g.get('S0')
        if S is None or p.base is not S or not st.g['conc'] or st.g['mine'] or st.g['held'] is S:
            return None
        if not isinstance(p.off, int) or p.off < 16:     # vtable and reference counts
            return None
        uses = st.cells(S).get(8)
        if uses is not None and self.ex.coerce(st, uses[1], ('i', 32)) == 0:
            return None
        self.ex.prove(st, False, 'the shared state is accessed under its mutex only', I)
        return None

    def finish(self, st, i):
        """another thread runs child i to its end"""
        h = self.rd(st, self.gates[i])
        sv = (st.g['conc'], st.g['mine'])
        st.g.update(conc=True, mine=False, running=i)
        st.g['S0'] = st.g.get('S')
        st.lost = frozenset(st.g['awaiting'])
        outs = []
        for s, oc in resume(self.ex, st, self.ex.norm(self.ex.int2p(h)).base):
            self.ok(s, oc[0] == 'ret', 'no throw')
            self.ok(s, s.g['held'] is None, 'the mutex is released')
            s.lost = frozenset()
            s.g['conc'], s.g['mine'] = sv
            outs.append((s, oc))
        return outs

    def post(self, ex, st, oc):
        self.oc = oc
        Scen.post(self, ex, st, oc)

    def play(self, st):
        ex, n = self.ex, self.n
        self.ok(st, self.oc[0] == 'ret', 'no throw')
        o = ex.norm(ex.int2p(self.oc[1]))
        self.expect(st, [], 'nothing runs before when_any is awaited')
        self.ok(st, not st.g['started'], 'children are lazy')
        # the awaiting frames: the owner, the when_any (not the children: they are handed to their jobs)
        n0 = len(st.g['heap'])
        kids = set()
        st.g['awaiting'] = (o.base,) + self.mainframe(st, o)
        cur = [s for s, _ in self.outs(st, 'drv_resume', o)]
        order = [int(c) for c in self.order if c != '-']
        if self.mode == 'mid':
            order.remove(0)
        gone = False
        for step in range(len(order) + 1):
            if not self.ok(st, len(cur) == 1, 'no failure on the way'):
                return
            s = cur[0]
            s.lost = frozenset()
            s.g['running'] = None
            win = self.outcome(s.g['fin'])
            got = sum(t[0] == 'gotvoid' for t in s.g['tr'])
            if not gone:
                self.ok(s, got == (win is not None), 'the owner is resumed by the first success or the last failure, at once')
                if win is None:
                    self.ok(s, s.g['started'] == tuple(range(n)), 'without an outcome every child is running')
            else:
                self.ok(s, got == 0, 'nobody resumes an owner that is gone')
            if self.mode == 'abandon%d' % step and win is None:
                s, _ = self.c(s, 'drv_destroy', o)
                gone = True
            if step < len(order):
                k = order[step]
                h = ex.int2p(self.rd(s, self.gates[k]))
                if k in s.g['ended']:
                    cur = [s]
                    continue
                if k not in s.g['started']:
                    self.ok(s, win is not None or gone, 'only a decided when_any leaves children alone')
                    cur = [s]
                    continue
                cur = [x for x, _ in self.finish(s, k)]
        if not gone:
            self.result(s, o)
            if self.mode == 'keep' and self.outcome(s.g['fin']) is not None:
                s, _ = self.c(s, 'drv_resume', self.rd(s, self.keep))
            self.ok(s, ('event', (1 << 32) - 1) in s.g['tr'] or ('event', -1) in s.g['tr'], 'the owner runs on')
            s, _ = self.c(s, 'drv_destroy', o)
        self.all_dead(s)

    def mainframe(self, st, o):
        """the frame of the when_any: allocated just before the owner's"""
        h = st.g['heap']
        return (h[h.index(o.base) - 1],)

    def result(self, s, o):
        ex, n = self.ex, self.n
        win = self.outcome(s.g['fin'])
        tr = s.g['tr']
        names = [t[0] for t in tr]
        if not self.ok(s, names.count('gotvoid') == 1, 'the owner is resumed once'):
            return
        # the value decided by the children that had finished by then
        rest = [t for t in tr[names.index('gotvoid') + 1:] if t[0] in ('event', 'res', 'err')]
        if not self.ok(s, len(rest) >= 2 and rest[0][0] == 'event' and rest[0][1] == win + 1, 'the result names the deciding child'):
            return
        r = rest[1]
        if self.res[win] == 't':
            x = ex.int2p(r[2]) if r[0] == 'err' else None
            self.ok(s, r[0] == 'err' and isinstance(x.base, Elem) and simp(zi(x.base.id) == s.g['excs'][win]),
                    'and its exception')
        else:
            self.ok(s, r[0] == 'res' and r[2] == (2 if self.tys[win] == 'void' else 1) and
                    (self.tys[win] == 'void' or simp(bv(r[3], 32) == s.g['vals'][win])), 'and its value')


def mk(fn, tys, pre=''):
    nm = ('when_any(%s) ' % ','.join(tys)) + ', '.join('child %d %s' % (i, {'r': 'succeeds', 't': 'fails'}[c]) for i, c in enumerate(pre))
    return type('WY_' + fn + pre, (WY,), dict(name=nm.strip(), pre=pre, fn=fn, tys=tys, n=len(tys), no_small=len(tys) > 2))


PROPERTY = 'C17'
DRIVER = 'c17.cpp'
TARGETS = [mk('drv_i', ['int']), mk('drv_v', ['void']), mk('drv_ii', ['int', 'int']), mk('drv_vo', ['void', 'class']),
           ] + [mk('drv_oiv', ['class', 'int', 'void'], p) for p in ('rr', 'rt', 'tr', 'tt')]
TRUSTED = ['weak_ptr::lock increments the use count unless it is zero (libstdc++ _M_add_ref_lock_nothrow)',
           'std::mutex: mutual exclusion']
