"""C14 logical_thread: the coroutine and the owner each inform once; the second one destroys the frame."""
from props.common import *
from props.twoparty import *
from props.pool import BV64
from props.c07 import forall_i
import re


class Bound:
    """two_way_bound: set once by each party; whoever finds it set is the second one"""
    shared = True

    def load(self, ex, st, p, ty, order, I):
        return ex.target.read_bound(ex, st, order, I)

    def store(self, ex, st, p, ty, v, order, I):
        ex.fail(st, 'plain overwrite of the shared state', I)
        return []

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op not in ('xchg', 'or'):
            raise E.Unsupported('rmw ' + op)
        tg = ex.target
        v = tobool(v)
        if not ex.prove(st, v is True, 'the shared state is only ever set', I):
            return []
        ex.prove(st, order in ('acq_rel', 'seq_cst'), 'letting go is acquire and release', I)
        ex.prove(st, not st.g['dropped'], 'each party lets go once', I)
        st.g['dropped'] = True
        s2 = st.fork()
        s2.g['other'] = 'gone'
        s2.g['acq'] = True
        st.g['other'] = 'alive'
        st.lost = st.lost | {st.g['frame']}
        if tg.mode == 'coro':
            tg.on_drop(ex, st, I)
            tg.on_drop(ex, s2, I)
        return [(st, 0), (s2, 1)]

    def cmpxchg(self, ex, st, p, ty, exp, des, so, fo, weak, I):
        if weak:
            raise E.Unsupported('weak compare-exchange on the shared state')
        outs = []
        for s, old in self.rmw(ex, st, p, ty, 'xchg', des, so, I):
            outs.append((s, [old, not old]))
        return outs


class StopFlag:
    shared = True

    def load(self, ex, st, p, ty, order, I):
        ex.prove(st, order in ACQUIRE, 'the stop flag is read with acquire', I)
        if st.g['stop']:
            return [(st, 1)]
        if ex.target.mode == 'coro':
            s2 = st.fork()
            s2.g['stop'] = True
            return [(st, 0), (s2, 1)]
        return [(st, 0)]

    def store(self, ex, st, p, ty, v, order, I):
        ex.prove(st, tobool(v) is True, 'a stop request is never taken back', I)
        ex.prove(st, order in RELEASE, 'the stop flag is set with release', I)
        st.g['stop'] = True
        return [(st, None)]

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op not in ('xchg', 'or'):
            raise E.Unsupported('rmw ' + op)
        old = st.g['stop']
        self.store(ex, st, p, ty, v, order, I)
        return [(st, int(old))]


class LTh(Target):
    mode = 'seq'

    def base(self, ex, st):
        node_fams(ex)
        self.mode = 'seq'
        self.off = {}
        ex.overrides.append(bool_wait(r'^std::atomic<bool>::wait\('))
        ex.overrides.append(bool_notify(r'^std::atomic<bool>::notify_(one|all)\('))
        st.g.update(stop=False, dropped=False, notified=False, other=None, acq=False, seen=False, must_stop=False)

    def call(self, ex, st, op, *args):
        return call_drv(ex, st, 'drv_' + op, list(args))

    def start(self, ex, st, gate=True):
        t, h = holder(ex, st, 'thread'), holder(ex, st, 'handle')
        o = ex.new_region(st, 'out', 8, 'param')
        ex.store_raw(st, P(o, 0), 4, 0, None)
        ex.store_raw(st, P(o, 4), 4, 0, None)
        ex.store_raw(st, P(h, 0), 8, NULL, None)
        if not self.off:
            s0 = st.fork()
            s1, _ = one(self.call(ex, s0, 'start', P(t, 0), P(h, 0), P(o, 0)))
            fr = s1.g['heap'][-1]
            with spying(ex) as log:
                s2, _ = one(self.call(ex, s1.fork(), 'request_stop', P(t, 0)))
                stop = {a for b, a, k in log if b is fr}
                del log[:]
                s2, _ = one(self.call(ex, s1.fork(), 'detach', P(t, 0)))
                bound = {a for b, a, k in log if b is fr}
            if len(stop) != 1 or len(bound) != 1 or stop == bound:
                raise E.Unsupported('cannot locate the stop flag and the shared state: %s %s' % (stop, bound))
            self.off = dict(stop=stop.pop(), bound=bound.pop())
        n = len(st.g.get('heap', ()))
        s, _ = one(self.call(ex, st, 'start', P(t, 0), P(h, 0) if gate else NULL, P(o, 0)))
        heap = s.g['heap'][n:]
        ex.prove(s, len(heap) == 1, 'one frame')
        return s, t, h, o, heap[0]

    def arm(self, ex, st, fr, mode):
        self.mode = mode
        st.g['frame'] = fr
        bound, stop = Bound(), StopFlag()

        def any_(ex, st, p, I):
            if self.mode == 'seq' or p.base is not st.g['frame']:
                return None
            return bound if p.off == self.off['bound'] else stop if p.off == self.off['stop'] else None
        ex.atomic_any = any_

        def acc(st, p, size, write, I):
            if self.mode == 'owner' and p.base is st.g['frame'] and not st.g['acq'] and p.base not in st.lost and p.base not in st.dead:
                ex.prove(st, False, 'the owner touches the frame only after it saw that the coroutine finished', I)
            return None
        ex.on_access = acc

    def unseq(self, ex):
        self.mode = 'seq'
        ex.atomic_any = ex.on_access = None

    def read_bound(self, ex, st, order, I):
        if self.mode == 'coro':
            v = fbv(8, 'bound')
            st.assume(z3.ULE(v, 1))
            return [(st, v)]
        outs = []
        if not st.g['seen']:
            outs.append((st.fork(), 0))
        st.g['seen'] = True
        if order in ACQUIRE:
            st.g['acq'] = True
        return outs + [(st, 1)]

    def on_wait(self, ex, st, p, old, order, I):
        if self.mode == 'owner':
            ex.prove(st, p.base is st.g['frame'] and p.off == self.off['bound'] and old is False, 'waits until the coroutine finished', I)
            if st.g['must_stop']:
                ex.prove(st, st.g['stop'], 'stop is requested before waiting for the coroutine', I)
            st.g['seen'] = True
            if order in ACQUIRE:
                st.g['acq'] = True
            return [(st, ('ret', None))]
        v = ex.load_raw(st, p, 1, I)
        if tobool(v) is (not old):
            return [(st, ('ret', None))]
        return self.seq_wait(ex, st, p, I)

    def seq_wait(self, ex, st, p, I):
        """the owner blocks: another thread runs the coroutine to its end meanwhile"""
        run = st.g.get('runs', ())
        for fr in run:
            if p.base is fr:
                st.g['runs'] = tuple(x for x in run if x is not fr)
                st.g['waited'] = st.g.get('waited', ()) + (fr,)
                outs = []
                for s, oc in resume(ex, st, fr):
                    ex.prove(s, oc[0] == 'ret' and fr not in s.dead and tobool(ex.load_raw(s, P(p.base, p.off), 1, I)) is True,
                             'a finished coroutine wakes its owner and keeps its frame', I)
                    outs.append((s, ('ret', None)))
                return outs
        ex.fail(st, 'waits for ever', I)
        return []

    def on_notify(self, ex, st, p, I):
        if self.mode == 'coro' and p.base is st.g['frame'] and p.off == self.off['bound'] and st.g['dropped']:
            st.g['notified'] = True

    def on_drop(self, ex, st, I):
        o = st.g['o']
        ex.prove(st, simp(bv(ex.load_raw(st, P(o, 4), 4, None), 32) == 100), 'the body has been left when the coroutine lets go', I)

    def jn(self, ex, s, t, want, what):
        for f in ('joinable', 'stop_possible'):
            s, r = one(self.call(ex, s, f, P(t, 0)))
            ex.prove(s, simp(zb(tobool(r[1])) == want), what)
        return s


class Finish(LTh):
    name, fn = 'logical_thread completion', 'drv_resume'

    def setup(self, ex, st):
        self.base(ex, st)
        s, t, h, o, fr = self.start(ex, st)
        st.become(s)
        ex.prove(st, ex.load_raw(st, P(o, 0), 4, None) == 10, 'no stop is requested at the beginning')
        st.g.update(t=t, o=o, frame=fr)
        if ex.choose('stop', ['requested before', 'not yet']) == 'requested before':
            s, r = one(self.call(ex, st, 'request_stop', P(t, 0)))
            st.become(s)
            ex.prove(st, tobool(r[1]) is True, 'request_stop on a running thread succeeds')
            st.g['stop'] = st.g['asked'] = True
        self.arm(ex, st, fr, 'coro')
        return [ex.load_raw(st, P(h, 0), 8, None)]

    def post(self, ex, st, oc):
        fr, o, t = st.g['frame'], st.g['o'], st.g['t']
        ex.prove(st, oc[0] == 'ret', 'no throw')
        v = ex.load_raw(st, P(o, 0), 4, None)
        ex.prove(st, simp(bv(v, 32) == 20 + int(st.g['stop'])), 'the coroutine sees the stop request through its token')
        if not ex.prove(st, st.g['dropped'], 'a finished coroutine informs its owner'):
            return
        if st.g['other'] == 'gone':
            ex.prove(st, fr in st.dead, 'a detached coroutine destroys its frame')
            return
        ex.prove(st, st.g['notified'], 'a joining owner is woken')
        ex.prove(st, fr not in st.dead, 'the frame of a joinable thread is kept')
        st.lost = frozenset()
        self.unseq(ex)
        ex.store_raw(st, P(fr, self.off['bound']), 1, 1, None)
        for s, oc2 in self.call(ex, st, 'join', P(t, 0)):
            ex.prove(s, oc2[0] == 'ret' and fr in s.dead, 'join destroys the frame')
            self.jn(ex, s, t, False, 'not joinable after join')


class Owner(LTh):
    op = 'join'

    def setup(self, ex, st):
        self.base(ex, st)
        s, t, h, o, fr = self.start(ex, st)
        st.become(s)
        s, t2, h2, o2, fr2 = self.start(ex, st)
        st.become(s)
        # the coroutine's final state; the owner may look at it only once it saw the end
        (s2, oc), = resume(ex, st, fr)
        st.become(s2)
        st.g.update(t=t, fr=fr, o=o, t2=t2, fr2=fr2, must_stop=self.op in ('dtor', 'assign', 'stop1'))
        self.arm(ex, st, fr, 'owner')
        return [P(t, 0)] + ([P(t2, 0)] if self.op == 'assign' else [])

    def post(self, ex, st, oc):
        fr, t = st.g['fr'], st.g['t']
        ex.prove(st, oc[0] == 'ret', 'no throw')
        if self.op == 'request_stop':
            ex.prove(st, tobool(oc[1]) is True and st.g['stop'], 'the stop is requested')
            ex.prove(st, fr not in st.dead and not st.g['dropped'], 'the frame is kept')
            return
        if self.op == 'detach':
            if ex.prove(st, st.g['dropped'], 'the owner lets go'):
                ex.prove(st, (fr in st.dead) == (st.g['other'] == 'gone'), 'detach destroys the frame exactly if the coroutine has finished')
            st.lost = frozenset()
            self.unseq(ex)
            self.jn(ex, st, t, False, 'not joinable after detach')
            return
        ex.prove(st, st.g['seen'] and st.g['acq'], 'waits until the coroutine has finished')
        if st.g['must_stop']:
            ex.prove(st, st.g['stop'], 'stop is requested')
        ex.prove(st, fr in st.dead and not st.g['dropped'], 'the frame is destroyed by the join')
        self.unseq(ex)
        if self.op == 'assign':
            self.jn(ex, st, t, True, 'the assigned thread is joinable')
            self.jn(ex, st, st.g['t2'], False, 'a moved-from thread is not joinable')
            ex.prove(st, st.g['fr2'] not in st.dead, 'the moved thread lives on')
            s, _ = one(self.call(ex, st, 'detach', P(t, 0)))
            outs = resume(ex, s, st.g['fr2'])
            ex.prove(s, len(outs) == 1 and st.g['fr2'] in outs[0][0].dead, 'the assigned object owns the moved thread')
        elif self.op != 'dtor':
            self.jn(ex, st, t, False, 'not joinable after join')


class Hist(LTh):
    name, fn = 'logical_thread histories', 'drv_empty'
    hists = ('mx', 'sx', 'ax', 'ej', 'md', 'mj', 'fj', 'fd', 'fx', 'df', 'd', 'rj', 'rrx', 'frj', 'mfd', 'sj', 'b')

    def setup(self, ex, st):
        self.base(ex, st)
        self.gate = ex.choose('gate', [True, False])
        e = holder(ex, st, 'e')
        st.g['e'] = e
        return [P(e, 0)]

    def post(self, ex, st, oc):
        e = st.g['e']
        s = self.jn(ex, st, e, False, 'an empty thread is not joinable')
        s, r = one(self.call(ex, s, 'request_stop', P(e, 0)))
        ex.prove(s, tobool(r[1]) is False, 'nothing to stop')
        s, _ = one(self.call(ex, s, 'dtor', P(e, 0)))
        s, t, h, o, fr = self.start(ex, s, self.gate)
        s = self.jn(ex, s, t, True, 'a started thread is joinable')
        for hist in self.hists:
            self.play(ex, s.fork(), t, h, o, fr, hist)

    def play(self, ex, s, t, h, o, fr, hist):
        cur, fin, gone = t, not self.gate, False
        s.g['runs'] = () if fin else (fr,)
        req = False

        def done(s, want):
            ex.prove(s, (fr in s.dead) == want, 'the frame is destroyed exactly when both parties let go')
        for c in hist:
            if c in 'msa':
                t2 = holder(ex, s, 'thread2')
                if c == 'm':
                    s, _ = one(self.call(ex, s, 'move', P(t2, 0), P(cur, 0)))
                else:
                    s, _ = one(self.call(ex, s, 'empty', P(t2, 0)))
                    s, _ = one(self.call(ex, s, 'swap' if c == 's' else 'assign', P(t2, 0), P(cur, 0)))
                s = self.jn(ex, s, t2, True, 'the target of a move owns the thread')
                s = self.jn(ex, s, cur, False, 'a moved-from thread is not joinable')
                s, _ = one(self.call(ex, s, 'dtor', P(cur, 0)))
                done(s, False)
                cur = t2
            elif c == 'e':
                s, _ = one(self.call(ex, s, 'swap', P(cur, 0), P(cur, 0)))
                s = self.jn(ex, s, cur, True, 'self-swap keeps the thread')
            elif c == 'f':
                if fin:
                    continue
                (s, oc), = resume(ex, s, fr)
                fin = True
                s.g['runs'] = ()
                done(s, gone)
            elif c == 'r':
                s, r = one(self.call(ex, s, 'request_stop', P(cur, 0)))
                ex.prove(s, tobool(r[1]) is True, 'request_stop on a joinable thread succeeds')
                req = req or not fin
            elif c == 'd':
                s, _ = one(self.call(ex, s, 'detach', P(cur, 0)))
                s.g['runs'] = ()
                gone = True
                done(s, fin)
            elif c in 'jx':
                s, _ = one(self.call(ex, s, 'join' if c == 'j' else 'dtor', P(cur, 0)))
                req = req or (c == 'x' and not fin)
                gone, fin = True, True
                done(s, True)
            elif c == 'b':
                s, t3, h3, o3, fr3 = self.start(ex, s)
                s.g['runs'] = s.g['runs'] + (fr3,)
                s, _ = one(self.call(ex, s, 'assign', P(t3, 0), P(cur, 0)))
                ex.prove(s, fr3 in s.dead and ex.load_raw(s, P(o3, 0), 4, None) == 21,
                         'move-assigning over a running thread stops and joins it')
                done(s, False)
                cur = t3
        if not gone:
            s, _ = one(self.call(ex, s, 'dtor', P(cur, 0)))
            req = req or not fin
            fin = True
            done(s, True)
        if not fin:
            (s, oc), = resume(ex, s, fr)
            done(s, True)
        ex.prove(s, simp(bv(ex.load_raw(s, P(o, 0), 4, None), 32) == 20 + int(req)), 'the coroutine saw the stop request made before it went on')
        ex.prove(s, all(r in s.dead for r in s.g['heap']), 'every frame is destroyed')


class StopArgs(Target):
    """stop(a...): every request_stop comes before the first join"""

    def setup(self, ex, st):
        ths = [ex.new_region(st, 'th%d' % i, 8, 'param') for i in range(self.n)]
        st.g.update(ths=tuple(ths), rq=(), jd=())

        def rq(ex, st, a, I):
            ex.prove(st, not st.g['jd'], 'stop is requested before the first join', I)
            st.g['rq'] = st.g['rq'] + (ex.int2p(a[0]).base,)

        def jd(ex, st, a, I):
            ex.prove(st, len(st.g['rq']) == self.n, 'every stop is requested before the first join', I)
            st.g['jd'] = st.g['jd'] + (ex.int2p(a[0]).base,)
        ex.overrides.append((re.compile('^ext_th::request_stop'), rq))
        ex.overrides.append((re.compile('^ext_th::join'), jd))
        return [P(t, 0) for t in ths]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        for k in ('rq', 'jd'):
            ex.prove(st, sorted(r.name for r in st.g[k]) == sorted(r.name for r in st.g['ths']), 'each one stopped and joined once')


class StopRange(Target):
    name, fn = 'stop(range)', 'drv_stop_range'
    small_unroll = 4

    def setup(self, ex, st):
        node_fams(ex)
        n = ex.choose('n', [0, 1, 2, 3]) if ex.small else z3.BitVec('n', 64)
        if not ex.small:
            st.assume(z3.ULT(n, 1 << 40))
        r = Region('threads', None, 'param')
        r.stride, r.count, r.efields = 8, n, {}
        st.mem[r] = {}
        st.cow.add(r)
        st.g.update(rq=z3.K(BV64, z3.IntVal(0)), jd=z3.K(BV64, z3.IntVal(0)), njd=0)
        self.n = n

        def idx(ex, st, a, I):
            p = ex.norm(ex.int2p(a[0]))
            if p.base is r and same(p.off, 0):
                return z3.BitVecVal(0, 64)
            if isinstance(p.base, Arr) and p.base.reg is r and same(p.off, 0):
                ex.arr_check(st, p.base, I)
                return bv(p.base.idx, 64)
            raise E.Unsupported('stop of %r' % (p,))

        def rq(ex, st, a, I):
            i = idx(ex, st, a, I)
            ex.prove(st, simp(zi(st.g['njd']) == 0), 'stop is requested before the first join', I)
            st.g['rq'] = z3.Store(st.g['rq'], i, z3.Select(st.g['rq'], i) + 1)

        def jd(ex, st, a, I):
            i = idx(ex, st, a, I)
            forall_i(ex, st, n, lambda k: z3.Select(st.g['rq'], k) == 1, 'every stop is requested before the first join')
            st.g['jd'] = z3.Store(st.g['jd'], i, z3.Select(st.g['jd'], i) + 1)
            st.g['njd'] = simp(zi(st.g['njd']) + 1)
        ex.overrides.append((re.compile('^ext_th::request_stop'), rq))
        ex.overrides.append((re.compile('^ext_th::join'), jd))
        return [P(r, 0), n]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        for k, w in (('rq', 'stopped'), ('jd', 'joined')):
            forall_i(ex, st, self.n, lambda i: z3.Select(st.g[k], i) == 1, 'each element %s once' % w)


PROPERTY = 'C14'
DRIVER = 'c14.cpp'
TARGETS = [Finish, Hist]
for o in ('join', 'detach', 'dtor', 'request_stop', 'assign'):
    n = {'dtor': '~logical_thread', 'assign': 'operator=(logical_thread&&)'}.get(o, o)
    TARGETS.append(type('Own_' + o, (Owner,), dict(name='logical_thread::' + n, fn='drv_' + o, op=o)))
TARGETS.append(type('Own_stop1', (Owner,), dict(name='stop(logical_thread&)', fn='drv_stop1', op='stop1')))
for k in (2, 3):
    TARGETS.append(type('Stop%d_' % k, (StopArgs,), dict(name='stop(%d stopables)' % k, fn='drv_stop%d' % k, n=k)))
TARGETS.append(StopRange)
