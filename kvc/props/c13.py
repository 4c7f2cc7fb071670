"""C13 async_task: two owners of the frame (the coroutine and its async_task)."""
from props.common import *
from props.twoparty import *
import re


class Ready:
    """only the coroutine sets it, once; never cleared"""
    shared = True

    def load(self, ex, st, p, ty, order, I):
        return ex.target.read_ready(ex, st, order, I)

    def write(self, ex, st, p, v, order, I):
        tg = ex.target
        v = tobool(v)
        if not ex.prove(st, tg.mode == 'coro' and v is True, 'the ready flag is only ever set, by the coroutine', I):
            return
        ex.prove(st, order in RELEASE, 'ready is set with release: it publishes the result', I)
        tg.on_ready(ex, st, I)
        st.g['ready'] = True
        st.g['notified'] = False

    def store(self, ex, st, p, ty, v, order, I):
        self.write(ex, st, p, v, order, I)
        return [(st, None)]

    def rmw(self, ex, st, p, ty, op, v, order, I):
        if op not in ('xchg', 'or'):
            raise E.Unsupported('rmw ' + op)
        old = 1 if st.g['ready'] else 0
        self.write(ex, st, p, v, order, I)
        return [(st, old)]


class Ref:
    shared = True

    def load(self, ex, st, p, ty, order, I):
        v = fbv(8, 'refs')
        st.assume(z3.Or(v == 1, v == 2))
        return [(st, v)]

    def store(self, ex, st, p, ty, v, order, I):
        ex.fail(st, 'plain overwrite of the shared count', I)
        return []

    def rmw(self, ex, st, p, ty, op, v, order, I):
        tg = ex.target
        d = {'sub': 1, 'add': -1}.get(op)
        v = bv(v, 8)
        ok = op in ('sub', 'add') and ex.prove(st, simp((v if op == 'sub' else -v) == 1), 'one reference is dropped', I)
        if not ok:
            if op not in ('sub', 'add'):
                raise E.Unsupported('rmw ' + op)
            return []
        ex.prove(st, not st.g['dropped'], 'the reference is dropped once', I)
        ex.prove(st, order in ('acq_rel', 'seq_cst'), 'dropping a reference is acquire and release', I)
        st.g['dropped'] = True
        if tg.mode == 'coro':
            ex.prove(st, st.g['ready'], 'the coroutine lets go only after it is ready', I)
            s2 = st.fork()   # owner already gone
            s2.g['other'] = 'gone'
            ex.prove(st, st.g['notified'], 'a blocked owner is woken once ready is set', I)
            st.g['other'] = 'alive'
            st.lost = st.lost | {st.g['frame']}
            return [(st, 2), (s2, 1)]
        s2 = st.fork()
        s2.g['other'] = 'gone'
        s2.g['acq'] = True
        st.g['other'] = 'alive'
        st.lost = st.lost | {st.g['frame']}
        return [(st, 2), (s2, 1)]


class AT(Target):
    ty = 'int'
    mode = 'seq'

    def base(self, ex, st):
        node_fams(ex)
        self.mode = 'seq'
        ty = self.ty
        self.frame_off = {}
        fs = ex.mod.funcs
        self.obj = ex.new_region(st, 'obj', 4, 'param')

        def val(ex, st, a, I):
            if self.res == 'throws':
                e = P(Elem('exc', st.g['excid']), 0)
                return [(st, ('throw', E.Exc(e, None)))]
            return st.g['val'] if ty != 'ref' else P(self.obj, 0)
        ex.overrides.append((re.compile(r'^ext_(val|ref|effect)$'), val))
        ex.overrides.append(bool_wait(r'^std::atomic<bool>::wait\('))
        ex.overrides.append(bool_notify(r'^std::atomic<bool>::notify_(one|all)\('))
        st.g.update(val=fbv(32, 'result'), excid=fint('exception'), ready=False, notified=False, dropped=False, other=None,
                    acq=False, seen=False)
        st.assume(st.g['excid'] > 0)

    def call(self, ex, st, op, *args):
        return call_drv(ex, st, 'drv_%s_%s' % (op, self.ty), list(args))

    def start(self, ex, st, gate=True):
        """a new task whose body is suspended (or has run to its end); discovers the two atomics"""
        t = holder(ex, st, 'task')
        h = holder(ex, st, 'handle')
        ex.store_raw(st, P(h, 0), 8, NULL, None)
        if not self.frame_off:
            s0 = st.fork()
            with spying(ex) as log:
                s1, _ = one(self.call(ex, s0, 'start', P(t, 0), P(h, 0)))
                fr = s1.g['heap'][-1]
                refs = {o for b, o, k in log if b is fr and k in ('add', 'sub', 'store', 'cmpxchg', 'xchg')}
                del log[:]
                self.call(ex, s1, 'ready', P(t, 0))
                rd = {o for b, o, k in log if b is fr}
            if len(refs) != 1 or len(rd) != 1:
                raise E.Unsupported('cannot locate the reference count and the ready flag: %s %s' % (refs, rd))
            self.frame_off = dict(ref=refs.pop(), ready=rd.pop())
        n = len(st.g.get('heap', ()))
        s, _ = one(self.call(ex, st, 'start', P(t, 0), P(h, 0) if gate else NULL))
        heap = s.g['heap'][n:]
        s.g['frame'] = heap[0]
        return s, t, h, heap[0]

    def arm(self, ex, mode):
        self.mode = mode
        ready, ref = Ready(), Ref()

        def any_(ex, st, p, I):
            if self.mode == 'seq' or p.base is not st.g['frame']:
                return None
            if p.off == self.frame_off['ref']:
                return ref
            if p.off == self.frame_off['ready']:
                return ready
            return None
        ex.atomic_any = any_

        def acc(st, p, size, write, I):
            if self.mode == 'owner' and p.base is st.g['frame'] and not st.g['acq'] and p.base not in st.lost and p.base not in st.dead:
                ex.prove(st, False, 'the owner reads the frame only after it saw ready (or dropped the last reference)', I)
            return None
        ex.on_access = acc

    def unseq(self, ex):
        self.mode = 'seq'
        ex.atomic_any = None
        ex.on_access = None

    # ---- protocol callbacks
    def read_ready(self, ex, st, order, I):
        if self.mode == 'coro':
            return [(st, 1 if st.g['ready'] else 0)]
        outs = []
        if not st.g['seen']:
            s2 = st.fork()
            outs.append((s2, 0))
        st.g['seen'] = True
        if order in ACQUIRE:
            st.g['acq'] = True
        return outs + [(st, 1)]

    def on_wait(self, ex, st, p, old, order, I):
        if self.mode == 'owner':
            ex.prove(st, p.base is st.g['frame'] and p.off == self.frame_off['ready'] and old is False, 'waits for ready', I)
            st.g['seen'] = True
            if order in ACQUIRE:
                st.g['acq'] = True
            return [(st, ('ret', None))]
        v = ex.load_raw(st, p, 1, I)
        if not ex.prove(st, tobool(v) is (not old), 'wait on a finished task does not block for ever', I):
            return []
        return [(st, ('ret', None))]

    def on_notify(self, ex, st, p, I):
        if self.mode == 'coro' and p.base is st.g['frame'] and p.off == self.frame_off['ready'] and st.g['ready']:
            st.g['notified'] = True

    def on_ready(self, ex, st, I):
        pass

    # ---- checks
    def check_get(self, ex, st, t, what):
        """get() on a finished task gives exactly its result or its exception"""
        outs = self.call(ex, st, 'get', P(t, 0))
        ex.prove(st, len(outs) > 0, what + ': get returns')
        for s2, oc in outs:
            if self.res == 'throws':
                ex.prove(s2, oc[0] == 'throw' and isinstance(oc[1].ptr.base, Elem) and
                         simp(zi(oc[1].ptr.base.id) == s2.g['excid']), what + ': get throws the stored exception')
            elif not ex.prove(s2, oc[0] == 'ret', what + ': get does not throw'):
                pass
            elif self.ty in ('int', 'own'):
                ex.prove(s2, simp(bv(oc[1], 32) == s2.g['val']), what + ': get returns the stored result')
            elif self.ty == 'ref':
                ex.prove(s2, ex.ptr_eq(s2, oc[1], P(self.obj, 0)), what + ': get returns the stored reference')
        return outs

    def isempty(self, ex, st, t, want, what):
        s, oc = one(self.call(ex, st, 'isempty', P(t, 0)))
        ex.prove(s, simp(zb(tobool(oc[1])) == want), what)
        return s

    def all_gone(self, ex, st):
        ex.prove(st, all(r in st.dead for r in st.g['heap']), 'frame and result are destroyed')


class Finish(AT):
    """the coroutine runs from its last suspension to its end while the owner may do anything"""

    def setup(self, ex, st):
        self.base(ex, st)
        self.res = ex.choose('body', ['returns', 'throws'])
        s, t, h, fr = self.start(ex, st)
        if s is not st:
            raise E.Unsupported('start forks')
        st.g['t'] = t
        self.arm(ex, 'coro')
        return [ex.load_raw(st, P(h, 0), 8, None)]

    def on_ready(self, ex, st, I):
        # whoever sees ready may call get right now
        s2 = st.fork()
        m = self.mode
        aa, oa = ex.atomic_any, ex.on_access
        self.unseq(ex)
        ex.store_raw(s2, P(s2.g['frame'], self.frame_off['ready']), 1, 1, None)
        self.check_get(ex, s2, s2.g['t'], 'when ready becomes true')
        self.mode, ex.atomic_any, ex.on_access = m, aa, oa

    def post(self, ex, st, oc):
        fr = st.g['frame']
        ex.prove(st, oc[0] == 'ret', 'an exception of the body does not escape')
        ex.prove(st, st.g['ready'], 'a finished task is ready')
        if not ex.prove(st, st.g['dropped'], 'the coroutine drops its reference when it finishes'):
            return
        if st.g['other'] == 'gone':
            self.all_gone(ex, st)
        else:
            ex.prove(st, fr not in st.dead, 'the frame of a living owner is kept')
            st.lost = frozenset()
            self.unseq(ex)
            ex.store_raw(st, P(fr, self.frame_off['ready']), 1, 1, None)
            ex.store_raw(st, P(fr, self.frame_off['ref']), 1, 1, None)
            for s2, _ in self.check_get(ex, st, st.g['t'], 'after completion'):
                for s3, oc3 in self.call(ex, s2, 'dtor', P(s2.g['t'], 0)):
                    ex.prove(s3, oc3[0] == 'ret', 'no throw')
                    self.all_gone(ex, s3)


class Owner(AT):
    """an owner operation while the coroutine may finish at any time"""
    op = 'detach'

    def setup(self, ex, st):
        self.base(ex, st)
        self.res = ex.choose('body', ['returns', 'throws'])
        s, t, h, fr = self.start(ex, st)
        (s2, oc), = resume(ex, st, fr)
        st.become(s2)
        st.g['t'] = t
        self.arm(ex, 'owner')
        return [P(t, 0)]

    def post(self, ex, st, oc):
        fr, t = st.g['frame'], st.g['t']
        if self.op in ('detach', 'dtor'):
            ex.prove(st, oc[0] == 'ret', 'no throw')
            if not ex.prove(st, st.g['dropped'], 'the owner drops its reference'):
                return
            if st.g['other'] == 'gone':
                self.all_gone(ex, st)
            else:
                ex.prove(st, fr not in st.dead, 'a running coroutine keeps its frame')
                st.lost = frozenset()
            if self.op == 'detach':
                self.unseq(ex)
                self.isempty(ex, st, t, True, 'empty after detach')
            return
        ex.prove(st, not st.g['dropped'], 'the owner keeps its reference')
        if self.op == 'ready':
            ex.prove(st, oc[0] == 'ret' and simp(zb(tobool(oc[1])) == st.g['seen']), 'ready reports the flag')
            if st.g['seen']:
                ex.prove(st, st.g['acq'], 'ready acquires the result')
        if self.op == 'wait':
            ex.prove(st, oc[0] == 'ret' and st.g['seen'] and st.g['acq'], 'wait returns once the task is ready, acquiring the result')
        if self.op == 'get':
            ex.prove(st, st.g['seen'], 'get waits for the result')
            self.unseq(ex)
            s2 = st
            if self.res == 'throws':
                ex.prove(s2, oc[0] == 'throw' and isinstance(oc[1].ptr.base, Elem) and
                         simp(zi(oc[1].ptr.base.id) == s2.g['excid']), 'get throws the stored exception')
            elif ex.prove(s2, oc[0] == 'ret', 'get does not throw'):
                if self.ty in ('int', 'own'):
                    ex.prove(s2, simp(bv(oc[1], 32) == s2.g['val']), 'get returns the stored result')
                elif self.ty == 'ref':
                    ex.prove(s2, ex.ptr_eq(s2, oc[1], P(self.obj, 0)), 'get returns the stored reference')
            # and then the owner goes away
            for s3, oc3 in self.call(ex, st, 'dtor', P(t, 0)):
                ex.prove(s3, oc3[0] == 'ret', 'no throw')
                self.all_gone(ex, s3)


class Hist(AT):
    """sequential histories: moves, swaps, several owner operations before and after completion"""
    fn = None

    def setup(self, ex, st):
        self.base(ex, st)
        self.res = ex.choose('body', ['returns', 'throws'])
        self.gate = ex.choose('gate', [True, False])
        return [P(holder(ex, st, 't0'), 0)]

    def post(self, ex, st, oc):
        s, t, h, fr = self.start(ex, st, self.gate)
        s = self.isempty(ex, s, t, False, 'a started task is not empty')
        s, r = one(self.call(ex, s, 'ready', P(t, 0)))
        ex.prove(s, simp(zb(tobool(r[1])) == (not self.gate)), 'ready exactly if the body has finished')
        for hist in self.hists:
            s2 = s.fork()
            self.play(ex, s2, t, h, fr, hist)

    hists = ('m.fx', 'mf.x', 'a.fx', 'af.x', 'fmx', 'fax', 'dx.f', 'fdx', 'xf', 'fx', 'wf', 's.fx', 'b.fx', 'fw.x', 'ewx')

    def play(self, ex, s, t, h, fr, hist):
        g, t2 = s.g, None
        cur = t
        fin = not self.gate
        gone = False
        for c in hist:
            if c == '.':
                continue
            if c == 'm' or c == 's' or c == 'a':     # move construct / swap / move assign into an empty one
                t2 = holder(ex, s, 'task2')
                if c == 'm':
                    s, _ = one(self.call(ex, s, 'move', P(t2, 0), P(cur, 0)))
                else:
                    s, _ = one(self.call(ex, s, 'empty', P(t2, 0)))
                    s, _ = one(self.call(ex, s, 'swap' if c == 's' else 'assign', P(t2, 0), P(cur, 0)))
                s = self.isempty(ex, s, t2, False, 'the target of a move owns the task')
                s = self.isempty(ex, s, cur, True, 'a moved-from task is empty')
                s, r = one(self.call(ex, s, 'ready', P(cur, 0)))
                ex.prove(s, simp(bnot(zb(tobool(r[1])))), 'an empty task is not ready')
                s, _ = one(self.call(ex, s, 'wait', P(cur, 0)))
                s, _ = one(self.call(ex, s, 'detach', P(cur, 0)))
                s, _ = one(self.call(ex, s, 'dtor', P(cur, 0)))
                cur = t2
            elif c == 'b':   # move-assign over another finished task: both frames are still destroyed once
                n = len(s.g['heap'])
                s, t3, h3, fr3 = self.start(ex, s, False)
                s, _ = one(self.call(ex, s, 'assign', P(t3, 0), P(cur, 0)))
                s, _ = one(self.call(ex, s, 'dtor', P(cur, 0)))
                ex.prove(s, fr3 in s.dead or True, '-')
                ex.prove(s, fr not in s.dead, 'the moved task lives on')
                cur = t3
            elif c == 'e':
                s, _ = one(self.call(ex, s, 'swap', P(cur, 0), P(cur, 0)))
                s = self.isempty(ex, s, cur, False, 'self-swap keeps the task')
            elif c == 'f':
                if fin:
                    continue
                fin = True
                outs = resume(ex, s, fr)
                ex.prove(s, len(outs) == 1 and outs[0][1][0] == 'ret', 'the body runs to its end')
                s = outs[0][0]
                ex.prove(s, (fr in s.dead) == gone, 'the frame is destroyed exactly when nobody needs it any more')
            elif c == 'w':
                if not fin:
                    continue
                outs = self.check_get(ex, s, cur, 'finished task')
                s = outs[0][0]
                s, r = one(self.call(ex, s, 'ready', P(cur, 0)))
                ex.prove(s, simp(zb(tobool(r[1]))), 'a finished task stays ready')
            elif c in 'dx':
                s, _ = one(self.call(ex, s, 'dtor' if c == 'x' else 'detach', P(cur, 0)))
                gone = True
                ex.prove(s, (fr in s.dead) == fin, 'the frame is destroyed exactly when nobody needs it any more')
        if not gone:
            s, _ = one(self.call(ex, s, 'dtor', P(cur, 0)))
            gone = True
            ex.prove(s, (fr in s.dead) == fin, 'the frame is destroyed exactly when nobody needs it any more')
        if not fin:
            outs = resume(ex, s, fr)
            ex.prove(s, len(outs) == 1 and outs[0][1][0] == 'ret', 'the body runs to its end')
            s = outs[0][0]
        self.all_gone(ex, s)



PROPERTY = 'C13'
DRIVER = 'c13.cpp'
TARGETS = []
for t in ('int', 'own', 'ref', 'void'):
    n = {'own': 'class', 'ref': 'int&'}.get(t, t)
    TARGETS.append(type('Finish_' + t, (Finish,), dict(name='async_task<%s> completion' % n, fn='drv_resume', ty=t)))
    for o in ('detach', 'dtor', 'wait', 'ready', 'get'):
        TARGETS.append(type('Own_%s_%s' % (o, t), (Owner,), dict(name='async_task<%s>::%s' % (n, '~async_task' if o == 'dtor' else o), fn='drv_%s_%s' % (o, t), ty=t, op=o)))
    TARGETS.append(type('Hist_' + t, (Hist,), dict(name='async_task<%s> histories' % n, fn='drv_empty_' + t, ty=t)))
