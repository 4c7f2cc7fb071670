"""Scenario targets: the real coroutine machinery driven step by step from a canonical state, with symbolic values and an
event trace kept by the uninterpreted functions ext_* of the driver.  Each step is a contract check of one operation in one
state; the frames are the real split coroutine frames."""
from props.common import *
from props.c21 import resume
from props.shared import call_drv
from props.twoparty import bool_wait, bool_notify, holder
import re


class Scen(Target):
    res = 'returns'
    track = True

    def base(self, ex, st):
        node_fams(ex)
        self.ex = ex
        self.obj = ex.new_region(st, 'obj', 4, 'param')
        st.g.update(excid=fint('exception'), tr=(), nval=0, gates=())
        st.g['val'] = fbv(32, 'value')
        st.assume(st.g['excid'] > 0)

        def val(ex, st, a, I, ref=False):
            st.g['nval'] += 1
            if self.res == 'throws':
                return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excid']), 0), None)))]
            return P(self.obj, 0) if ref else st.g['val']

        def tr(name, n=0):
            def h(ex, st, a, I):
                st.g['tr'] = st.g['tr'] + ((name,) + tuple(a[:n]),)
                return None
            return h

        def caught(ex, st, a, I):
            st.g['tr'] = st.g['tr'] + (('caught', st.caught[-1] if st.caught else NULL),)
            return None
        o = ex.overrides
        o.append((re.compile(r'^ext_(val|effect)$'), val))
        o.append((re.compile(r'^ext_ref$'), lambda ex, st, a, I: val(ex, st, a, I, True)))
        o.append((re.compile(r'^ext_caught$'), caught))
        for k, n in (('body', 0), ('got', 1), ('gotref', 1), ('gotvoid', 0), ('event', 1)) + tuple(self.events):
            o.append((re.compile(r'^ext_%s$' % k), tr(k, n)))
        o.append(bool_wait(r'^std::atomic<bool>::wait\('))
        o.append(bool_notify(r'^std::atomic<bool>::notify_(one|all)\('))

    events = ()

    # a blocked thread: somebody else must make progress: the environment resumes what is parked at the gate
    def on_wait(self, ex, st, p, old, order, I):
        v = tobool(ex.load_raw(st, p, 1, I))
        if v is old or (not isinstance(v, bool) and False):
            g = st.g.get('parked')
            if not ex.prove(st, g is not None, 'a blocking wait can be woken', I):
                return []
            st.g['parked'] = None
            outs = []
            for s2, oc in resume(ex, st, g):
                ex.prove(s2, oc[0] == 'ret', 'a resumed body does not throw out', I)
                outs += self.on_wait(ex, s2, p, old, order, I)
            return outs
        return [(st, ('ret', None))]

    def on_notify(self, ex, st, p, I):
        pass

    # ---- calls
    def outs(self, st, fn, *a):
        return call_drv(self.ex, st, fn, list(a))

    def c(self, st, fn, *a):
        """exactly one outcome, no throw -> (state, value)"""
        o = self.outs(st, fn, *a)
        if not o:
            raise Stop()
        if len(o) != 1:
            raise E.Unsupported('%s: %d outcomes' % (fn, len(o)))
        s, oc = o[0]
        if not self.ex.prove(s, oc[0] == 'ret', '%s does not throw' % fn):
            raise Stop()
        return s, oc[1]

    def h(self, st, name, size=8):
        return P(holder(self.ex, st, name, size), 0)

    def cell(self, st, name):
        """a zeroed pointer cell"""
        p = self.h(st, name)
        self.ex.store_raw(st, p, 8, NULL, None)
        return p

    def rd(self, st, p, n=8):
        return self.ex.load_raw(st, p, n, None)

    def ok(self, st, cond, msg):
        return self.ex.prove(st, cond, msg)

    def dead(self, st, r):
        return r.base in st.dead

    def same(self, st, a, b):
        a, b = self.ex.int2p(a), self.ex.int2p(b)
        return self.ex.ptr_eq(st, a, b)

    def take(self, st):
        t = st.g['tr']
        st.g['tr'] = ()
        return t

    def expect(self, st, want, what):
        """compare the trace since the last call with `want`: tuples (name, *values); a value may be None (any),
        a pointer, 'val' (the body's value) or 'exc' (its exception)"""
        got = self.take(st)
        if not self.ok(st, tuple(g[0] for g in got) == tuple(w[0] for w in want),
                       '%s: events %s' % (what, '/'.join(w[0] for w in want))):
            return
        for g, w in zip(got, want):
            for x, y in zip(g[1:], w[1:]):
                if y is None:
                    continue
                m = '%s: %s' % (what, g[0])
                if isinstance(y, str) and y == 'exc':
                    self.ok(st, self.is_exc(st, x), m + ' with the exception of the body')
                elif isinstance(y, P):
                    self.ok(st, self.same(st, x, y), m + ' with the right address')
                else:
                    self.ok(st, simp(bv(x, 32) == bv(y, 32)), m + ' with the value of the body')

    def is_exc(self, st, x):
        x = self.ex.int2p(x)
        return isinstance(x.base, Elem) and x.base.fam == 'exc' and simp(zi(x.base.id) == st.g['excid'])

    def all_dead(self, st, what='at the end'):
        self.ok(st, all(r in st.dead for r in st.g.get('heap', ())), what + ': every frame and object is destroyed')

    def live_heap(self, st):
        return [r for r in st.g.get('heap', ()) if r not in st.dead]

    def post(self, ex, st, oc):
        try:
            self.play(st)
        except Stop:
            pass

    def seen(self, st):
        """what the awaiting coroutine reports for the outcome of the body"""
        if self.res == 'throws':
            return ('caught', 'exc')
        return {'int': ('got', st.g['val']), 'own': ('got', st.g['val']), 'ref': ('gotref', P(self.obj, 0)),
                'void': ('gotvoid',)}[self.ty]


class Stop(Exception):
    pass
