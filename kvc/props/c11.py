"""C11 event::notify_all and subscription"""
from props.common import *
from props.shared import *
import re


class Ev(Target):
    ty = 'void'

    def event(self, ex, st, name='event', **kw):
        node_fams(ex)
        e = ex.new_region(st, name, 8, 'param')
        outs = ex.run_fn(st, ex.mod.funcs['drv_new_' + self.ty], [P(e, 0)])
        assert len(outs) == 1
        v = ex.load_cell(st, e, 0, 8)
        ex.prove(st, ex.is_null(st, ex.int2p(v)), 'a new event has no subscribers')
        ex.atomic[(e, 0)] = Head(name, **kw)
        return e


def payload(ex, ty):
    """offset of the input slot relative to the node, found by subscribing one coroutine and notifying it"""
    key = ('payload', ty)
    c = ex.__dict__.setdefault('_payload', {})
    if ty in c:
        return c[ty]
    st = E.St()
    e = ex.new_region(st, 'ev?', 8, 'param')
    o = ex.new_region(st, 'o?', 4, 'param')
    h = Head('?', handover=False)
    ex.atomic[(e, 0)] = h
    ex.overrides.append((re.compile('ext_exe::attach'), lambda ex, st, a, I: None))
    ex.spec += 1
    try:
        outs = [s for s, oc in call_drv(ex, st, 'drv_sub_' + ty, [P(e, 0), P(o, 0)]) if s.g.get('pub')]
        s = outs[0]
        _, reg, off, task = s.g['pub'][-1]
        h.take = lambda ex, st, I: [(st, P(reg, off))]
        x = ex.new_region(s, 'x?', 8, 'param')
        ex.store_raw(s, P(reg, off), 8, NULL, None)
        val = fbv(32, 'probe')
        s2 = ex.run_fn(s, ex.mod.funcs['drv_notify_' + ty], [P(e, 0), P(x, 0), val])[0][0]
        for k, (sz, v) in s2.cells(reg).items():
            if isinstance(k, int) and sz == 4 and is_sym(v) and v.eq(val):
                c[ty] = k - off
                return c[ty]
    finally:
        ex.spec -= 1
        ex.overrides.pop()
        del ex.atomic[(e, 0)]
    raise E.Unsupported('the notified value is not stored in the subscriber')


class Notify(Ev):
    def setup(self, ex, st):
        e = self.event(ex, st)
        x = ex.new_region(st, 'exe', 8, 'param')
        v = None
        if self.ty != 'void':
            po = payload(ex, self.ty)
            ex.fams['node'].fields[po] = ('int', 32)
            ex.fams['node'].size = max(24, po + 4)
            v = fbv(32, 'value')
            base = attach_contract()[1]

            def att(ex, st, a, I):
                n = ex.norm(ex.int2p(a[1]))
                if isinstance(n.base, Elem):
                    w = ex.elem_get(st, 'node', n.base.id, po)
                    ex.prove(st, simp(bv(w, 32) == v), 'the subscriber sees the notified value when it is handed over', I)
                    own = ex.owned(st, 'node', n.base.id)
                return base(ex, st, a, I)
            ex.overrides.append((re.compile(r'ext_exe::attach'), att))
        else:
            ex.overrides.append(attach_contract(r'ext_exe::attach'))
        st.g['x'] = x
        st.g['ln'] = ex.choose('len', [0, 1, 2, 3]) if ex.small else None
        st.g['L'] = None
        log_init(st, 'attach', 'exe', 'node')
        return [P(e, 0), P(x, 0)] + ([v] if v is not None else [])

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        L = st.g['L']
        if not ex.prove(st, L is not None, 'the subscribers are taken'):
            return
        all_attached(ex, st, L, st.g['x'])
        ex.prove(st, simp(zb(tobool(oc[1])) == (zi(L.n) != 0)), 'reports whether there was any subscriber')


def mkn(nm, f, t):
    return type(nm, (Notify,), dict(name=nm, fn=f, ty=t))


class Sub(Ev):
    """a coroutine subscribes, is notified (value stored, resumed) and continues"""

    def setup(self, ex, st):
        e = self.event(ex, st)
        o = ex.new_region(st, 'out', 4, 'param')
        ex.store_raw(st, P(o, 0), 4, 0, None)
        st.g.update(e=e, o=o)
        return drv_args(ex, st, self.fn, [P(e, 0), P(o, 0)])

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        pub = st.g.get('pub', ())
        if not ex.prove(st, len(pub) == 1, 'the subscriber is queued exactly once'):
            return
        _, reg, off, task = pub[0]
        ex.prove(st, task.base is reg and isinstance(reg, Region), 'the queued node resumes the subscriber')
        v = ex.load_raw(st, P(st.g['o'], 0), 4, None)
        ex.prove(st, v == 0, 'the subscriber is suspended')
        # a later notification
        st.lost = frozenset()
        e, o = st.g['e'], st.g['o']
        x = ex.new_region(st, 'exe', 8, 'param')
        st.g['att'] = 0
        h = ex.atomic[(e, 0)]
        ex.store_raw(st, P(reg, off), 8, NULL, None)
        h.take = lambda ex, st, I: [(st, P(reg, off))]
        if not any(r.pattern == r'ext_exe::attach' for r, _ in ex.overrides):
            def att(ex, st, a, I):
                n = ex.int2p(a[1])
                ex.prove(st, n.base is reg and n.off == off, 'the subscriber is handed over', I)
                st.g['att'] += 1
                # the executor resumes it right away
                outs = []
                for s2, oc2 in resume(ex, st, reg, 0, I):
                    outs.append((s2, ('ret', None)) if oc2[0] == 'ret' else (s2, oc2))
                return outs
            ex.overrides.append((re.compile(r'ext_exe::attach'), att))
        val = fbv(32, 'value')
        for s2, oc2 in ex.run_fn(st, ex.mod.funcs['drv_notify_' + self.ty], [P(e, 0), P(x, 0)] + ([val] if self.ty != 'void' else [])):
            ex.prove(s2, oc2[0] == 'ret', 'no throw')
            ex.prove(s2, s2.g['att'] == 1, 'handed over once')
            self.done(ex, s2, val, reg)
            ex.prove(s2, reg in s2.dead, 'frame destroyed')

    def done(self, ex, s2, val, reg):
        w = ex.load_raw(s2, P(s2.g['o'], 0), 4, None)
        ex.prove(s2, simp(bv(w, 32) == (val if self.ty != 'void' else 1)), 'the subscriber continues with the notified value')


def mks(t):
    return type('Sub_' + t, (Sub,), dict(name='co_await event<%s>' % t, fn='drv_sub_' + t, ty=t))


class Callback(Sub):
    tag = 1

    def setup(self, ex, st):
        super().setup(ex, st)
        self_tag = self.tag
        st.g['cb'] = ()

        def cb(ex, st, a, I):
            st.g['cb'] = st.g['cb'] + ((a[0], a[1]),)
            return None
        ex.overrides.append((re.compile('^ext_cb$'), cb))
        return [P(st.g['e'], 0)] + ([7] if self.ty == 'mval' else [])

    def done(self, ex, s2, val, reg):
        cb = s2.g['cb']
        if ex.prove(s2, len(cb) == 1, 'the callback runs once'):
            ex.prove(s2, simp(bv(cb[0][0], 32) == (7 if self.ty == 'mval' else self.tag)), 'the callback that was set')
            if self.ty != 'void':
                ex.prove(s2, simp(bv(cb[0][1], 32) == val), 'with the notified value')


def mkc(t, tag):
    return type('Cb_' + t, (Callback,), dict(name='event<%s>::set_callback' % t, fn='drv_cb_' + t, ty=t, tag=tag))


PROPERTY = 'C11'
DRIVER = 'c11.cpp'
TARGETS = [mkn('notify_all<void>', 'drv_notify_void', 'void'), mkn('notify_all<int>', 'drv_notify_int', 'int'),
           mkn('notify_all<class>', 'drv_notify_mval', 'mval'), mkn('notify_all<void>(any_executor_ref)', 'drv_notify_void_any', 'void'),
           mkn('notify_all<class>(any_executor_ref)', 'drv_notify_mval_any', 'mval'),
           mks('void'), mks('int'), mks('mval'), mkc('void', 1), mkc('int', 2), mkc('mval', 7)]
