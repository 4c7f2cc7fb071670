"""C22 results: what a coroutine returns is what its consumer gets, stored once and destroyed once."""
from props.common import *
from props.scen import *
import re

VALUES = ('obj', 'dobj', 'tri', 'ndt', 'int')
REFS = ('ref', 'iref', 'cref')
TRIVIAL = ('tri', 'ndt', 'int')
DEFAULT = ('dobj', 'tri', 'int') + REFS
CPP = {'ref': 'class&', 'iref': 'int&', 'cref': 'const int&', 'obj': 'class', 'dobj': 'default constructible class',
       'tri': 'trivially destructible class', 'ndt': 'trivially destructible class without default constructor'}


class Objs(Scen):
    events = (('saw', 1), ('place', 1))
    fn = 'drv_nop'
    ty = 'obj'
    res = 'returns'

    def setup(self, ex, st):
        self.base(ex, st)
        st.g.update(op=(), vals=(), live=frozenset(), hist=(), boom=None)
        ex.max_steps = 4000000

        def op(ex, st, a, I):
            if not st.g['op']:
                ex.fail(st, 'the body runs only when it is asked to', I)
                return []
            o = st.g['op'][0]
            st.g['op'] = st.g['op'][1:]
            return o

        def val(ex, st, a, I):
            v = fbv(32, 'value')
            st.g['vals'] = st.g['vals'] + (v,)
            return v

        def ref(ex, st, a, I):
            r = ex.new_region(st, 'referred', 4, 'param')
            ex.store_raw(st, P(r, 0), 4, fbv(32, 'value'), None)
            st.g['vals'] = st.g['vals'] + (P(r, 0),)
            return P(r, 0)

        def throw(ex, st, a, I):
            return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excid']), 0), None)))]

        def key(ex, p, I):
            p = ex.norm(ex.int2p(p))
            if not isinstance(p.base, Region) or not isinstance(p.off, int):
                raise E.Unsupported('object at %r' % (p,))
            return p.base, p.off

        def made(ex, st, a, I):
            k = key(ex, a[0], I)
            if st.g['boom'] is not None:
                st.g['boom'] -= 1
                if st.g['boom'] < 0:
                    st.g['boom'] = None
                    return throw(ex, st, a, I)
            if self.ty not in TRIVIAL:
                ex.prove(st, k not in st.g['live'], 'an object is not constructed over a living one', I)
            st.g['live'] = st.g['live'] | {k}
            st.g['hist'] = st.g['hist'] + (k,)

        def died(ex, st, a, I):
            k = key(ex, a[0], I)
            ex.prove(st, k in st.g['live'], 'only a living object is destroyed', I)
            st.g['live'] = st.g['live'] - {k}
        def src(ex, st, a, I):
            if self.ty in TRIVIAL or self.ty in REFS:
                return
            k = key(ex, a[0], I)
            ex.prove(st, k in st.g['live'], 'only a living object is used', I)
        ex.overrides[:0] = [(re.compile('^ext_%s$' % n.rstrip('_')), h) for n, h in
                            dict(op=op, from_=src, val=val, ref=ref, throw=throw, made=made, died=died).items()]
        return []

    def key(self, p):
        p = self.ex.norm(self.ex.int2p(p))
        return p.base, p.off

    def none_left(self, s, what='at the end'):
        if self.ty not in TRIVIAL:
            self.ok(s, s.g['live'] == frozenset(), what + ': every stored object is destroyed')
        self.ok(s, all(r in s.dead for r in s.g.get('heap', ()) if r.kind == 'heap'), what + ': nothing is left behind')

    def value(self, s, p):
        return bv(self.ex.load_raw(s, self.ex.norm(self.ex.int2p(p)), 4, None), 32)


class Coro(Objs):
    carrier = 'task'

    def d(self, n):
        return 'drv_%s_%s' % (n, self.ty)

    def bodies(self):
        place = []
        if self.carrier == 'task' and self.ty != 'void':
            if self.ty in DEFAULT:
                place.append(6)
            place.append(7)
        ends = (1, 2, 3) if self.ty in VALUES else (1,)
        for pre in [()] + [(a,) for a in place] + [(a, b) for a in place for b in place]:
            for e in ends + ((4,) if pre else ()) + (5,):
                yield pre + (e,)

    def outcome(self, body):
        return 'throws' if body[-1] == 5 else 'returns'

    def play(self, st):
        for body in self.bodies():
            for how in self.hows(body):
                s = st.fork()
                for x in ((), (8,)):
                    if x and 'get' in how:
                        continue
                    try:
                        self.one(s.fork(), body[:-1] + x + body[-1:], how)
                    except Stop:
                        pass

    def hows(self, body):
        if self.carrier == 'async':
            return ('aget', 'adrop', 'adetach', 'agettwice')
        c = [(1,), (1, 1), (4, 1), (4,), ()]
        if self.ty in VALUES:
            c += [(2,), (4, 2), (1, 2)]
        return [('consume', x) for x in c] + ['get', 'getdone', 'detach', 'drop', 'stop']

    # ---- one run
    def one(self, s, body, how):
        self.what = '%s %s' % (body, how)
        t = self.h(s, 'task')
        hnd = self.cell(s, 'gate')
        s.g['op'] = ()
        A = self.carrier == 'async'
        if A:
            s.g['op'] = body
            s, _ = self.c(s, self.d('anew'), t, hnd)
            if how in ('adrop', 'adetach') and 8 in body:   # the consumer leaves first
                s, _ = self.c(s, self.d('adtor' if how == 'adrop' else 'adetach'), t)
                s = self.gate(s, body, hnd)
                return self.finish(s, body, False)
            s = self.gate(s, body, hnd)
            if how in ('adrop', 'adetach'):
                s, _ = self.c(s, self.d('adtor' if how == 'adrop' else 'adetach'), t)
                return self.finish(s, body, False)
            s, _ = self.c(s, self.d('aget'), t)
            s = self.seen(s, body, [2])
            if how == 'agettwice' and (self.ty not in VALUES or self.ty == 'int' or body[-1] == 5):
                s, _ = self.c(s, self.d('aget'), t)
                s = self.seen(s, body, [2], False)
            s, _ = self.c(s, self.d('adtor'), t)
            return self.finish(s, body)
        s, _ = self.c(s, self.d('new'), t, hnd)
        if self.ty != 'tri':    # (its slot may hold a default value)
            self.ok(s, s.g['hist'] == () and s.g['vals'] == (), 'nothing is stored before the body runs')
        if how == 'drop':
            s, _ = self.c(s, self.d('dtor'), t)
            self.expect(s, [], 'dropped')
            return self.none_left(s, 'dropped without being started')
        if how == 'detach':
            s.g['op'] = body
            s, _ = self.c(s, self.d('detach'), t)
            s = self.gate(s, body, hnd)
            return self.finish(s, body, False)
        if how in ('stop', 'getdone'):
            s.g['op'] = body
            s, h = self.c(s, self.d('stop'), t)
            s = self.gate(s, body, hnd)
            self.took(s, body)
            if how == 'stop':
                s, _ = self.c(s, 'drv_destroy', h)
                return self.finish(s, body, None)
            t2 = self.h(s, 'task2')
            s, _ = self.c(s, self.d('adopt'), t2, h)
            s, _ = self.c(s, self.d('get'), t2)
            s = self.seen(s, body, [2], None)
            s, _ = self.c(s, self.d('dtor'), t2)
            return self.finish(s, body, None)
        if how == 'get':
            s.g['op'] = body
            s, _ = self.c(s, self.d('get'), t)
            s = self.seen(s, body, [2])
            s, _ = self.c(s, self.d('dtor'), t)
            return self.finish(s, body, None)
        cons = how[1]
        if cons:    # the consumer asks first, then the body runs, then the consumer goes on
            s.g['op'] = cons[:1] + body + cons[1:] + (0,)
        else:
            s.g['op'] = (0,)
        s, c = self.c(s, self.d('consume'), t)
        if cons:
            s = self.gate(s, body, hnd)
            s = self.seen(s, body, [x for x in cons if x != 4])
        s, _ = self.c(s, 'drv_destroy', c)
        s, _ = self.c(s, self.d('dtor'), t)
        if not cons:
            self.expect(s, [], 'never awaited')
            return self.none_left(s, 'never awaited')
        self.finish(s, body, None)

    def gate(self, s, body, hnd):
        if 8 not in body:
            return s
        h = self.rd(s, hnd)
        if not self.ok(s, isinstance(self.ex.int2p(h).base, Region), 'the body waits'):
            raise Stop()
        s, _ = self.c(s, 'drv_resume', h)
        return s

    def took(self, s, body):
        """split off what the body reported: where it was told to build the result"""
        n = len([b for b in body if b in (6, 7)])
        tr = s.g['tr']
        self.places = [x[1] for x in tr[:n]]
        if not self.ok(s, len(tr) >= n and all(x[0] == 'place' for x in tr[:n]), 'the body gets its return place'):
            raise Stop()
        s.g['tr'] = tr[n:]
        if not self.ok(s, len(s.g['vals']) == n + (self.ty != 'void' and body[-1] in (1, 2, 3)), 'the body ran once'):
            raise Stop()
        self.ok(s, s.g['op'] == () or s.g['op'] == (0,), 'the body runs to its end')

    def seen(self, s, body, cons, first=True):
        if first:
            self.took(s, body)
        w = self.what
        tr = self.take(s)
        if self.outcome(body) == 'throws':
            want = ['caught' for c in cons]
            if self.ok(s, [x[0] for x in tr] == want, 'the exception, and nothing else, reaches the consumer') and cons:
                self.ok(s, self.is_exc(s, tr[-1][1]) and self.is_exc(s, tr[0][1]), 'the consumer gets the exception of the body')
            return s
        want = []
        for c in cons:
            want += ['gotvoid'] if self.ty == 'void' else ['place', 'got'] if c == 1 or self.ty in REFS else ['got']
        if not self.ok(s, [x[0] for x in tr] == want, 'the consumer gets a result'):
            return s
        v = s.g['vals'][-1] if s.g['vals'] else None
        addr = None
        for x in tr:
            if x[0] == 'place':
                if self.ty in REFS:
                    self.ok(s, self.same(s, x[1], v), 'the referred object is the returned one')
                else:
                    self.ok(s, addr is None or addr == self.key(x[1]), 'the result stays where it is')
                    addr = self.key(x[1])
                    if body[-1] == 4:
                        self.ok(s, self.same(s, x[1], self.places[-1]), 'the result is the object built in place')
                    if self.ty != 'int':
                        n = len([b for b in body if b in (6, 7)]) + (body[-1] != 4)
                        self.ok(s, s.g['hist'].count(addr) - n in ((0, 1) if self.ty == 'tri' else (0,)), 'the stored result is constructed once')
            if x[0] == 'got':
                y = self.value(s, v) if self.ty in REFS else v
                self.ok(s, simp(bv(x[1], 32) == y), 'the value is the returned one')
        return s

    def finish(self, s, body, took=None):
        if took is False:
            self.took(s, body)
        self.expect(s, [], 'nothing more')
        self.none_left(s)


class Throwing(Objs):
    """the conversion into the result throws"""
    ty = 'tobj'

    def play(self, st):
        for how in ('get', 'consume'):
            for boom in (None, 0):
                s = st.fork()
                t = self.h(s, 'task')
                s, _ = self.c(s, 'drv_new_tobj', t, NULL)
                s.g['boom'] = boom
                s.g['op'] = (1,) if how == 'get' else (1, 1, 0)
                s, c = self.c(s, 'drv_%s_tobj' % how, t)
                tr = self.take(s)
                v = s.g['vals'][0]
                if boom is None:
                    self.ok(s, tr[-1][0] == 'got' and simp(bv(tr[-1][1], 32) == v), 'the value is the returned one')
                else:
                    self.ok(s, len(tr) == 1 and tr[0][0] == 'caught' and self.is_exc(s, tr[0][1]),
                            'an exception while storing the result is the outcome')
                if how != 'get':
                    s, _ = self.c(s, 'drv_destroy', c)
                s, _ = self.c(s, 'drv_dtor_tobj', t)
                self.none_left(s)
        # the storage: nothing is stored by a throwing construction, whatever was stored before is destroyed
        s0 = st.fork()
        b = self.h(s0, 'block', 64)
        s0, _ = self.c(s0, 'drv_bnew_tobj', b)
        for before in (0, 1):
            s = s0.fork()
            if before:
                s, _ = self.c(s, 'drv_bthrow', b, fbv(32, 'earlier'))
            for boom in (None, 0):
                s2 = s.fork()
                s2.g['boom'] = boom
                v = fbv(32, 'v')
                o = self.outs(s2, 'drv_bthrow', b, v)
                self.ok(s2, len(o) == 1, 'one outcome')
                for s3, oc in o:
                    if boom is None:
                        self.ok(s3, oc[0] == 'ret', 'stored')
                        s3, p = self.c(s3, 'drv_bres_tobj', b)
                        self.ok(s3, simp(self.value(s3, p) == v), 'the value is the returned one')
                    else:
                        self.ok(s3, oc[0] == 'throw' and self.is_exc(s3, oc[1].ptr), 'the exception of the construction')
                    s3, _ = self.c(s3, 'drv_bdtor_tobj', b)
                    self.none_left(s3)


class Block(Objs):
    """return_block: every operation on every state (empty, holding any value)"""
    covers = ('return_block',)

    def play(self, st):
        if self.ty == 'ref':
            return self.refs(st)
        s0 = st.fork()
        b = self.h(s0, 'block', 64)
        s0, _ = self.c(s0, self.d('bnew'), b)
        self.ok(s0, s0.g['live'] == frozenset() or self.ty in TRIVIAL, 'nothing stored at first')
        s0.g['hist'] = ()
        s = s0.fork()
        s, _ = self.c(s, self.d('bdtor'), b)
        self.none_left(s, 'never stored')
        starts = [(s0, None, 0)]
        for op in self.ops():
            starts += [self.do(s0.fork(), b, op, None, 0, False)]
        for s, v, n in starts:
            if v is not None:
                # left in place: consumed as it is
                s2 = s.fork()
                s2, _ = self.c(s2, self.d('brvo'), b)
                self.look(s2, b, v, n)
            for op in self.ops():
                self.do(s.fork(), b, op, v, n, True)

    def d(self, n):
        return 'drv_%s_%s' % (n, self.ty)

    def ops(self):
        return ('bval', 'bcopy', 'bmove', 'bplace')

    def do(self, s, b, op, before, n, end):
        v = fbv(32, 'v')
        tmp = self.h(s, 'tmp', 8)
        p = None
        if op in ('bcopy', 'bmove'):
            s, _ = self.c(s, self.d('mk'), tmp, v)
            s, _ = self.c(s, self.d(op), b, tmp)
            if op == 'bcopy' or self.ty == 'int':
                self.ok(s, simp(self.value(s, tmp) == v), 'a copied object keeps its value')
            s, _ = self.c(s, self.d('rm'), tmp)
        else:
            s, p = self.c(s, self.d(op), b, v)
        if self.ty not in TRIVIAL:
            self.ok(s, len(s.g['live']) == 1, 'one object is stored, the earlier one is destroyed')
        s2, r = self.c(s, self.d('bres'), b)
        if op == 'bplace':
            self.ok(s2, self.same(s2, p, r), 'the return place is the result')
        k = self.key(r)
        if self.ty != 'int':
            self.ok(s2, s2.g['hist'].count(k) == n + 1, 'the result is constructed once')
        s = s2
        if end:
            self.look(s, b, v, n + 1)
        return s, v, n + 1

    def look(self, s, b, v, n):
        s, r = self.c(s, self.d('bres'), b)
        self.ok(s, simp(self.value(s, r) == v), 'the result is the value stored last')
        if self.ty != 'int':
            self.ok(s, s.g['hist'].count(self.key(r)) == n, 'looking at the result or finishing with rvo constructs nothing')
        if self.ty not in TRIVIAL:
            self.ok(s, s.g['live'] == frozenset([self.key(r)]), 'the result is alive')
        s2 = s.fork()
        s2, x = self.c(s2, self.d('btake'), b)
        self.ok(s2, simp(bv(x, 32) == v), 'the consumer gets the value')
        for q in (s, s2):
            q, _ = self.c(q, self.d('bdtor'), b)
            self.none_left(q)

    def refs(self, st):
        ex = self.ex
        s0 = st.fork()
        b = self.h(s0, 'block', 64)
        s0, _ = self.c(s0, self.d('bnew'), b)
        x, y = self.h(s0, 'x'), self.h(s0, 'y')
        for before in (None, 'bval', 'bplace'):
            for op in ('bval', 'bplace', 'set'):
                s = s0.fork()
                if before:
                    s, _ = self.c(s, self.d(before), b, x)
                s, q = self.c(s, self.d('bplace' if op == 'set' else op), b, NULL if op == 'set' else y)
                if op == 'set':
                    ex.store_raw(s, ex.norm(ex.int2p(q)), 8, y, None)
                if op != 'bval':
                    s, _ = self.c(s, self.d('brvo'), b)
                s, r = self.c(s, self.d('bres'), b)
                self.ok(s, self.same(s, r, y), 'the result is the referred object')
                s, _ = self.c(s, self.d('bdtor'), b)
                self.ok(s, s.g['hist'] == (), 'nothing is copied')


class Expected(Objs):
    covers = ('expected',)

    def d(self, n):
        return 'drv_%s_%s' % (n, self.ty)

    def play(self, st):
        self.realty, T = self.ty, self.ty
        for mk in ('eval', 'eerr'):
            for moves in (0, 1, 2):
                s = st.fork()
                v = fbv(32, 'v')
                es = [self.h(s, 'e%d' % i, 64) for i in range(moves + 1)]
                s, _ = self.c(s, self.d(mk), es[0], v)
                for i in range(moves):
                    s, _ = self.c(s, self.d('emove'), es[i + 1], es[i])
                e = es[-1]
                val = mk == 'eval'
                s, a = self.c(s, self.d('ehas'), e)
                s, b = self.c(s, self.d('eno'), e)
                self.ok(s, simp(zb(tobool(a)) == val), 'it tells whether there is a value')
                self.ok(s, simp(zb(tobool(b)) == (not val)), 'it tells whether there is an error')
                if not (val and T == 'void'):
                    s, p = self.c(s, self.d('ep' if val else 'ee'), e)
                    self.ok(s, simp(self.value(s, p) == v), 'the %s is the one stored' % ('value' if val else 'error'))
                for e in es:
                    s, _ = self.c(s, self.d('edtor'), e)
                self.ok(s, s.g['live'] == frozenset() or val and T in TRIVIAL, 'everything is destroyed')


PROPERTY = 'C22'
DRIVER = 'c22.cpp'
TARGETS = []
for t in VALUES + REFS + ('void',):
    n = CPP.get(t, t)
    TARGETS.append(type('Task_' + t, (Coro,), dict(name='task<%s> result' % n, ty=t)))
    TARGETS.append(type('Async_' + t, (Coro,), dict(name='async_task<%s> result' % n, ty=t, carrier='async')))
for t in VALUES + ('ref',):
    TARGETS.append(type('Block_' + t, (Block,), dict(name='return_block<%s>' % CPP.get(t, t), ty=t)))
TARGETS.append(type('Throwing', (Throwing,), dict(name='a result whose construction throws')))
for t in ('obj', 'tri', 'int', 'void'):
    TARGETS.append(type('Exp_' + t, (Expected,), dict(name='expected<%s, class>' % CPP.get(t, t), ty=t)))
