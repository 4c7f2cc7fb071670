"""Contracts of the steps of a channel at any nesting depth."""
from props.chain import *
import props.chain as CHN


class ChainCh(Chain):
    def discover(self, st):
        s = st.fork()
        C = self.frame(s, 'probe consumer')
        self.probe = C
        g = self.h(s, 'probe')
        n = len(s.g.get('heap', ()))
        s, _ = self.c(s, self.d('three'), g, 2)
        fr = [s.g['heap'][n]]
        self.top = self.find(s, g.base, P(fr[0], 0), what='handle')
        s = self.three(s, g, fr, n)
        R, N1, N0 = fr
        self.root = self.find(s, R, P(R, 16), 16, what='root')
        self.worker = self.find(s, R, P(N0, 0), 16, what='worker')
        self.owner = self.find(s, N0, P(N1, 0), 16, what='owner')
        self.consumer = self.find(s, R, P(g.base, g.off), 16, what='consumer')
        self.hoff = self.find(s, g.base, P(C, 0), what='waiting coroutine')
        if self.find(s, N0, P(R, 16), 16, what='root') != self.root:
            raise E.Unsupported('representation of nested generators not recognised')
        self.take(s)

    def three(self, s, g, fr, n):
        for i in range(3):
            s, _ = self.c(s, self.d('go'), g, P(self.probe, 0))
            if i:
                new = [r for r in s.g['heap'][n:] if r not in fr and r not in s.dead and r.kind == 'heap']
                fr.append(self.newframe(s, new, fr))
        s.g['resumed'] = ()
        return s

    def init_obj(self, st, g, R):
        Chain.init_obj(self, st, g, R)
        C = self.frame(st, 'consumer of ' + g.base.name)
        self.put(st, g.base, g.off + self.hoff, P(C, 0))
        st.g['cons'] = {**st.g.get('cons', {}), id(g.base): C}

    def waiting(self, st, g):
        return P(st.g['cons'][id(g.base)], 0)

    def control(self, s, r, g, what):
        self.ok(s, self.same(s, r, self.waiting(s, g)), what + ' (to the waiting consumer)')

    def chain_is(self, st, g, fr, depth, what, rest=None, links=None):
        Chain.chain_is(self, st, g, fr, depth, what, rest, links)
        if id(g.base) in st.g['cons']:
            self.ok(st, self.same(st, self.get(st, g.base, g.off + self.hoff), self.waiting(st, g)), what + ': the waiting consumer is known')

    def isend(self, s, g, want, what):
        s, p = self.c(s, self.d('cur'), g)
        n = self.ex.is_null(s, self.ex.int2p(p))
        self.ok(s, n if want else bnot(n), what)
        return s

    def value(self, s, g):
        s, p = self.c(s, self.d('cur'), g)
        s, q = self.c(s, self.d('at'), g)
        self.ok(s, self.same(s, p, q), 'iterators and next() show the same element')
        return s, self.ex.norm(self.ex.int2p(p))

    def no_exception(self, s, g, what):
        s, _ = self.c(s, self.d('taken'), g)
        self.expect(s, [('body',)], what + ': no exception')
        return s


class Init(ChainCh):
    def go(self, st):
        g = self.h(st, 'probe')
        n = len(st.g.get('heap', ()))
        s, _ = self.c(st, self.d('three'), g, 2)
        R = s.g['heap'][n]
        s = self.no_exception(s, g, 'created')
        # a channel object is not linked before somebody awaits it
        C = self.frame(s, 'consumer')
        s.g['cons'] = {id(g.base): C}
        s, r = self.c(s, self.d('begin'), g, P(C, 0))
        self.ok(s, self.same(s, r, P(R, 0)), 'the body starts')
        self.chain_is(s, g, [R], '0', 'created')
        self.none_resumed(s, 'created')


class Yields(ChainCh, CHN.Yields):
    pass


class Attach(ChainCh, CHN.Attach):
    pass


class Final(ChainCh, CHN.Final):
    pass


class Raise(ChainCh, CHN.Final):
    """a body ends by an exception"""
    def pick(self, ex, st):
        Final.pick(self, ex, st)
        self.by = ex.choose('delivered by', ['take', 'iterator'])

    def go(self, st):
        s, g, fr = self.mk(st, self.depth)
        k = 'rv' if self.ty != 'ref' else 'lv'
        s, _, buf, v = self.yields(s, fr[0], k)
        s = self.resumes_after(s, fr[0], k, v, buf)
        self.res = 'throws'
        s, _ = self.c(s, self.d('unhandled'), P(fr[0], 0))
        s, r = self.c(s, self.d('final'), P(fr[0], 0))
        self.set_done(s, fr[0])
        self.none_resumed(s, 'exception')
        self.control(s, r, g, 'the end by an exception gives control back')
        s, _ = self.c(s, self.d('taken' if self.by == 'take' else 'itdead'), g)
        self.expect(s, [('caught', 'exc')], 'the exception is delivered')
        s, _ = self.c(s, self.d('itdead'), g)
        self.expect(s, [('body',)], 'once')
        s = self.no_exception(s, g, 'once')
        s = self.isend(s, g, True, 'after the exception there is no current value')
        if self.depth != '0':
            self.popped(s, g, fr, 'failed nested body')


class Advance(ChainCh):
    """begin(), next(), ++ transfer control to the active body and note who waits, nothing else"""
    def pick(self, ex, st):
        self.depth = ex.choose('depth', ['null', 'done'] + list(self.depths))
        self.stale = ex.choose('stale', ['self', 'rest'])
        self.how = ex.choose('by', ['begin', 'next', 'inc', 'begin2', 'next2'])

    def go(self, st):
        ex = self.ex
        if self.depth in ('null', 'done'):
            if self.how == 'inc':
                return
            g = self.h(st, 'g')
            s, _ = self.c(st, self.d('empty'), g)
            if self.depth == 'done':
                self.chain(s, g, 'N', '0', True)
            C = self.frame(s, 'another consumer')
            s, r = self.c(s, self.d(self.how[:5] if self.how[0] == 'b' else 'next'), g, P(C, 0))
            self.ok(s, ex.is_null(s, ex.int2p(r)), 'awaiting an empty channel does not suspend')
            self.none_resumed(s, 'an empty channel')
            self.isend(s, g, True, 'an empty channel gives the end')
            return
        s, g, fr = self.mk(st, self.depth)
        k = 'rv' if self.ty != 'ref' else 'lv'
        if self.how == 'inc':
            s, _, buf, v = self.yields(s, fr[0], k)
        C = s.g['cons'][id(g.base)]
        if self.how.endswith('2'):
            C = self.frame(s, 'another consumer')
            s.g['cons'] = {**s.g['cons'], id(g.base): C}
        s, r = self.c(s, self.d(self.how.rstrip('2')), g, P(C, 0))
        self.ok(s, self.same(s, r, P(fr[0], 0)), 'control goes to the active body')
        self.none_resumed(s, 'awaiting')
        self.chain_is(s, g, fr, self.depth, 'awaiting', s.g['rest']['N'])
        s, r, buf, v = self.yields(s, fr[0], k)
        self.control(s, r, g, 'its yield gives control back')
        s = self.no_exception(s, g, 'awaiting')


class Owner(ChainCh):
    """moves, swaps, clear, release, reset of an object at any depth"""
    def pick(self, ex, st):
        self.depth = ex.choose('depth', list(self.depths))
        self.op = ex.choose('op', ['move', 'assign', 'over', 'swap', 'self', 'adopt', 'readopt', 'clear', 'dtor', 'cleared'])

    def moved(self, s, a, b):
        """the consumers of two objects are exchanged"""
        c = dict(s.g['cons'])
        x, y = c.pop(id(a.base), None), c.pop(id(b.base), None)
        if y:
            c[id(a.base)] = y
        if x:
            c[id(b.base)] = x
        s.g['cons'] = c

    def go(self, st):
        s, g, fr = self.mk(st, self.depth)
        k = 'rv' if self.ty != 'ref' else 'lv'
        s, _, buf, v = self.yields(s, fr[0], k)
        N = s.g['rest']['N']
        here = lambda s, g, w: self.chain_is(s, g, fr, self.depth, w, N)
        op = self.op
        t = self.h(s, 't')
        if op in ('over', 'swap', 'readopt'):
            s, _ = self.c(s, self.d('empty'), t)
            tf = self.chain(s, t, 'T', '1')
            s, _, buf2, v2 = self.yields(s, tf[0], k)
        elif op != 'move':
            s, _ = self.c(s, self.d('empty'), t)
        if op == 'move':
            s, _ = self.c(s, self.d('move'), t, g)
            self.moved(s, t, g)
        elif op in ('assign', 'over'):
            s, _ = self.c(s, self.d('assign'), t, g)
            self.moved(s, t, g)
        elif op == 'swap':
            s, _ = self.c(s, self.d('swap'), t, g)
            self.moved(s, t, g)
        elif op == 'self':
            s, _ = self.c(s, self.d('swap'), g, g)
            s, _ = self.c(s, self.d('assign'), g, g)
            here(s, g, op)
            self.none_resumed(s, op)
            return self.val_is(s, g, v)
        elif op in ('adopt', 'readopt'):
            s, h = self.c(s, self.d('release'), g)
            self.ok(s, self.same(s, h, P(fr[-1], 0)), 'release gives the handle')
            self.none_resumed(s, 'release')
            s, _ = self.c(s, self.d('reset'), t, h)
            if op == 'readopt':
                self.is_destroy(s, tf[-1], self.take_events(s), 'the old frame is destroyed once')
            # a consumer awaits it in its new place
            C = self.frame(s, 'new consumer')
            s.g['cons'] = {id(t.base): C}
            s, r = self.c(s, self.d('next'), t, P(C, 0))
            self.ok(s, self.same(s, r, P(fr[0], 0)), 'control goes to the active body')
        elif op in ('clear', 'dtor', 'cleared'):
            s, _ = self.c(s, self.d('dtor' if op == 'dtor' else 'clear'), g)
            self.is_destroy(s, fr[-1], self.take_events(s), 'the frame is destroyed once')
            if op == 'dtor':
                return
            s = self.is_empty_range(s, g, op)
            if op == 'cleared':
                s, _ = self.c(s, self.d('assign'), t, g)
                s = self.is_empty_range(s, t, 'assigned from a cleared one')
            s, _ = self.c(s, self.d('dtor'), g)
            self.none_resumed(s, 'an empty one')
            return
        here(s, t, op)
        if op == 'over':
            s, _ = self.c(s, self.d('dtor'), g)
            self.is_destroy(s, tf[-1], self.take_events(s), 'the old frame is destroyed once')
        elif op == 'swap':
            self.chain_is(s, g, tf, '1', 'swapped')
            s = self.val_is(s, g, v2)
            s, r, _, v2 = self.yields(s, tf[0], k)
            self.control(s, r, g, 'the next element of the other')
            s = self.val_is(s, g, v2)
        else:
            s = self.is_empty_range(s, g, op)
            s, _ = self.c(s, self.d('dtor'), g)
        self.none_resumed(s, op)
        if op not in ('adopt', 'readopt'):
            s = self.val_is(s, t, v)
        # the next element in the new place
        s = self.resumes_after(s, fr[0], k, v, buf)
        s, r, buf, v = self.yields(s, fr[0], k)
        self.control(s, r, t, 'the next element goes to the same consumer')
        s = self.val_is(s, t, v)
        s, _ = self.c(s, self.d('dtor'), t)
        self.is_destroy(s, fr[-1], self.take_events(s), 'the new owner destroys the frame, once')

    def val_is(self, s, g, v):
        s = self.isend(s, g, False, 'the current value moves along')
        s, p = self.value(s, g)
        self.ok(s, self.same(s, p, v), 'the current value moves along')
        return s

    def is_empty_range(self, s, g, what):
        s, e = self.c(s, self.d('isempty'), g)
        self.ok(s, simp(zb(tobool(e))), what + ': the object is empty')
        C = self.frame(s, 'consumer of nothing')
        for op in ('begin', 'next'):
            s, r = self.c(s, self.d(op), g, P(C, 0))
            self.ok(s, self.ex.is_null(s, self.ex.int2p(r)), what + ': awaiting it does not suspend')
        s = self.isend(s, g, True, what + ': it gives the end')
        s = self.no_exception(s, g, what)
        self.none_resumed(s, what)
        return s


DRIVER = 'c19k.cpp'
TARGETS = []
for ty, n, ks in (('int', 'int', ('rv', 'copy', 'lv', 'ref', 'rcopy')), ('ref', 'int&', ('lv', 'ref')), ('own', 'class', ('rv', 'ref'))):
    for C, w in ((Init, 'creation'), (Yields, 'yield'), (Attach, 'nested range'), (Final, 'end of a body'), (Raise, 'exception of a body'),
                 (Advance, 'awaiting'), (Owner, 'moves and ownership')):
        d = dict(name='channel<%s> %s at any depth' % (n, w), ty=ty, driver=DRIVER)
        if C is Yields:
            d['kinds'] = ks
        if C is Attach:
            d['variants'] = ('leaf', 'leaflv', 'rleaf') if ty == 'int' else ('leaf',)
        TARGETS.append(type('%s_%s' % (C.__name__, ty), (C,), d))
TARGETS.append(type('Yields_cpy', (Yields,), dict(name='channel<copyable class> yield at any depth', ty='cpy', driver=DRIVER, kinds=('copy', 'lv'))))
