"""Contracts of the steps of a generator at any nesting depth."""
from props.chain import *


class Raise(Final):
    """a body ends by an exception"""
    def go(self, st):
        ex = self.ex
        s, g, fr = self.mk(st, self.depth)
        k = 'rv' if self.ty != 'ref' else 'lv'
        s, _, buf, v = self.yields(s, fr[0], k)
        s = self.resumes_after(s, fr[0], k, v, buf)
        self.res = 'throws'
        o = self.outs(s, self.d('unhandled'), P(fr[0], 0))
        self.ok(s, len(o) == 1, 'one outcome')
        for s, oc in o:
            self.ok(s, oc[0] == 'throw' and self.is_exc(s, oc[1].ptr), 'the exception goes on to the increment')
            self.none_resumed(s, 'unhandled exception')
            if self.depth == '0':
                self.set_done(s, fr[0])
                s = self.isend(s, g, True, 'after the exception there is no current value')
            else:
                self.popped(s, g, fr, 'failed nested body')
                s = self.isend(s, g, True, 'after the exception there is no current value')


class Advance(Chain):
    """begin() and ++ resume the active body, once, and nothing else"""
    def pick(self, ex, st):
        self.depth = ex.choose('depth', ['null', 'done'] + list(self.depths))
        self.stale = ex.choose('stale', ['self', 'rest'])
        self.how = ex.choose('by', ['begin', 'inc'])
        self.outcome = ex.choose('body', ['yields', 'throws'])

    def at_resume(self, st, cof, I):
        self.chain_is(st, st.g['g'], st.g['fr'], self.depth, 'when the body is resumed', st.g['rest']['N'])

    def go(self, st):
        ex = self.ex
        if self.depth in ('null', 'done'):
            g = self.h(st, 'g')
            s, _ = self.c(st, self.d('empty'), g)
            if self.depth == 'done':
                self.chain(s, g, 'N', '0', True)
            it = self.h(s, 'it')
            s, _ = self.c(s, self.d('begin'), g, it)
            self.none_resumed(s, 'an empty generator')
            s, e = self.c(s, self.d('isend'), it)
            self.ok(s, simp(zb(tobool(e))), 'begin of an empty generator is end')
            return
        s, g, fr = self.mk(st, self.depth)
        s.g['g'], s.g['fr'] = g, fr
        it = self.h(s, 'it')
        self.resume_outcome = ('ret', None)
        if self.outcome == 'throws':
            self.resume_outcome = ('throw', E.Exc(P(Elem('exc', s.g['excid']), 0), None))
        if self.how == 'inc':
            s, _ = self.c(s, self.d('cur'), g, it)
            o = self.outs(s, self.d('inc'), it)
        else:
            o = self.outs(s, self.d('begin'), g, it)
        self.ok(s, len(o) == 1, 'one outcome')
        for s, oc in o:
            self.ok(s, self.take_events(s) == (('resume', self.idof(s, fr[0])),), 'exactly the active body is resumed, once')
            if self.outcome == 'throws':
                self.ok(s, oc[0] == 'throw' and self.is_exc(s, oc[1].ptr), 'its exception is passed on')
            else:
                self.ok(s, oc[0] == 'ret', 'no throw')
            self.chain_is(s, g, fr, self.depth, 'afterwards', s.g['rest']['N'])


class Owner(Chain):
    """moves, swaps, clear, release, reset of an object at any depth"""
    def pick(self, ex, st):
        self.depth = ex.choose('depth', list(self.depths))
        self.op = ex.choose('op', ['move', 'assign', 'over', 'swap', 'self', 'adopt', 'readopt', 'clear', 'dtor', 'cleared'])

    def go(self, st):
        ex = self.ex
        s, g, fr = self.mk(st, self.depth)
        k = 'rv' if self.ty != 'ref' else 'lv'
        s, _, buf, v = self.yields(s, fr[0], k)
        N = s.g['rest']['N']
        here = lambda s, g, w: self.chain_is(s, g, fr, self.depth, w, N)
        op = self.op
        t = self.h(s, 't')
        if op in ('over', 'swap', 'readopt'):
            s, _ = self.c(s, self.d('empty'), t)
            tf = self.chain(s, t, 'T', '1')
            s, _, buf2, v2 = self.yields(s, tf[0], k)
        elif op != 'move':
            s, _ = self.c(s, self.d('empty'), t)
        if op == 'move':
            s, _ = self.c(s, self.d('move'), t, g)
        elif op in ('assign', 'over'):
            s, _ = self.c(s, self.d('assign'), t, g)
        elif op == 'swap':
            s, _ = self.c(s, self.d('swap'), t, g)
        elif op == 'self':
            s, _ = self.c(s, self.d('swap'), g, g)
            s, _ = self.c(s, self.d('assign'), g, g)
            here(s, g, op)
            self.none_resumed(s, op)
            return self.val_is(s, g, v)
        elif op in ('adopt', 'readopt'):
            s, h = self.c(s, self.d('release'), g)
            self.ok(s, self.same(s, h, P(fr[-1], 0)), 'release gives the handle')
            self.none_resumed(s, 'release')
            s, _ = self.c(s, self.d('reset'), t, h)
            if op == 'readopt':
                self.is_destroy(s, tf[-1], self.take_events(s), 'the old frame is destroyed once')
        elif op in ('clear', 'dtor', 'cleared'):
            s, _ = self.c(s, self.d('dtor' if op == 'dtor' else 'clear'), g)
            self.is_destroy(s, fr[-1], self.take_events(s), 'the frame is destroyed once')
            if op == 'dtor':
                return
            s = self.is_empty_range(s, g, op)
            if op == 'cleared':   # hands over nothing
                s, _ = self.c(s, self.d('assign'), t, g)
                s = self.is_empty_range(s, t, 'assigned from a cleared one')
            s, _ = self.c(s, self.d('dtor'), g)
            self.none_resumed(s, 'an empty one')
            return
        here(s, t, op)
        if op == 'over':
            # the old contents are destroyed now or by the other object
            s, _ = self.c(s, self.d('dtor'), g)
            self.is_destroy(s, tf[-1], self.take_events(s), 'the old frame is destroyed once')
        elif op == 'swap':
            self.chain_is(s, g, tf, '1', 'swapped')
            s = self.val_is(s, g, v2)
        else:
            s = self.is_empty_range(s, g, op)
            s, _ = self.c(s, self.d('dtor'), g)
        self.none_resumed(s, op)
        if op not in ('adopt', 'readopt'):
            s = self.val_is(s, t, v)
        s, _ = self.c(s, self.d('dtor'), t)
        self.is_destroy(s, fr[-1], self.take_events(s), 'the new owner destroys the frame, once')

    def val_is(self, s, g, v):
        if self.ty == 'unit':
            return s
        s = self.isend(s, g, False, 'the current value moves along')
        s, p = self.value(s, g)
        self.ok(s, self.same(s, p, v), 'the current value moves along')
        return s

    def is_empty_range(self, s, g, what):
        it = self.h(s, 'ie')
        s, e = self.c(s, self.d('isempty'), g)
        self.ok(s, simp(zb(tobool(e))), what + ': the object is empty')
        s, _ = self.c(s, self.d('begin'), g, it)
        s, e = self.c(s, self.d('isend'), it)
        self.ok(s, simp(zb(tobool(e))), what + ': and an empty range')
        self.none_resumed(s, what)
        return s


DRIVER = 'c18k.cpp'
TARGETS = []
for ty, n, ks in (('int', 'int', ('rv', 'copy', 'lv', 'ref', 'rcopy')), ('ref', 'int&', ('lv', 'ref')), ('own', 'class', ('rv', 'ref')),
                  ('unit', 'nothing_t', ('rv',))):
    for C, w in ((Init, 'creation'), (Yields, 'yield'), (Attach, 'nested range'), (Final, 'end of a body'), (Raise, 'exception of a body'),
                 (Advance, 'begin and increment'), (Owner, 'moves and ownership')):
        d = dict(name='generator<%s> %s at any depth' % (n, w), ty=ty, driver=DRIVER)
        if C is Yields:
            d['kinds'] = ks
        if C is Attach:
            d['variants'] = ('leaf', 'leaflv', 'rleaf') if ty == 'int' else ('leaf',)
        TARGETS.append(type('%s_%s' % (C.__name__, ty), (C,), d))
TARGETS.append(type('Yields_cpy', (Yields,), dict(name='generator<copyable class> yield at any depth', ty='cpy', driver=DRIVER, kinds=('copy', 'lv'))))
