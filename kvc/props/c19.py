"""C19 channel: each await gives the consumer exactly the next element or the end, one resumption per await; nested ranges;
exceptions reach the consumer once; moves, swaps, clears between elements."""
from props.gens import *
import props.c18 as G
import os, sys


class Consumer:
    """a scripted consumer coroutine; iterator slots by object"""

    def __init__(self, c):
        self.c = c


class CH(G.GN):
    more = (('dropped', 1), ('none', 1))
    ACTIONS = tuple(a for a in G.GN.ACTIONS) + ('other', 'same', 'pending')

    def setup(self, ex, st):
        super().setup(ex, st)
        st.g.update(got=(), script=None, parks={}, its={}, ncons=0)
        o = ex.overrides

        def got(kind, n):
            def h(ex, st, a, I):
                x = (kind, a[0]) + tuple(a[1:n])
                if kind == 'failed':
                    x = (kind, a[0], st.caught[-1] if st.caught else NULL)
                st.g['got'] = st.g['got'] + (x,)
            return h

        def nxt(ex, st, a, I):
            s = st.g['script']
            if not ex.prove(st, s is not None and s[0] == a[0], 'only the waiting consumer is resumed', I):
                return []
            st.g['script'] = (s[0], None, s[2], s[3])
            return s[1]
        o[:0] = [(re.compile(r'^ext_here$'), got('here', 2)), (re.compile(r'^ext_end$'), got('end', 1)), (re.compile(r'^ext_failed$'), got('failed', 1)),
                 (re.compile(r'^ext_next$'), nxt), (re.compile(r'^ext_chan$'), lambda ex, st, a, I: st.g['script'][2]),
                 (re.compile(r'^ext_slot$'), lambda ex, st, a, I: st.g['script'][3]),
                 (re.compile(r'^ext_park$'), lambda ex, st, a, I: st.g['parks'][a[0]])]
        self.gatecell = self.cell(st, 'gate')
        return []

    # ---- consumers
    def consumer(self, s):
        c = s.g['ncons']
        s.g['ncons'] += 1
        s.g['parks'] = {**s.g['parks'], **{c: self.cell(s, 'park%d' % c)}}
        s, h = self.c(s, self.d('consumer'), c)
        s.g['ch'] = {**s.g.get('ch', {}), **{c: h}}
        self.run(s, h)
        s, _ = self.c(s, 'drv_resume', h)
        s.g['its'] = {**s.g['its'], **{c: {0: None, 1: None}}}
        return s, c

    def run(self, s, h):
        s.g['on'] = True

    def parked(self, s, c):
        v = self.ex.int2p(self.rd(s, s.g['parks'][c]))
        return self.same(s, v, s.g['ch'][c])

    def step(self, s, c, op, g, slot=0):
        """one operation of a consumer, up to the point where control comes back"""
        s.g['script'] = (c, op, g, slot)
        s.g['got'] = ()
        s.g['on'] = op in (1, 2, 3, 6)
        p = s.g['parks'][c]
        h = self.rd(s, p)
        self.ex.store_raw(s, p, 8, NULL, None)
        s, _ = self.c(s, 'drv_resume', h)
        return s

    def slot_of(self, s, c, g):
        its = s.g['its'][c]
        for k in (0, 1):
            if its[k] is not None and self.same(s, its[k], g) is True:
                return k
        return None

    def set_slot(self, s, c, k, g):
        d = dict(s.g['its'])
        d[c] = {**d[c], **{k: g}}
        s.g['its'] = d

    def free_slot(self, s, c):
        its = s.g['its'][c]
        for k in (0, 1):
            if its[k] is None:
                return k
        return 0

    def drop_it(self, s, c, k, exc=False):
        """destroys an iterator"""
        s = self.step(s, c, 4, NULL, k)
        self.set_slot(s, c, k, None)
        if exc:
            self.delivered(s, c)
        else:
            self.ok(s, s.g['got'] == (), 'nothing is thrown to a consumer unless a body failed')
            self.expect(s, [('dropped', c)], 'an iterator is destroyed')
        self.ok(s, self.parked(s, c), 'the consumer goes on')
        return s

    def delivered(self, s, c):
        g = s.g['got']
        s.g['got'] = ()
        self.ok(s, len(g) == 1 and g[0][:2] == ('failed', c) and self.is_exc(s, g[0][2]), 'the exception of the body reaches the consumer')
        self.expect(s, [], 'nothing else runs')

    def empty_range(self, s, g, what, begin=True):
        s = self.isempty(s, g, True, what + ': empty')
        if not begin:
            return s
        s, c = self.consumer(s)
        for op in (1, 3):
            s = self.step(s, c, op, g)
            self.ok(s, s.g['got'] == (('end', c),), what + ': awaiting gives the end at once')
            self.ok(s, self.parked(s, c), what + ': the consumer goes on')
            self.expect(s, [], what + ': nothing runs')
            if op == 1:
                s = self.drop_it(s, c, 0)
        s = self.step(s, c, 5, g)
        self.ok(s, s.g['got'] == (('none', c),) or s.g['got'] == (), what + ': no exception')
        self.expect(s, [('none', c)], what + ': no exception')
        return self.end_consumer(s, c)

    def end_consumer(self, s, c):
        for k in (0, 1):
            if s.g['its'][c][k] is not None:
                s = self.drop_it(s, c, k)
        s = self.step(s, c, 0, NULL)
        s, d = self.c(s, 'drv_destroy', s.g['ch'][c])
        self.ok(s, simp(zb(tobool(d))), 'the consumer ran to its end')
        its = dict(s.g['its'])
        del its[c]
        s.g['its'] = its
        return s

    def drop_all(self, s):
        for c in list(s.g['its']):
            s = self.end_consumer(s, c)
        return s

    def drop(self, s, g):
        # iterators of the channel first
        for c in list(s.g['its']):
            k = self.slot_of(s, c, g)
            if k is not None:
                s = self.drop_it(s, c, k)
        return G.GN.drop(self, s, g)

    def all_dead(self, s, what='at the end'):
        s = self.drop_all(s)
        G.GN.all_dead(self, s, what)

    # ---- one increment
    def advance(self, s, sem, ref, g, it, style):
        """it: the consumer that awaited this channel last, or None"""
        sem.chan = True
        ev = []
        was = ref.done()
        r = ref.resume(ev)
        c = it
        if c is None or c not in s.g['its']:
            s, c = self.consumer(s)
            it = None
        k = self.slot_of(s, c, g)
        if style == 'inc' and (it is None or was):
            style = 'begin'
        if style == 'fresh':   # another consumer continues
            if it is not None:
                if k is not None:
                    s = self.drop_it(s, c, k)
                s, c = self.consumer(s)
                k = None
            style = 'begin'
        if style == 'begin':
            if k is not None:
                s = self.drop_it(s, c, k)
            k = self.free_slot(s, c)
            self.set_slot(s, c, k, g)
            s = self.step(s, c, 1, g, k)
        elif style == 'inc':
            if k is None:
                k = self.free_slot(s, c)
                self.set_slot(s, c, k, g)
                s = self.step(s, c, 7, g, k)
            s = self.step(s, c, 2, g, k)
        else:
            s = self.step(s, c, 3, g)
        while r[0] == 'gate':
            self.check_events(s, sem, ev, 'until the body suspends')
            ev = []
            self.ok(s, s.g['got'] == () and not self.is_true(self.parked(s, c)), 'the consumer waits while the body is suspended')
            h = self.rd(s, self.gatecell)
            self.ex.store_raw(s, self.gatecell, 8, NULL, None)
            r = ref.resume(ev)
            s, _ = self.c(s, 'drv_resume', h)
        s.g['on'] = False
        self.check_events(s, sem, ev, 'await')
        got = s.g['got']
        if not self.ok(s, len(got) == 1 and got[0][1] == c, 'the waiting consumer is resumed exactly once'):
            raise Stop()
        if not self.ok(s, self.parked(s, c), 'the consumer goes on'):
            raise Stop()
        kind = got[0][0]
        if r[0] in ('throw', 'end'):
            if not self.ok(s, kind == 'end', 'the consumer sees the end'):
                raise Stop()
            s = self.isempty(s, g, ref.done(), 'a channel whose own body failed or ended is empty, one with a failed nested one can be continued')
            if r[0] == 'throw':
                s = self.exception(s, g, c, k, style)
                self.at_is(s, g, None)
                return s, None, r, None
            self.at_is(s, g, None)
            k = self.slot_of(s, c, g)
            if k is not None:
                s = self.drop_it(s, c, k)
            s = self.no_exc(s, c, g)
            return s, c, r, None
        if not self.ok(s, kind == 'here', 'the consumer gets an element'):
            raise Stop()
        s = self.isempty(s, g, False, 'not at the end: not empty')
        p = self.ex.norm(self.ex.int2p(got[0][2]))
        self.at_is(s, g, p)
        s, p = self.elem(s, sem, p, r)
        return s, c, r, p

    def is_true(self, x):
        return x is True or (z3.is_expr(x) and z3.is_true(simp(x)))

    def no_exc(self, s, c, g):
        s = self.step(s, c, 5, g)
        self.expect(s, [('none', c)], 'no exception unless a body failed')
        return s

    def exception(self, s, g, c, k, style):
        """the exception is thrown to the consumer, once: by its iterator, or by take_exception after next()"""
        if self.slot_of(s, c, g) is not None and style != 'next':
            s = self.drop_it(s, c, self.slot_of(s, c, g), exc=True)
        else:
            self.n_exc = getattr(self, 'n_exc', 0) + 1
            w = g
            if self.n_exc % 3 == 1:   # it moves along
                s, w = self.mk_empty(s)
                s, _ = self.c(s, self.d('assign'), w, g)
                s = self.no_exc(s, c, g)
            elif self.n_exc % 3 == 2:   # it is swapped away, from the left or from the right
                s, w = self.mk_empty(s)
                l, m = (g, w) if self.n_exc % 2 == 0 else (w, g)
                s, _ = self.c(s, self.d('swap' if self.n_exc % 4 < 2 else 'fswap'), l, m)
                self.expect(s, [], 'swapping runs nothing')
                s = self.no_exc(s, c, g)
            if self.n_exc % 2 == 1 and self.slot_of(s, c, w) is not None:
                s = self.drop_it(s, c, self.slot_of(s, c, w), exc=True)
            else:
                s = self.step(s, c, 5, w)
                self.delivered(s, c)
            if w is not g:
                s, _ = self.c(s, self.d('assign'), g, w)
                s = self.no_exc(s, c, w)
                s, _ = self.c(s, self.d('dtor'), w)
        return self.no_exc(s, c, g)

    def elem(self, s, sem, p, r):
        k = r[1]
        s, q = self.cellp(s, p), None
        if isinstance(s, tuple):
            s, q = s
        else:
            q = p
        v = sem.cur.get(k, self.orig(s, k, r[2] == 'conv'))
        self.ok(s, simp(bv(self.ex.load_raw(s, q, 4, None), 32) == v), 'the value is the next yielded one')
        w = fbv(32, 'written')
        self.ex.store_raw(s, q, 4, w, None)
        sem.cur[k] = w
        return s, p

    def cellp(self, s, p):
        if self.ty == 'own':
            s, q = self.c(s, 'drv_ownp', p)
            return s, self.ex.norm(self.ex.int2p(q))
        return s, p

    def at_is(self, s, g, p):
        """the current element of the channel object"""
        s, q = self.c(s, self.d('at'), g)
        self.ok(s, self.same(s, q, p if p is not None else NULL), 'the channel object shows the current element')

    # ---- actions that speak about iterators
    def a_swap(self, s, sem, ref, g, it, r, p, op='swap'):
        s, t, r2, it2, rr2, p2 = self.other(s, sem)
        s, _ = self.c(s, self.d(op), t, g)
        self.expect(s, [], 'swapping runs nothing')
        if p is not None:
            self.at_is(s, t, p)
        self.at_is(s, g, p2)
        # each consumer continues its own elements in their new place
        sty = ('inc', 'begin', 'next')[self.i % 3]
        if it is None:
            sty = 'begin'
        s = self.clear_its(s)
        s = self.finish(s, sem, ref, t, it, sty)
        s = self.finish(s, sem, r2, g, it2, ('begin', 'inc')[self.i % 2])
        s = self.drop(s, g)
        s = self.drop(s, t)
        return s, None, None, True

    def clear_its(self, s):
        for c in list(s.g['its']):
            for k in (0, 1):
                if s.g['its'][c][k] is not None:
                    s = self.drop_it(s, c, k)
        return s

    def a_same(self, s, sem, ref, g, it, r, p):
        """one consumer iterates both channels, their contents are swapped under its iterators"""
        if it is None:
            return self.a_self(s, sem, ref, g, it, r, p)
        s, t, b = self.new(s, self.OTHER[self.ty], 'start')
        sem.code = s.g['code']
        r2 = Ref(sem, b)
        s, it2, rr2, p2 = self.advance(s, sem, r2, t, it, 'begin')
        self.ok(s, it2 == it, 'same consumer')
        s, _ = self.c(s, self.d('swap'), g, t)
        if p is not None:
            self.at_is(s, t, p)
        self.at_is(s, g, p2)
        if not ref.done():
            s, _, _, _ = self.advance(s, sem, ref, t, it, 'inc')
        s = self.finish(s, sem, r2, g, it, 'inc')
        s = self.finish(s, sem, ref, t, it if it in s.g['its'] else None, 'inc')
        s = self.drop(s, g)
        s = self.drop(s, t)
        return s, None, None, True

    def a_self(self, s, sem, ref, g, it, r, p):
        for op in ('assign', 'swap'):
            s, _ = self.c(s, self.d(op), g, g)
        if p is not None:
            self.at_is(s, g, p)
        return s, g, it, False

    def moved(self, x):
        """the consumer goes on with the channel in its new place (its iterators to the old one are dropped)"""
        s, t, it, done = x
        return s, t, it, done

    def a_move(self, s, sem, ref, g, it, r, p):
        t = self.h(s, 't')
        s, _ = self.c(s, self.d('move'), t, g)
        self.expect(s, [], 'moving runs nothing')
        if p is not None:
            self.at_is(s, t, p)
        s = self.clear_its(s)
        s = self.empty_range(s, g, 'moved-from')
        s = self.drop(s, g)
        return s, t, it, False

    def a_assign(self, s, sem, ref, g, it, r, p):
        s, t = self.mk_empty(s)
        s = self.empty_range(s, t, 'default constructed')
        s, _ = self.c(s, self.d('assign'), t, g)
        if p is not None:
            self.at_is(s, t, p)
        self.expect(s, [], 'moving runs nothing')
        s = self.clear_its(s)
        s = self.empty_range(s, g, 'moved-from')
        s = self.drop(s, g)
        return s, t, it, False

    def a_over(self, s, sem, ref, g, it, r, p):
        s, t, r2, it2, _, _ = self.other(s, sem)
        s, _ = self.c(s, self.d('assign'), t, g)
        self.expect(s, [], 'moving runs nothing')
        s = self.clear_its(s)
        s = self.drop(s, g)
        return s, t, it, False

    def a_other(self, s, sem, ref, g, it, r, p):
        """another consumer takes over, then the first one again"""
        if ref.done():
            return s, g, None, False
        s, it2, r, p = self.advance(s, sem, ref, g, it, 'fresh')
        if it2 is not None and it is not None and not ref.done():
            s, it3, r, p = self.advance(s, sem, ref, g, it, 'next')
            it2 = it3
        return s, g, it2, False

    def a_pending(self, s, sem, ref, g, it, r, p):
        """a co_foreach loop consumes the rest"""
        if ref.done():
            return s, g, None, False
        s = self.clear_its(s)
        sem.chan = True
        s, c = self.consumer(s)
        first = True
        while True:
            ev = []
            rr = ref.resume(ev)
            if first:
                s = self.step(s, c, 6, g)
                first = False
            else:
                s.g['got'] = ()
                s.g['on'] = True
                h = self.rd(s, s.g['parks'][c])
                self.ex.store_raw(s, s.g['parks'][c], 8, NULL, None)
                s, _ = self.c(s, 'drv_resume', h)
            while rr[0] == 'gate':
                self.check_events(s, sem, ev, 'until the body suspends')
                ev = []
                self.ok(s, s.g['got'] == (), 'the consumer waits while the body is suspended')
                h = self.rd(s, self.gatecell)
                self.ex.store_raw(s, self.gatecell, 8, NULL, None)
                rr = ref.resume(ev)
                s, _ = self.c(s, 'drv_resume', h)
            s.g['on'] = False
            self.check_events(s, sem, ev, 'co_foreach')
            got = s.g['got']
            if not self.ok(s, got and got[0][1] == c, 'the waiting consumer is resumed'):
                raise Stop()
            if rr[0] == 'val':
                if not self.ok(s, len(got) == 1 and got[0][0] == 'here', 'co_foreach: the next element'):
                    raise Stop()
                s, _ = self.elem(s, sem, self.ex.norm(self.ex.int2p(got[0][2])), rr)
                continue
            if rr[0] == 'throw':
                if not self.ok(s, got[0][0] == 'end' or got[0][0] == 'failed', 'co_foreach ends'):
                    raise Stop()
                self.ok(s, got[-1][0] == 'failed' and self.is_exc(s, got[-1][2]), 'co_foreach throws the exception of the body')
                self.ok(s, len(got) == 1, 'once')
                s = self.no_exc(s, c, g)
            else:
                self.ok(s, got == (('end', c),), 'co_foreach ends without exception')
            break
        s = self.isempty(s, g, ref.done(), 'after co_foreach: empty unless a nested one failed')
        return s, g, None, False


class Progs(CH, G.Progs):
    styles = ('begin', 'inc', 'next', 'fresh')
    actions = CH.ACTIONS

    def finish(self, s, sem, ref, g, it, style='inc'):
        for _ in range(40):
            s, it, r, p = self.advance(s, sem, ref, g, it, style)
            if r[0] == 'end':
                break
        return self.empty_range(s, g, 'after its end')


class Small(Progs):
    """all programs with at most N nodes"""
    size, items, part = 3, ('v', 'r', 'X', 'gate', 'leaf', 'part0', 'part1', 'part2', 'range'), (0, 1)

    def list(self):
        k, n = self.part
        return programs(self.size, self.items)[k::n]


L, PT, PM = G.L, G.PT, G.PM
DEEP = G.DEEP + [
    ('gate', 'v', L('gate', 'v', L('v', 'gate', 'r'), 'gate'), 'gate'),
    (PT(2, 'gate', L('v', 'gate', 'v'), 'gate', 'v'), 'gate', 'v'),
    (L('gate', 'X'), 'gate', L(L('v', 'gate', 'X', 'v'), 'gate'), 'v', 'gate', 'X'),
    (PT(1, L('gate', 'X'), 'v'), 'v'),
]
PROPERTY = 'C19'
DRIVER = 'c19.cpp'
TARGETS = []
N = 3
for i in range(4):
    TARGETS.append(type('Small2_%d' % i, (Small,), dict(name='channel<int> programs of at most 2 nodes (%d of 4)' % (i + 1), size=2, part=(i, 4))))
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv
for i in range(N):
    TARGETS.append(type('Small3_%d' % i, (Small,), dict(name='channel<int> programs of at most 3 nodes (%d of %d)' % (i + 1, N), part=(i, N),
                                                      items=Small.items if THOROUGH else ('v', 'X', 'gate', 'leaf', 'part1'),
                                                      actions=('move', 'same', 'adopt', 'other', 'clear'), styles=('begin', 'inc', 'next'))))
for st_, nm in (('start', 'plain'), ('startr', 'stateless resource'), ('starts', 'stateful resource')):
    TARGETS.append(type('Deep_' + st_, (Progs,), dict(name='channel<int> deep programs, ' + nm, progs=DEEP, start=st_)))
for ty, items in (('ref', ('r', 'q', 'X', 'leaf', 'part1', 'gate')), ('own', ('v', 'r', 'q', 'X', 'leaf', 'gate'))):
    TARGETS.append(type('Small_' + ty, (Small,), dict(name='channel<%s> programs of at most 2 nodes' % {'ref': 'int&', 'own': 'class'}[ty],
                                                     ty=ty, items=items, size=2, part=(0, 1))))
for t_ in TARGETS:
    t_.bounded_only = True
    t_.weight = 5
import props.c19k as K
TARGETS = TARGETS + K.TARGETS
