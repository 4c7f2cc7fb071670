"""C18 generator: exactly the yielded values, in order, nested ranges included; exceptions; moves, swaps, clears."""
from props.gens import *
import os


class GN(Body):
    start = 'start'

    def new(self, s, prog, start=None):
        b = self.load_prog(s, prog)
        g = self.h(s, 'g')
        s, _ = self.c(s, self.d(start or self.start), g, b)
        self.expect(s, [], 'creating a generator runs nothing')
        return s, g, b

    def isempty(self, s, g, want, what):
        s, e = self.c(s, self.d('isempty' if want else 'nonempty'), g)
        self.ok(s, simp(zb(tobool(e))), what)
        return s

    def isend(self, s, it, want, what):
        s, e = self.c(s, self.d('isend'), it)
        e = tobool(e)
        self.ok(s, simp(zb(e if want else bnot(e))), what)
        return s

    def empty_range(self, s, g, what, begin=True):
        s = self.isempty(s, g, True, what + ': empty')
        it = self.h(s, 'ie')
        if begin:
            s, _ = self.c(s, self.d('begin'), g, it)
            s = self.isend(s, it, True, what + ': begin() is end()')
            self.expect(s, [], what + ': nothing runs')
        return s

    def advance(self, s, sem, ref, g, it, style):
        """one increment; -> state, iterator or None, result of the reference"""
        ev = []
        was = ref.done()
        r = ref.resume(ev)
        if was:
            style = 'begin'
        if it is None and style in ('inc', 'postinc'):
            style = 'begin'
        s.g['on'] = True
        if style == 'begin':
            it = self.h(s, 'it')
            o = self.outs(s, self.d('begin'), g, it)
        elif style == 'cur':
            it = self.h(s, 'it')
            s, _ = self.c(s, self.d('cur'), g, it)
            o = self.outs(s, self.d('inc'), it)
        else:
            o = self.outs(s, self.d(style), it)
        if not self.ok(s, len(o) == 1, 'one outcome'):
            raise Stop()
        s, oc = o[0]
        s.g['on'] = False
        if r[0] == 'throw':
            if not self.ok(s, oc[0] == 'throw' and self.is_exc(s, oc[1].ptr), 'an exception of a body reaches the increment'):
                raise Stop()
            self.check_events(s, sem, ev, 'until the exception')
            if self.ty != 'unit' or ref.done():   # units have no current value to look at
                it = self.h(s, 'it')
                s, _ = self.c(s, self.d('cur'), g, it)
                s = self.isend(s, it, True, 'after an exception there is no current value')
            s = self.isempty(s, g, ref.done(), 'a generator whose own body failed is empty, one with a failed nested one can be continued')
            return s, None, r, None
        if not self.ok(s, oc[0] == 'ret', 'the increment does not throw unless a body does'):
            raise Stop()
        self.check_events(s, sem, ev, 'increment')
        if r[0] == 'end':
            s = self.isend(s, it, True, 'at the end: iterator is end()')
            s = self.isempty(s, g, True, 'at the end: empty')
            return s, it, r, None
        s = self.isend(s, it, False, 'not at the end')
        s = self.isempty(s, g, False, 'not at the end: not empty')
        s, p = self.at(s, sem, it, r)
        s, e = self.c(s, self.d('owner'), it, g)
        self.ok(s, simp(zb(tobool(e))), 'the iterator belongs to its generator')
        return s, it, r, p

    def cellp(self, s, p):
        if self.ty == 'own':
            s, q = self.c(s, 'drv_ownp', p)
            return self.ex.norm(self.ex.int2p(q))
        return p

    def at(self, s, sem, it, r, write=True):
        """the current value is the one of cell r[1]; the consumer then overwrites it"""
        s, p = self.c(s, self.d('deref'), it)
        p = self.ex.norm(self.ex.int2p(p))
        if self.ty == 'unit':
            return s, p
        k = r[1]
        q = self.cellp(s, p)
        v = sem.cur.get(k, self.orig(s, k, r[2] == 'conv'))
        self.ok(s, simp(bv(self.ex.load_raw(s, q, 4, None), 32) == v), 'the value is the next yielded one')
        if write:
            w = fbv(32, 'written')
            self.ex.store_raw(s, q, 4, w, None)
            sem.cur[k] = w
        return s, p

    def finish(self, s, sem, ref, g, it, style='inc'):
        for _ in range(40):
            s, it, r, p = self.advance(s, sem, ref, g, it, style)
            if r[0] == 'end':
                break
        s = self.empty_range(s, g, 'after its end')
        return s

    def drop(self, s, g):
        s, _ = self.c(s, self.d('dtor'), g)
        self.expect(s, [], 'destroying runs nothing')
        return s

    # ---- histories: increments, an action between any two of them, then to the end
    def straight(self, st, prog, style):
        self.ex.steps = 0
        s, g, b = self.new(st.fork(), prog)
        sem = Sem(self.ty, s.g['code'])
        s = self.finish(s, sem, Ref(sem, b), g, None, style)
        s = self.drop(s, g)
        self.all_dead(s)

    def histories(self, st, prog, actions, styles):
        s, g, b = self.new(st.fork(), prog)
        sem = Sem(self.ty, s.g['code'])
        ref = Ref(sem, b)
        it = p = r = None
        s = self.isempty(s, g, False, 'a generator that was not started is not empty')
        for k in range(40):
            for j, a in enumerate(actions):
                self.ex.steps = 0
                m = sem.copy()
                f = ref.copy(m)
                s2, g2, it2, done = getattr(self, 'a_' + a)(s.fork(), m, f, g, it, r, p)
                if not done:
                    s2 = self.finish(s2, m, f, g2, it2, styles[(k + j) % len(styles)])
                    s2 = self.drop(s2, g2)
                self.all_dead(s2)
            if r is not None and r[0] == 'end':
                break
            s, it, r, p = self.advance(s, sem, ref, g, it, styles[(k + self.i) % len(styles)])
        s = self.drop(s, g)
        self.all_dead(s)

    def mk_empty(self, s):
        t = self.h(s, 't')
        s, _ = self.c(s, self.d('empty'), t)
        return s, t

    OTHER = {'int': ('v', 'r'), 'ref': ('r', 'q'), 'own': ('v', 'r'), 'unit': ('v', 'v')}

    def other(self, s, sem):
        """another generator at its first value"""
        s, t, b = self.new(s, self.OTHER[self.ty], 'start')
        sem.code = s.g['code']
        r2 = Ref(sem, b)
        s, it, r, p = self.advance(s, sem, r2, t, None, 'begin')
        return s, t, r2, it, r, p

    def a_move(self, s, sem, ref, g, it, r, p):
        t = self.h(s, 't')
        s, _ = self.c(s, self.d('move'), t, g)
        self.expect(s, [], 'moving runs nothing')
        s = self.empty_range(s, g, 'moved-from')
        s = self.drop(s, g)
        return s, t, None, False

    def a_assign(self, s, sem, ref, g, it, r, p):
        s, t = self.mk_empty(s)
        s = self.empty_range(s, t, 'default constructed')
        s, _ = self.c(s, self.d('assign'), t, g)
        self.expect(s, [], 'moving runs nothing')
        s = self.empty_range(s, g, 'moved-from')
        s = self.drop(s, g)
        return s, t, None, False

    def a_over(self, s, sem, ref, g, it, r, p):
        """assignment over a generator in use"""
        s, t, r2, it2, _, _ = self.other(s, sem)
        s, _ = self.c(s, self.d('assign'), t, g)
        self.expect(s, [], 'moving runs nothing')
        s = self.drop(s, g)
        return s, t, None, False

    def a_intoempty(self, s, sem, ref, g, it, r, p):
        """cleared, then assigned another one"""
        s, t, r2, it2, _, _ = self.other(s, sem)
        s, _ = self.c(s, self.d('clear'), g)
        self.expect(s, [], 'clear runs nothing')
        s, _ = self.c(s, self.d('assign'), g, t)
        s = self.empty_range(s, t, 'assigned from')
        s = self.drop(s, t)
        s = self.finish(s, sem, r2, g, None)
        s = self.drop(s, g)
        return s, None, None, True

    def a_swap(self, s, sem, ref, g, it, r, p, op='swap'):
        s, t, r2, it2, rr2, p2 = self.other(s, sem)
        s, _ = self.c(s, self.d(op), t, g)
        self.expect(s, [], 'swapping runs nothing')
        if p is not None:   # the iterator of t now stands at our current value
            s, q = self.c(s, self.d('deref'), it2)
            self.ok(s, self.same(s, q, p), 'the current value moves along')
        s = self.fin_ours(s, sem, ref, t, it2, r)
        if it is not None:
            s, q = self.c(s, self.d('deref'), it)
            self.ok(s, self.same(s, q, p2), 'the current value of the other moves along')
        s = self.finish(s, sem, r2, g, it)
        s = self.drop(s, g)
        s = self.drop(s, t)
        return s, None, None, True

    def fin_ours(self, s, sem, ref, t, it, r):
        return self.finish(s, sem, ref, t, it)

    def a_fswap(self, *a):
        return self.a_swap(*a, op='fswap')

    def a_self(self, s, sem, ref, g, it, r, p):
        for op in ('assign', 'swap'):
            s, _ = self.c(s, self.d(op), g, g)
        if p is not None:
            s, q = self.c(s, self.d('deref'), it)
            self.ok(s, self.same(s, q, p), 'self-assignment and self-swap change nothing')
        return s, g, it, False

    def a_adopt(self, s, sem, ref, g, it, r, p, cur=False):
        """released, adopted by another one"""
        s, h0 = self.c(s, self.d('raw'), g)
        s, h = self.c(s, self.d('release'), g)
        self.ok(s, self.same(s, h, h0), 'release returns the handle')
        s = self.empty_range(s, g, 'released')
        s, t = self.mk_empty(s)
        s, _ = self.c(s, self.d('reset'), t, h)
        s = self.drop(s, g)
        self.expect(s, [], 'reset runs nothing')
        return s, t, None, False

    def a_readopt(self, s, sem, ref, g, it, r, p):
        """released, adopted by one that was in use: its old frames are destroyed"""
        s, t, r2, it2, _, _ = self.other(s, sem)
        n = len(self.live_heap(s))
        s, h = self.c(s, self.d('release'), g)
        self.ok(s, len(self.live_heap(s)) == n, 'release destroys nothing')
        s, _ = self.c(s, self.d('reset'), t, h)
        self.ok(s, len(self.live_heap(s)) < n, 'reset destroys the old frame')
        s = self.drop(s, g)
        self.expect(s, [], 'reset runs nothing')
        return s, t, None, False

    def a_clear(self, s, sem, ref, g, it, r, p):
        s, _ = self.c(s, self.d('clear'), g)
        self.expect(s, [], 'clear runs nothing')
        self.all_dead(s, 'after clear')
        s = self.empty_range(s, g, 'cleared')
        s, _ = self.c(s, self.d('clear'), g)
        s = self.drop(s, g)
        return s, None, None, True

    def a_clearassign(self, s, sem, ref, g, it, r, p):
        """what was cleared hands over nothing"""
        s, _ = self.c(s, self.d('clear'), g)
        s, t = self.mk_empty(s)
        s, _ = self.c(s, self.d('assign'), t, g)
        s = self.empty_range(s, t, 'assigned from a cleared one')
        s = self.empty_range(s, g, 'cleared')
        s = self.drop(s, g)
        s = self.drop(s, t)
        return s, None, None, True

    def a_releaseassign(self, s, sem, ref, g, it, r, p):
        s, h = self.c(s, self.d('release'), g)
        s, t = self.mk_empty(s)
        s, _ = self.c(s, self.d('swap'), t, g)
        s = self.empty_range(s, t, 'assigned from a released one')
        s = self.drop(s, t)
        s, _ = self.c(s, self.d('reset'), g, h)
        return s, g, None, False

    def a_dtor(self, s, sem, ref, g, it, r, p):
        s = self.drop(s, g)
        return s, None, None, True

    ACTIONS = ('move', 'assign', 'over', 'intoempty', 'swap', 'fswap', 'self', 'adopt', 'readopt', 'clear', 'clearassign', 'releaseassign', 'dtor')


class Progs(GN):
    """every program of the list: straight runs in every style, then every action between any two increments"""
    progs = ()
    styles = ('begin', 'inc', 'postinc', 'cur')
    actions = GN.ACTIONS
    budget = 800

    max_cases = 5000

    def list(self):
        return list(self.progs)

    def setup(self, ex, st):
        r = GN.setup(self, ex, st)
        ps = self.list()
        self.i = ex.choose('program', Show(range(len(ps)), ps))
        self.prog = ps[self.i]
        return r

    def play(self, st):
        try:
            for style in self.styles:
                self.straight(st, self.prog, style)
            self.histories(st, self.prog, self.actions, ('inc', 'begin'))
        except Stop:
            if os.environ.get('KVC_DEBUG'):
                print('program', self.prog, getattr(self, 'why', None))
            raise


class Show(list):
    """choice of an index, shown in reports as the program"""

    def __init__(self, xs, names):
        list.__init__(self, [Idx(x) for x in xs])
        for x in self:
            x.name = names[x]


class Idx(int):
    def __str__(self):
        return show(self.name)


def show(p):
    return '[' + ' '.join(x if isinstance(x, str) else x[0] + (str(x[1]) if len(x) > 2 else '') + show(x[-1]) for x in p) + ']'


class Small(Progs):
    """all programs with at most N nodes"""
    size, items, part = 3, ('v', 'r', 'X', 'leaf', 'part0', 'part1', 'part2', 'range'), (0, 1)

    def list(self):
        k, n = self.part
        return programs(self.size, self.items)[k::n]


L = lambda *p: ('leaf', p)
PT = lambda n, *p: ('part', n, p)
PM = lambda n, *p: ('partm', n, p)
DEEP = [
    (L(L(L('v', 'r'), 'v'), 'c'), 'm'),
    ('v', L('r', L('v', 'X', 'v'), 'c', L('X')), 'v', 'X', 'v'),
    (PT(2, 'v', L('v', 'v', 'r', 'v'), 'v'), 'v'),
    (PM(2, L('v', L('r', 'v', 'v')), 'v'), 'v', L(PT(1, L('v', 'X'), 'v'), 'v')),
    (L(PT(1, L(PT(1, 'v', 'r', 'v'), 'v'), 'r')), 'range', 'v'),
    (PT(3, L(L('v', 'v'), 'v'), L('v', 'X', 'v'), 'v'), 'none', 'v'),
    (('rleaf', ('v', L('r'), 'r', 'c')), ('sleaf', ('v', ('rleaf', ('r', 'm')), 'c')), 'v'),
    (('rleaf', ('v', 'X')), ('sleaf', ('X',)), ('rleaf', (PT(1, 'v', 'r'),)), 'v'),
    (('conv', ('v', 'v')), 'v', L(('conv', ('v', 'X', 'v')), 'v'), ('conv', ())),
    ('range', L('range', 'X'), L('range'), 'none', L('none')),
    (L(), L(L()), PT(1), PM(2, L()), L(L(L('v')))),
    (L('X'), L(L('X')), 'v', L(L('v', 'X'), 'v')),
    (PT(2, L('X'), 'v'), 'v'),
    ('v', 'c', 'r', 'm', 'range', 'none', 'X'),
    (PT(1, L('X', 'v'), 'v'), 'v'),
    (L(PT(1, PT(1, 'v', 'v'), 'v'), L('X')), L('v')),
]

PROPERTY = 'C18'
DRIVER = 'c18.cpp'
TARGETS = []
N = 4
TARGETS.append(type('Small2', (Small,), dict(name='generator<int> programs of at most 2 nodes', size=2)))
for i in range(N):
    TARGETS.append(type('Small3_%d' % i, (Small,), dict(name='generator<int> programs of at most 3 nodes (%d of %d)' % (i + 1, N), part=(i, N), bounded_only=True,
                                                      actions=('move', 'swap', 'adopt', 'clear', 'dtor'), styles=('begin', 'inc'))))
for st_, nm in (('start', 'plain'), ('startr', 'stateless resource'), ('starts', 'stateful resource')):
    TARGETS.append(type('Deep_' + st_, (Progs,), dict(name='generator<int> deep programs, ' + nm, progs=DEEP, start=st_)))
for ty, items in (('ref', ('r', 'q', 'X', 'leaf', 'part1')), ('own', ('v', 'r', 'q', 'X', 'leaf')), ('unit', ('v', 'X', 'leaf'))):
    TARGETS.append(type('Small_' + ty, (Small,), dict(name='generator<%s> programs of at most 2 nodes' % {'ref': 'int&', 'own': 'class', 'unit': 'nothing_t'}[ty],
                                                     ty=ty, items=items, size=2, part=(0, 1))))
for t_ in TARGETS:
    t_.bounded_only = True
    t_.weight = 5
import props.c18k as K
TARGETS = TARGETS + K.TARGETS
