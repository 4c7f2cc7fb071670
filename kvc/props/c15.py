"""C15 task: lazy, runs once, notifies its context in order, hands its outcome to exactly its awaiter."""
from props.common import *
from props.scen import *


class TK(Scen):
    events = (('owner', 2), ('start', 1), ('end', 1))
    ty = 'int'

    def d(self, op):
        return 'drv_%s_%s' % (op, self.ty)

    def setup(self, ex, st):
        self.base(ex, st)
        self.res = ex.choose('body', ['returns', 'throws'])
        self.gate = ex.choose('gate', [True, False])
        return [self.h(st, 't')]

    def new(self, st, gate=None):
        """a fresh task -> state, task, frame; nothing has run"""
        t = self.h(st, 'task')
        g = self.cell(st, 'gate')
        n = len(st.g.get('heap', ()))
        s, _ = self.c(st, self.d('start'), t, g if (self.gate if gate is None else gate) else NULL)
        heap = s.g['heap'][n:]
        self.ok(s, len(heap) == 1 and not s.g['tr'], 'creating a task allocates its frame and runs nothing')
        s.g['fr'], s.g['g'] = P(heap[0], 0), g
        s, e = self.c(s, self.d('nonempty'), t)
        self.ok(s, simp(zb(tobool(e))), 'a new task is not empty')
        return s, t, s.g['fr'], g

    def run_gate(self, s, what, before, after):
        """the body ran to its gate (or to its end); continue it"""
        if self.gate:
            self.expect(s, before, what + ', until the body suspends')
            s.g['parked'] = None
            s, _ = self.c(s, 'drv_resume', self.rd(s, s.g['g']))
            self.expect(s, after, what + ', after the body is resumed')
        else:
            self.expect(s, before + after, what)
        return s

    def isempty(self, s, t, want, what):
        s, e = self.c(s, self.d('isempty' if want else 'nonempty'), t)
        self.ok(s, simp(zb(tobool(e))), what)
        return s

    def drop(self, s, t, fr, what='the owner destroys the frame'):
        if fr is not None:
            self.ok(s, fr.base not in s.dead, 'the frame lives until its owner lets go')
        s, _ = self.c(s, self.d('dtor'), t)
        self.expect(s, [], 'destroying a task runs nothing')
        if fr is not None:
            self.ok(s, fr.base in s.dead, what)
        return s

    def mk_owner(self, s, t, op='owner', *a):
        s, o = self.c(s, self.d(op), t, *a)
        self.expect(s, [], 'making the owner runs nothing')
        return s, self.ex.norm(self.ex.int2p(o))

    def await_(self, s, t, fr, first=True, gate=None):
        """an owner coroutine awaits the task; everything up to the owner's end"""
        s, o = self.mk_owner(s, t)
        s, _ = self.c(s, 'drv_resume', o)
        if first:
            s = self.run_gate(s, 'await', [('owner', o, fr), ('start', fr), ('body',)], [('end', fr), self.seen(s)])
        else:
            self.expect(s, [self.seen(s)], 'awaiting a finished task gives its outcome again and runs nothing')
        s, dn = self.c(s, 'drv_done', o)
        self.ok(s, simp(zb(tobool(dn))), 'the owner ran on to its end')
        s, dn = self.c(s, 'drv_done', fr)
        self.ok(s, simp(zb(tobool(dn))), 'the task is done')
        s, _ = self.c(s, 'drv_destroy', o)
        self.ok(s, o.base in s.dead and fr.base not in s.dead, 'the frame still belongs to the task')
        return s


class Await(TK):
    def play(self, st):
        s, t, fr, g = self.new(st)
        s = self.await_(s, t, fr)
        if self.ty != 'own':
            s = self.await_(s, t, fr, False)
        s = self.drop(s, t, fr)
        self.all_dead(s)
        # awaited through moved tasks
        s, t, fr, g = self.new(st.fork())
        t2 = self.h(s, 't2')
        s, _ = self.c(s, self.d('move'), t2, t)
        s = self.isempty(s, t, True, 'a moved-from task is empty')
        s = self.await_(s, t2, fr)
        t3 = self.h(s, 't3')
        s, _ = self.c(s, self.d('empty'), t3)
        s, _ = self.c(s, self.d('assign'), t3, t2)
        s = self.isempty(s, t2, True, 'a task is empty after it was moved into an empty one')
        s = self.drop(s, t, None)
        s = self.drop(s, t2, None)
        s = self.drop(s, t3, fr)
        self.all_dead(s)


class Wait(TK):
    def play(self, st):
        s, t, fr, g = self.new(st)
        s, o = self.mk_owner(s, t, 'waiter')
        s, _ = self.c(s, 'drv_resume', o)
        s = self.run_gate(s, 'wait', [('owner', o, fr), ('start', fr), ('body',)], [('end', fr), ('event', 1)])
        s, _ = self.c(s, 'drv_destroy', o)
        s = self.get_done(s, t, fr)
        s = self.drop(s, t, fr)
        self.all_dead(s)
        # waiting for a finished one does not run it again
        s, t, fr, g = self.new(st.fork())
        s = self.await_(s, t, fr)
        s, o = self.mk_owner(s, t, 'waiter')
        s, _ = self.c(s, 'drv_resume', o)
        self.expect(s, [('event', 1)], 'waiting for a finished task runs nothing')
        s, _ = self.c(s, 'drv_destroy', o)
        s = self.drop(s, t, fr)
        self.all_dead(s)
        # the context sees the proxy as owner, control comes back to the awaiting coroutine
        s, t, fr, g = self.new(st.fork())
        s, pr = self.mk_owner(s, t, 'waiter')
        s, o = self.mk_owner(s, t, 'proxied', pr)
        s, _ = self.c(s, 'drv_resume', o)
        s = self.run_gate(s, 'wait with a proxy owner', [('owner', pr, fr), ('start', fr), ('body',)],
                          [('end', fr), ('event', 1)])
        s, dn = self.c(s, 'drv_done', o)
        self.ok(s, simp(zb(tobool(dn))), 'the awaiting coroutine ran on, not the proxy')
        s, _ = self.c(s, 'drv_destroy', o)
        s, _ = self.c(s, 'drv_destroy', pr)
        s = self.get_done(s, t, fr)
        s = self.drop(s, t, fr)
        self.all_dead(s)

    def check_got(self, s2, oc, what):
        ex = self.ex
        if self.res == 'throws':
            ex.prove(s2, oc[0] == 'throw' and self.is_exc(s2, oc[1].ptr), what + ' throws the exception of the body')
        elif ex.prove(s2, oc[0] == 'ret', what + ' does not throw'):
            if self.ty in ('int', 'own'):
                ex.prove(s2, simp(bv(oc[1], 32) == s2.g['val']), what + ' returns the value of the body')
            elif self.ty == 'ref':
                ex.prove(s2, ex.ptr_eq(s2, oc[1], P(self.obj, 0)), what + ' returns the reference of the body')

    def get_done(self, s, t, fr):
        o = self.outs(s, self.d('get'), t)
        self.ok(s, len(o) == 1, 'get on a finished task returns')
        for s2, oc in o:
            self.check_got(s2, oc, 'get on a finished task')
            self.expect(s2, [], 'get on a finished task runs nothing')
            return s2
        raise Stop()


class Get(Wait):
    """blocking get() of a task that was not started: starts it, waits, cleans everything up"""

    def play(self, st):
        s, t, fr, g = self.new(st)
        if self.gate:
            s.g['parked'] = 'gate'
        o = self.outs(s, self.d('get'), t)
        self.ok(s, len(o) == 1, 'get returns')
        for s2, oc in o:
            self.check_got(s2, oc, 'get')
            tr = self.take(s2)
            self.ok(s2, tuple(x[0] for x in tr) == ('owner', 'start', 'body', 'end'), 'get runs the task once, notifying its context')
            if len(tr) == 4:
                self.ok(s2, self.same(s2, tr[0][2], fr), 'owner event names the task')
                self.ok(s2, self.same(s2, tr[1][1], fr), 'start event names the task')
                self.ok(s2, self.same(s2, tr[3][1], fr), 'end event names the task')
            s2 = self.drop(s2, t, None)
            self.all_dead(s2)

    def on_wait(self, ex, st, p, old, order, I):
        if st.g.get('parked') == 'gate':
            st.g['parked'] = ex.norm(ex.int2p(self.rd(st, st.g['g']))).base
        return Scen.on_wait(self, ex, st, p, old, order, I)


class Detach(TK):
    def play(self, st):
        # start_and_detach(): self-destroying
        s, t, fr, g = self.new(st)
        s, h = self.c(s, self.d('sad'), t, 0)
        s = self.run_gate(s, 'start_and_detach', [('start', fr), ('body',)], [('end', fr)])
        self.ok(s, fr.base in s.dead, 'a detached task destroys itself at its end')
        s = self.isempty(s, t, True, 'empty after start_and_detach')
        s = self.drop(s, t, None)
        self.all_dead(s)
        # start_and_detach(true): stops at its end
        s, t, fr, g = self.new(st.fork())
        s, h = self.c(s, self.d('sad'), t, 1)
        self.ok(s, self.same(s, h, fr), 'returns the handle of the task')
        s = self.run_gate(s, 'start_and_detach(true)', [('start', fr), ('body',)], [('end', fr)])
        s = self.isempty(s, t, True, 'empty after start_and_detach')
        self.ok(s, fr.base not in s.dead, 'a task asked to stop at its end is not destroyed')
        s, dn = self.c(s, 'drv_done', fr)
        self.ok(s, simp(zb(tobool(dn))), 'it is suspended at its end')
        s, _ = self.c(s, 'drv_destroy', h)
        self.ok(s, fr.base in s.dead, 'its holder destroys it')
        s = self.drop(s, t, None)
        self.all_dead(s)
        # detach(): prepared to run alone
        s, t, fr, g = self.new(st.fork())
        s, h = self.c(s, self.d('detach'), t)
        self.expect(s, [], 'detach runs nothing')
        self.ok(s, self.same(s, h, fr), 'returns the handle of the task')
        s = self.isempty(s, t, True, 'empty after detach')
        s = self.drop(s, t, None)
        self.ok(s, fr.base not in s.dead, 'a detached frame is not the task\'s any more')
        s, _ = self.c(s, 'drv_resume', h)
        s = self.run_gate(s, 'detached task', [('body',)], [('end', fr)])
        self.all_dead(s)
        # never run
        s, t, fr, g = self.new(st.fork())
        s, h = self.c(s, self.d('detach'), t)
        s, _ = self.c(s, 'drv_destroy', h)
        self.expect(s, [], 'destroying a task runs nothing')
        s = self.drop(s, t, None)
        self.all_dead(s)


class Owns(TK):
    def play(self, st):
        # never started
        s, t, fr, g = self.new(st)
        s = self.drop(s, t, fr)
        self.all_dead(s)
        # destroyed while suspended in the middle
        if self.gate:
            s, t, fr, g = self.new(st.fork())
            s, o = self.mk_owner(s, t)
            s, _ = self.c(s, 'drv_resume', o)
            self.expect(s, [('owner', o, fr), ('start', fr), ('body',)], 'await')
            s = self.drop(s, t, fr)
            s, _ = self.c(s, 'drv_destroy', o)
            self.all_dead(s)
        # empty ones
        s = st.fork()
        e, e2 = self.h(s, 'e'), self.h(s, 'e2')
        s, _ = self.c(s, self.d('empty'), e)
        s = self.isempty(s, e, True, 'default constructed task is empty')
        for op in ('detach', 'release', 'raw', 'ctx'):
            s, h = self.c(s, self.d(op), e)
            self.ok(s, self.ex.is_null(s, self.ex.int2p(h)), op + ' of an empty task gives null')
        s, h = self.c(s, self.d('sad'), e, 0)
        self.ok(s, self.ex.is_null(s, self.ex.int2p(h)), 'start_and_detach of an empty task gives null')
        s, _ = self.c(s, self.d('move'), e2, e)
        s, _ = self.c(s, self.d('assign'), e2, e2)
        s = self.isempty(s, e2, True, 'moved from an empty task')
        s = self.drop(s, e, None)
        s = self.drop(s, e2, None)
        self.all_dead(s)
        # release / adopt, context, self-assignment, assignment over a live one
        s, t, fr, g = self.new(st.fork())
        s, h = self.c(s, self.d('raw'), t)
        self.ok(s, self.same(s, h, fr), 'raw_handle names the frame')
        s, c = self.c(s, self.d('ctx'), t)
        s, _ = self.c(s, self.d('assign'), t, t)
        s = self.isempty(s, t, False, 'self-assignment keeps the task')
        s, h = self.c(s, self.d('release'), t)
        s = self.isempty(s, t, True, 'empty after release')
        self.ok(s, self.same(s, h, fr), 'release returns the handle')
        s = self.drop(s, t, None)
        self.ok(s, fr.base not in s.dead, 'a released frame is not destroyed')
        t2 = self.h(s, 't2')
        s, _ = self.c(s, self.d('adopt'), t2, h)
        s, c2 = self.c(s, self.d('ctx'), t2)
        cp = self.ex.norm(self.ex.int2p(c2))
        self.ok(s, self.same(s, c, c2) if not self.ex.is_null(s, cp) is True else False, 'the context is part of the task')
        self.ok(s, simp(bv(self.rd(s, cp, 4), 32) == 5), 'the context is default constructed')
        st2 = s
        s, t3, fr3, g3 = self.new(st2)
        s, _ = self.c(s, self.d('assign'), t3, t2)
        s, h = self.c(s, self.d('raw'), t3)
        self.ok(s, self.same(s, h, fr), 'the assigned task is the source\'s')
        self.ok(s, fr.base not in s.dead, 'assignment destroys nothing it still needs')
        s.g['g'] = g
        s = self.await_(s, t3, fr)
        s = self.drop(s, t3, fr)
        s = self.drop(s, t2, None)
        self.all_dead(s)


class Nested(TK):
    """a task awaits a task: control and outcome travel up the chain"""
    name, fn = 'task awaiting a task', 'drv_empty_int'

    def play(self, st):
        s, t, fr, g = self.new(st)
        o1 = self.h(s, 'outer')
        n = len(s.g['heap'])
        s, _ = self.c(s, 'drv_outer', o1, t)
        self.expect(s, [], 'creating a task runs nothing')
        fo = P(s.g['heap'][n], 0)
        s, o = self.mk_owner(s, o1)
        s, _ = self.c(s, 'drv_resume', o)
        s = self.run_gate(s, 'nested await', [('owner', o, fo), ('start', fo), ('owner', fo, fr), ('start', fr), ('body',)],
                          [('end', fr), ('end', fo), self.seen(s)])
        s, _ = self.c(s, 'drv_destroy', o)
        s = self.drop(s, o1, fo)
        s = self.drop(s, t, fr)
        self.all_dead(s)


PROPERTY = 'C15'
DRIVER = 'c15.cpp'
TARGETS = []
for t in ('int', 'own', 'ref', 'void'):
    n = {'own': 'class', 'ref': 'int&'}.get(t, t)
    for C, w in ((Await, 'co_await'), (Wait, 'wait and proxy owner'), (Get, 'get'), (Detach, 'detach and start_and_detach'),
                 (Owns, 'ownership')):
        TARGETS.append(type(C.__name__ + '_' + t, (C,), dict(name='task<%s> %s' % (n, w), fn='drv_empty_' + t, ty=t)))
TARGETS.append(Nested)
