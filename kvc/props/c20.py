"""C20 inplace_generator: the yielded values in order, the first one on creation; by-reference yields seen by the body;
one owner of the frame; swapped and moved generators exchange their sequences."""
from props.common import *
from props.scen import *
import re


class IG(Scen):
    events = (('saw', 1), ('addr', 1))
    ty, fn = 'int', 'drv_nop'
    ops = (1, 2, 3)

    def d(self, op):
        return 'drv_%s_%s' % (op, self.ty)

    def setup(self, ex, st):
        self.base(ex, st)
        self.res = 'returns'
        st.g.update(op=(), vals=(), thr=False)

        def op(ex, st, a, I):
            if not st.g['op']:
                ex.fail(st, 'the body runs only when it is asked for the next value', I)
                return []
            o = st.g['op'][0]
            st.g['op'] = st.g['op'][1:]
            return o

        def val(ex, st, a, I):
            v = fbv(32, 'yielded')
            st.g['vals'] = st.g['vals'] + (v,)
            return v

        def eff(ex, st, a, I):
            if st.g['thr']:
                return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excid']), 0), None)))]
        ex.overrides[:0] = [(re.compile(r'^ext_op$'), op), (re.compile(r'^ext_val$'), val), (re.compile(r'^ext_effect$'), eff)]
        return []

    def tell(self, st, op):
        self.ok(st, st.g['op'] == (), 'the body did what it was asked for, once')
        st.g['op'] = (op,)

    def new(self, st, op, name='g'):
        """create a generator whose body first does op"""
        g = self.h(st, name)
        self.tell(st, op)
        n = len(st.g.get('heap', ()))
        s, _ = self.c(st, self.d('start'), g)
        fr = s.g['heap'][n]
        return s, g, P(fr, 0)

    def saw(self, st, op, v, taken=False):
        """what the body of the previous yield observed when it was resumed"""
        if self.ty == 'int':
            return () if op == 1 else (('saw', v),)
        if self.ty == 'own':
            return () if op == 1 else (('saw', -1 if taken else v),)
        if self.ty == 'cpy':
            return () if op == 1 else (('saw', -1 if taken and op == 3 else v),)
        return (('saw', v),)

    def has_addr(self, op):
        return not (self.ty != 'ref' and op == 1)

    def byref(self, op):
        return {'int': op == 3, 'ref': True, 'own': op in (2, 3), 'cpy': op == 3}[self.ty]

    def at(self, s, g, op, pre, what):
        """the generator now stands at the value of op: check it; the address of the value"""
        ex = self.ex
        v = s.g['vals'][-1]
        self.expect(s, list(pre) + ([('addr', None)] if self.has_addr(op) else []), what)
        s, e = self.c(s, self.d('nonempty'), g)
        self.ok(s, simp(zb(tobool(e))), what + ': not at its end')
        s, p = self.c(s, self.d('deref'), g)
        p = ex.norm(ex.int2p(p))
        self.expect(s, [], 'looking at the value runs nothing')
        q = self.cellp(s, p)
        self.ok(s, simp(bv(ex.load_raw(s, q, 4, None), 32) == v), what + ': the value is the yielded one')
        return s, p, v

    def cellp(self, s, p):
        if self.ty in ('own', 'cpy'):
            s2, q = self.c(s, 'drv_ownp', p)
            return self.ex.norm(self.ex.int2p(q))
        return p

    def at_end(self, s, g, pre, what):
        self.expect(s, pre, what)
        s, e = self.c(s, self.d('isempty'), g)
        self.ok(s, simp(zb(tobool(e))), what + ': at its end')
        return s

    def step(self, s, g, op, how='next'):
        self.tell(s, op)
        s, _ = self.c(s, self.d(how), g)
        return s

    def drop(self, s, g, fr=None, what='destroyed with its generator'):
        if fr is not None:
            self.ok(s, fr.base not in s.dead, 'the frame lives as long as its generator')
        s, _ = self.c(s, self.d('dtor'), g)
        self.expect(s, [], 'destroying runs nothing')
        if fr is not None:
            self.ok(s, fr.base in s.dead, 'the frame is ' + what)
        return s


class Any(IG):
    """The states a generator can stand in.  Standing(a) = the state after a yield of kind a, with an arbitrary value and an
    arbitrary history: what the frame holds after creation with a as the first yield, minus the cells `forget[a]` (nothing
    is known about them).  Inductive: a step b from any Standing(a) ends in Standing(b), cell by cell."""
    def prepare(self, st):
        self.forget = {a: set() for a in self.ops}
        while True:
            more = False
            for a in self.ops:
                for b in self.ops:
                    for k in self.ways(a):
                        s, g, fr, p, v = self.standing(st, a)
                        s, p, v = self.advance(s, g, fr, p, v, a, b, k)
                        d = self.differs(st, s, g, fr, p, v, b)
                        if d - self.forget[b]:
                            self.forget[b] |= d
                            more = True
            if not more:
                return

    def ways(self, a):
        return ('next', 'postinc') + (('taken',) if self.ty in ('own', 'cpy') and a > 1 else ())

    def standing(self, st, a, name='g'):
        s, g, fr = self.new(st.fork(), a, name)
        s, p, v = self.at(s, g, a, (), 'first value')
        c = s.wcells(fr.base)
        for o in self.forget[a]:
            c.pop(o, None)
        return s, g, fr, p, v

    def advance(self, s, g, fr, p, v, a, b, how):
        """the consumer writes to the element (or takes it), then asks for the next one: b (0: the end)"""
        ex = self.ex
        if how == 'taken':
            s, _ = self.c(s, 'drv_take', p)
        else:
            w = fbv(32, 'written')
            ex.store_raw(s, self.cellp(s, p), 4, w, None)
            if self.byref(a):   # otherwise the body's own variable is untouched
                v = w
        s = self.step(s, g, b, 'next' if how == 'taken' else how)
        pre = self.saw(s, a, v, how == 'taken')
        if b:
            return self.at(s, g, b, pre, 'next value')
        return self.at_end(s, g, pre, 'end'), None, None

    def differs(self, st, s, g, fr, p, v, b):
        """the frame cells that do not agree with Standing(b); everything else must"""
        t, h, f2, q, w = self.standing(st, b)
        ex = self.ex
        la, lb = self.live_heap(s), self.live_heap(t)
        if not self.ok(s, len(la) == len(lb), 'one step leaves nothing behind'):
            raise Stop()
        m = {fr.base: f2.base, g.base: h.base}
        out = set()

        def same(x, y, bind=True):
            if isinstance(x, P) and isinstance(y, P):
                if isinstance(x.base, Region) and isinstance(y.base, Region):
                    if x.base not in m and bind and x.base in la and y.base in lb and y.base not in m.values():
                        m[x.base] = y.base
                    return m.get(x.base, x.base) is y.base and str(x.off) == str(y.off)
                return str(x.base) == str(y.base) and str(x.off) == str(y.off)
            if isinstance(x, P) or isinstance(y, P):
                return False
            x, y = [z3.BitVecVal(k, 32) if isinstance(k, bool) else k for k in (x, y)]
            if z3.is_expr(x) and z3.is_bv(x) and z3.is_expr(v):
                x = simp(z3.substitute(x, (v, w)))
            return str(x) == str(y)
        self.ok(s, same(p, q), 'the element is where the first one would be')
        todo, seen = [fr.base, g.base], set()
        while todo:
            r = todo.pop(0)
            seen.add(r)
            ca, cb = s.cells(r), t.cells(m[r])
            for o in sorted(set(ca) | set(cb), key=str):
                x, y = ca.get(o), cb.get(o)
                if r is fr.base and o in self.forget[b]:
                    continue
                if x is None or y is None or x[0] != y[0] or not same(x[1], y[1]):
                    if r is fr.base:
                        if y is not None:
                            out.add(o)
                    else:
                        self.ok(s, False, 'a step changes only the frame (%s)' % r.name)
                        raise Stop()
            todo += [k for k in m if k not in seen and k not in todo]
        self.ok(s, set(m) >= set(la), 'everything alive belongs to the generator')
        return out


class Steps(Any):
    """any yield after any yield, with an arbitrary value and history"""
    def play(self, st):
        self.prepare(st)
        for a in self.ops:
            for how in self.ways(a):
                for b in self.ops + (0,):
                    s, g, fr, p, v = self.standing(st, a)
                    s, p, v = self.advance(s, g, fr, p, v, a, b, how)
                    s = self.drop(s, g, fr)
                    self.all_dead(s)
            s, g, fr, p, v = self.standing(st, a)   # destroyed in the middle
            s = self.drop(s, g, fr)
            self.all_dead(s)
        s, g, fr = self.new(st.fork(), 0)
        s = self.at_end(s, g, (), 'empty body')
        s = self.drop(s, g, fr)
        self.all_dead(s)


class Throws(Any):
    def play(self, st):
        self.prepare(st)
        for a in self.ops:
            s, g, fr, p, v = self.standing(st, a)
            s.g['thr'] = True
            self.tell(s, 0)
            o = self.outs(s, self.d('next'), g)
            self.ok(s, len(o) == 1, 'one outcome')
            for s2, oc in o:
                self.ok(s2, oc[0] == 'throw' and self.is_exc(s2, oc[1].ptr), 'an exception of the body reaches the increment')
                s2 = self.at_end(s2, g, self.saw(s2, a, v), 'after the exception')
                s2 = self.drop(s2, g, fr)
                self.all_dead(s2)


class Moves(Any):
    def play(self, st):
        self.prepare(st)
        for a in self.ops:
            for b in self.ops + (0,):
                for op in ('move', 'swap', 'fswap', 'assign', 'selfassign', 'selfswap'):
                    s, g, fr, p, v = self.standing(st, a)
                    if op == 'move':
                        t = self.h(s, 't')
                        s, _ = self.c(s, self.d('move'), t, g)
                        s = self.at_end(s, g, (), 'moved from')
                        s = self.other(s, t, p, v, a, b)
                        s = self.drop(s, t, fr)
                        s = self.drop(s, g)
                    elif op.startswith('self'):
                        s, _ = self.c(s, self.d(op[4:]), g, g)
                        s = self.other(s, g, p, v, a, b)
                        s = self.drop(s, g, fr)
                    else:
                        if b:
                            s, g2, fr2, p2, v2 = self.standing(s, b, 'g2')
                        else:
                            s, g2, fr2 = self.new(s, b, 'g2')
                        s, _ = self.c(s, self.d(op), g2, g)
                        self.expect(s, [], op + ' runs nothing')
                        if op == 'assign':
                            pass   # what the source holds afterwards is unspecified; it owns what is left
                        elif b:
                            s = self.other(s, g, p2, v2, b, 0)
                        else:
                            s = self.at_end(s, g, (), op + ' with a finished one')
                        s = self.other(s, g2, p, v, a, b)
                        s = self.drop(s, g2, fr)
                        s = self.drop(s, g, fr2 if op != 'assign' or fr2.base not in s.dead else None)
                    self.all_dead(s)

    def other(self, s, g, p, v, a, b):
        """the sequence that stood at (p, v) of op a continues in g"""
        s, p2 = self.c(s, self.d('deref'), g)
        self.ok(s, self.same(s, p2, p), 'the same value in its new place')
        s = self.step(s, g, b)
        pre = self.saw(s, a, v)
        if b:
            s, p, v = self.at(s, g, b, pre, 'next value')
        else:
            s = self.at_end(s, g, pre, 'end')
        return s


class Drain(IG):
    name, fn, bounded_only = 'inplace_generator<int> range for', 'drv_nop', True

    def play(self, st):
        n = 3
        s, g, fr = self.new(st, 1)
        s.g['op'] = (2, 3, 0)
        v0 = s.g['vals'][0]
        s, _ = self.c(s, 'drv_drain', g)
        v = s.g['vals']
        self.ok(s, len(v) == 3, 'the body ran to its end')
        if len(v) == 3:
            self.expect(s, [('got', v[0]), ('addr', None), ('got', v[1]), ('saw', v[1]), ('addr', None), ('got', v[2]), ('saw', v[2])],
                        'range for sees every value in order')
        s = self.at_end(s, g, (), 'end')
        s = self.drop(s, g, fr)
        self.all_dead(s)


PROPERTY = 'C20'
DRIVER = 'c20.cpp'
TARGETS = [Drain]
for t in ('int', 'ref', 'own', 'cpy'):
    n = {'ref': 'int&', 'own': 'class', 'cpy': 'copyable class'}.get(t, t)
    for C, w in ((Steps, 'values in order'), (Throws, 'exceptions'), (Moves, 'moves and swaps')):
        TARGETS.append(type(C.__name__ + '_' + t, (C,), dict(name='inplace_generator<%s> %s' % (n, w), ty=t, ops={'ref': (1, 2), 'cpy': (1, 2, 3, 4)}.get(t, (1, 2, 3)))))
