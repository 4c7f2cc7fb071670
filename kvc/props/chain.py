"""Contracts of the single steps of nested generators on a chain of active bodies of ARBITRARY depth.

State: object G (generator), its root frame R, the chain of active bodies N0 (innermost) .. Nk = R.  The frames are opaque;
their promises carry the representation invariant Chain(G; N0..Nk):
    R.root == R, R.worker == N0, R.consumer == G, N0.root == R, Ni.owner == N(i+1) for i < k
(root of intermediate bodies and worker of nested ones may hold stale values: arbitrary).  Only the frames N0, N1, R (and
those of an attached range, M0, M1, L) are given to the code; any access to the rest of the chain is refuted, so by the
frame rule each contract holds at every depth.  Field positions are read off real frames (discover)."""
from props.common import *
from props.scen import *
import re


class Chain(Scen):
    ty, fn = 'int', 'drv_nop'
    depths = ('0', '1', '2', 'n')
    PSIZE = 160

    def d(self, op):
        return 'drv_%s_%s' % (op, self.ty)

    def h(self, st, name, size=64):
        return Scen.h(self, st, name, size)

    def setup(self, ex, st):
        self.base(ex, st)
        self.res = 'returns'
        st.g['resumed'] = ()

        def res(ex, st, cof, args, I):
            st.g['resumed'] = st.g['resumed'] + ((cof.which, cof.id),)
            self.at_resume(st, cof, I)
            return [(st, self.resume_outcome)]
        ex.on_resume = res
        self.discovering = False
        self.pick(ex, st)
        return []

    resume_outcome = ('ret', None)

    def pick(self, ex, st):
        pass

    def at_resume(self, st, cof, I):
        pass

    # ---- where the fields are: three real nested bodies, each at its first value
    def find(self, st, r, val, lo=0, hi=4096, what=''):
        val = self.ex.int2p(val)
        for k in sorted(x for x in st.cells(r) if isinstance(x, int)):
            v = st.cells(r)[k][1]
            if lo <= k < hi and isinstance(v, P) and self.ex.ptr_eq(st, v, val) is True:
                return k
        raise E.Unsupported('representation of nested generators not recognised: ' + what)

    def discover(self, st):
        s = st.fork()
        g = self.h(s, 'probe')
        n = len(s.g.get('heap', ()))
        s, _ = self.c(s, self.d('three'), g, 2)
        fr = [s.g['heap'][n]]
        self.top = self.find(s, g.base, P(fr[0], 0), what='handle')
        s = self.three(s, g, fr, n)
        R, N1, N0 = fr
        self.root = self.find(s, R, P(R, 16), 16, what='root')
        self.worker = self.find(s, R, P(N0, 0), 16, what='worker')
        self.owner = self.find(s, N0, P(N1, 0), 16, what='owner')
        self.consumer = self.find(s, R, P(g.base, g.off), 16, what='consumer') if self.has_consumer() else None
        if self.find(s, N0, P(R, 16), 16, what='root') != self.root:
            raise E.Unsupported('representation of nested generators not recognised')
        self.take(s)

    def has_consumer(self):
        return self.ty != 'unit'

    def three(self, s, g, fr, n):
        for i in range(3):
            it = self.h(s, 'it')
            s, _ = self.c(s, self.d('begin'), g, it)
            if i:
                new = [r for r in s.g['heap'][n:] if r not in fr and r not in s.dead and r.kind == 'heap']
                fr.append(self.newframe(s, new, fr))
        return s

    def newframe(self, s, new, old):
        """of the new heap blocks the one that is a coroutine frame"""
        for r in new:
            v = s.cells(r).get(0)
            if v and isinstance(v[1], P) and isinstance(v[1].base, Fn):
                return r
        raise E.Unsupported('representation of nested generators not recognised: frames')

    # ---- opaque frames
    def frame(self, st, name, done=False):
        r = self.ex.new_region(st, name, self.PSIZE, 'heap')
        i = new_id()
        st.g['ids'] = dict(st.g.get('ids', {}), **{name: i})
        st.assume(z3.Not(z3.Select(self.ex.arr(st, 'coro', 'done'), i)))
        self.put(st, r, 0, NULL if done else P(CoFn('coro', i, 'resume'), 0))
        self.put(st, r, 8, P(CoFn('coro', i, 'destroy'), 0))
        return r

    def put(self, st, r, off, v):
        self.ex.store_raw(st, P(r, off), 8, v, None)

    def get(self, st, r, off):
        return self.ex.int2p(self.ex.load_raw(st, P(r, off), 8, None))

    def chain(self, st, g, pre, depth, done=False):
        """G with a chain of the given depth -> the frames that may be touched, innermost first (last: root)"""
        ex = self.ex
        rest = ex.new_region(st, 'rest of the chain', 256, 'heap')
        st.lost = st.lost | {rest}
        R = self.frame(st, pre + 'root', done)
        if depth == '0':
            fr = [R]
        else:
            fr = [self.frame(st, pre + '0')] + ([self.frame(st, pre + '1')] if depth in ('2', 'n') else []) + [R]
        N0 = fr[0]
        stale = {'self': None, 'root': P(R, 16), 'rest': P(rest, 16)}
        for x in fr:
            self.put(st, x, self.root, P(R, 16))
            self.put(st, x, self.worker, P(x, 0))
        for x, y in zip(fr, fr[1:]):
            self.put(st, x, self.owner, P(y, 0))
        if depth == 'n':
            self.put(st, fr[1], self.owner, P(rest, 0))
        if len(fr) == 3:   # stale values of an intermediate body
            k = self.stale
            self.put(st, fr[1], self.root, P(fr[1], 16) if k == 'self' else stale[k])
            self.put(st, fr[1], self.worker, P(fr[1], 0) if k == 'self' else P(rest, 0))
            self.put(st, N0, self.worker, P(N0, 0) if k == 'self' else P(rest, 0))
        self.put(st, R, self.worker, P(N0, 0))
        if self.consumer is not None:
            self.put(st, R, self.consumer, g)
        self.init_obj(st, g, R)
        st.g['link'] = st.g.get('link', ()) + tuple((x, y, depth) for x, y in zip(fr, fr[1:] if depth != 'n' else fr[1:2]))
        st.g['rest'] = dict(st.g.get('rest', {}), **{pre: rest})
        return fr

    def init_obj(self, st, g, R):
        self.ex.store_raw(st, P(g.base, g.off + self.top), 8, P(R, 0), None)

    stale = 'self'

    def chain_is(self, st, g, fr, depth, what, rest=None, links=None):
        """the invariant for G with these frames (depth 'n': between the last two there are unknown ones)"""
        R = fr[-1]
        eq = lambda a, b: self.same(st, a, b)
        ok = lambda c, m: self.ok(st, c, what + ': ' + m)
        ok(eq(self.get(st, g.base, g.off + self.top), P(R, 0)), 'the object holds the root')
        ok(eq(self.get(st, R, self.root), P(R, 16)), 'the root is its own root')
        ok(eq(self.get(st, R, self.worker), P(fr[0], 0)), 'the root knows the active body')
        ok(eq(self.get(st, fr[0], self.root), P(R, 16)), 'the active body knows the root')
        if self.consumer is not None:
            ok(eq(self.get(st, R, self.consumer), g), 'the root knows who iterates')
        for x, y in zip(fr, fr[1:]):
            if y is R and depth == 'n':
                ok(eq(self.get(st, x, self.owner), P(rest, 0)), 'the links further up are untouched')
            else:
                ok(eq(self.get(st, x, self.owner), P(y, 0)), 'a nested body continues the one that yields it')
        for x in fr:
            v = st.cells(x).get(8)
            ok(x not in st.dead, 'no frame is destroyed')

    def none_resumed(self, st, what):
        self.ok(st, not st.g['resumed'], what + ': no body is resumed or destroyed')

    def take_events(self, st):
        r = st.g['resumed']
        st.g['resumed'] = ()
        return r

    def idof(self, st, fr):
        v = self.get(st, fr, 8)
        return v.base.id

    def isend(self, s, g, want, what):
        if self.ty == 'unit' and want:
            return s
        it = self.h(s, 'ic')
        s, _ = self.c(s, self.d('cur'), g, it)
        s, e = self.c(s, self.d('isend'), it)
        e = tobool(e)
        self.ok(s, simp(zb(e if want else bnot(e))), what)
        return s

    def value(self, s, g):
        it = self.h(s, 'ic')
        s, _ = self.c(s, self.d('cur'), g, it)
        s, p = self.c(s, self.d('deref'), it)
        return s, self.ex.norm(self.ex.int2p(p))

    def play(self, st):
        self.discover(st)
        self.go(st)

    def mk(self, st, depth, name='g', pre='N'):
        g = self.h(st, name)
        self.ex.store_raw(st, g, 8, NULL, None)
        s, _ = self.c(st, self.d('empty'), g)
        fr = self.chain(s, g, pre, depth)
        return s, g, fr

    # ---- the steps shared by generators and channels
    def back(self, st, r, what):
        self.ok(st, self.same(st, r, P(None, 1)), what)

    def vcell(self, s):
        v = self.h(s, 'value')
        if self.ty in ('own', 'cpy'):
            q = self.h(s, 'pointee')
            self.ex.store_raw(s, v, 8, q, None)
            self.pointee = q
        else:
            q = v
        w = fbv(32, 'v')
        self.ex.store_raw(s, q, 4, w, None)
        return v, w

    def yields(self, s, frame, kind, v=None):
        """the active body yields -> state, where control goes, awaiter"""
        if v is None:
            v, w = self.vcell(s)
        buf = self.h(s, 'awaiter', 128)
        s, r = self.c(s, 'drv_y_%s_%s' % (self.ty, kind), P(frame, 0), v, buf)
        return s, r, buf, v

    def resumes_after(self, s, frame, kind, v, buf):
        s, _ = self.c(s, 'drv_f_%s_%s' % (self.ty, kind), P(frame, 0), v, buf)
        return s

    def set_done(self, s, fr):
        self.put(s, fr, 0, NULL)

    def is_destroy(self, s, fr, ev, what):
        self.ok(s, ev == (('destroy', self.idof(s, fr)),), what)


class Init(Chain):
    """what the real creation of a range establishes"""
    def go(self, st):
        g = self.h(st, 'probe')
        n = len(st.g.get('heap', ()))
        s, _ = self.c(st, self.d('three'), g, 2)
        R = s.g['heap'][n]
        self.chain_is(s, g, [R], '0', 'created')
        self.expect(s, [], 'nothing runs')


class Yields(Chain):
    """a yield shows the value to whoever iterates and changes nothing else"""
    kinds = ('rv', 'copy', 'lv', 'ref')

    def pick(self, ex, st):
        self.depth = ex.choose('depth', list(self.depths))
        self.stale = ex.choose('stale', ['self', 'root', 'rest'])
        self.kind = ex.choose('kind', list(self.kinds))

    def go(self, st):
        ex = self.ex
        s, g, fr = self.mk(st, self.depth)
        v, w = self.vcell(s)
        s, r, buf, v = self.yields(s, fr[0], self.kind, v)
        self.control(s, r, g, 'a yield gives control back')
        self.chain_is(s, g, fr, self.depth, 'yield', s.g['rest']['N'])
        if self.ty != 'unit':
            s = self.isend(s, g, False, 'the iterator is not at its end')
            s, p = self.value(s, g)
            copy = self.kind in ('copy', 'rcopy') or (self.kind == 'lv' and self.ty in ('int', 'cpy'))
            if copy:
                self.ok(s, p.base is buf.base, 'the copy lives in the suspended body')
                if self.ty == 'cpy':
                    q = self.ex.int2p(self.ex.load_raw(s, v, 8, None))
                    self.ok(s, self.same(s, q, self.pointee), 'what is copied keeps its content')
                    p = self.ex.int2p(self.ex.load_raw(s, p, 8, None))
                    self.ok(s, simp(z3.Not(self.ex.is_null(s, p))), 'the copy has a content')
                    self.ok(s, simp(z3.Not(self.same(s, q, p))), 'the copy has its own content')
                    self.ok(s, simp(bv(self.ex.load_raw(s, q, 4, None), 32) == w), 'what is copied keeps its value')
                self.ok(s, simp(bv(self.rd(s, p, 4), 32) == w), 'the copy has the value')
            else:
                self.ok(s, self.same(s, p, v), 'the yielded object itself is shown')
        s = self.resumes_after(s, fr[0], self.kind, v, buf)
        self.chain_is(s, g, fr, self.depth, 'after the yield', s.g['rest']['N'])
        self.none_resumed(s, 'yield')

    def control(self, s, r, g, what):
        self.back(s, r, what)


class Attach(Chain):
    """elements_of a range in any state: its active body runs next and the chains are joined"""
    variants = ('leaf',)

    def pick(self, ex, st):
        self.depth = ex.choose('depth', list(self.depths))
        self.leaf = ex.choose('leaf', ['null', 'done'] + list(self.depths))
        self.stale = ex.choose('stale', ['self', 'root', 'rest'])
        self.variant = ex.choose('variant', list(self.variants))

    def go(self, st):
        ex = self.ex
        s, g, fr = self.mk(st, self.depth)
        l = self.h(s, 'leafobj')
        s, _ = self.c(s, self.d('empty'), l)
        lf = []
        if self.leaf != 'null':
            lf = self.chain(s, l, 'M', '0' if self.leaf == 'done' else self.leaf, self.leaf == 'done')
        s, r, buf, _ = self.yields(s, fr[0], self.variant, l)
        self.none_resumed(s, 'attaching a range')
        s, e = self.c(s, self.d('isempty'), l)
        self.ok(s, simp(zb(tobool(e))), 'the range object is empty afterwards')
        if self.leaf in ('null', 'done'):
            self.ok(s, ex.is_null(s, ex.int2p(r)), 'an empty range does not suspend')
            self.chain_is(s, g, fr, self.depth, 'empty range', s.g['rest']['N'])
        else:
            self.ok(s, self.same(s, r, P(lf[0], 0)), 'the active body of the nested range runs next')
            R = fr[-1]
            self.joined(s, g, lf, fr)
            # the nested bodies end one after the other
            act = lf + fr
            for k in range(len(lf)):
                if lf[k] is lf[-1] and self.leaf == 'n':
                    break
                if lf[k + 1:k + 2] == [lf[-1]] and self.leaf == 'n':
                    break
                s, r = self.c(s, self.d('final'), P(act[k], 0))
                self.ok(s, self.same(s, r, P(act[k + 1], 0)), 'the end of a nested body continues its owner')
            if self.leaf == 'n':
                return
            self.chain_is(s, g, fr, self.depth, 'after the nested range', s.g['rest']['N'])
            self.set_done(s, lf[-1])
        self.none_resumed(s, 'nested range')
        s = self.resumes_after(s, fr[0], self.variant, l, buf)
        if lf:
            self.is_destroy(s, lf[-1], self.take_events(s), 'the nested range is destroyed once, after its end')
        self.none_resumed(s, 'continuing')
        self.chain_is(s, g, fr, self.depth, 'after the nested yield', s.g['rest']['N'])
        s, _ = self.c(s, self.d('dtor'), l)
        self.none_resumed(s, 'an empty range object')

    def joined(self, s, g, lf, fr):
        R, L = fr[-1], lf[-1]
        eq = lambda a, b: self.same(s, a, b)
        ok = lambda c, m: self.ok(s, c, 'joined: ' + m)
        ok(eq(self.get(s, g.base, g.off + self.top), P(R, 0)), 'the object holds the root')
        ok(eq(self.get(s, R, self.worker), P(lf[0], 0)), 'the root knows the active body')
        ok(eq(self.get(s, lf[0], self.root), P(R, 16)), 'the active body knows the root')
        ok(eq(self.get(s, R, self.root), P(R, 16)), 'the root is its own root')
        if self.consumer is not None:
            ok(eq(self.get(s, R, self.consumer), g), 'the root knows who iterates')
        ok(eq(self.get(s, L, self.owner), P(fr[0], 0)), 'the nested range continues the body that yields it')
        for c, d, pre in ((lf, self.leaf, 'M'), (fr, self.depth, 'N')):
            for x, y in zip(c, c[1:]):
                t = P(s.g['rest'][pre], 0) if y is c[-1] and d == 'n' else P(y, 0)
                ok(eq(self.get(s, x, self.owner), t), 'the other links are kept')


class Final(Chain):
    """the end of a body: its owner goes on, or the iteration ends"""
    def pick(self, ex, st):
        self.depth = ex.choose('depth', list(self.depths))
        self.stale = ex.choose('stale', ['self', 'root', 'rest'])

    def go(self, st):
        ex = self.ex
        s, g, fr = self.mk(st, self.depth)
        s, _, buf, v = self.yields(s, fr[0], 'rv' if self.ty != 'ref' else 'lv')
        s = self.resumes_after(s, fr[0], 'rv' if self.ty != 'ref' else 'lv', v, buf)
        s, r = self.c(s, self.d('final'), P(fr[0], 0))
        self.none_resumed(s, 'final suspend')
        if self.depth == '0':
            self.control(s, r, g, 'the end of the root gives control back')
            self.set_done(s, fr[0])
            s = self.isend(s, g, True, 'the iterator is at its end')
        else:
            self.ok(s, self.same(s, r, P(fr[1], 0)), 'the end of a nested body continues its owner')
            self.popped(s, g, fr, 'end of a nested body')

    def popped(self, s, g, fr, what):
        if self.depth == '1':
            self.chain_is(s, g, fr[1:], '0', what)
        elif self.depth == '2':
            self.chain_is(s, g, fr[1:], '1', what)
        else:
            # between N1 and the root there are unknown ones
            self.chain_is(s, g, fr[1:], 'n', what, s.g['rest']['N'])

    def control(self, s, r, g, what):
        self.back(s, r, what)
