"""C16 when_all(tasks): resumes its owner once, after all children, with every outcome.  All patterns of outcomes,
synchronous / suspended children and completion orders for packs of up to three children (and, bounded, vectors), against an
environment that may complete suspended children at once (frames count as gone as soon as another thread may be last)."""
from props.common import *
from props.scen import *
import re, itertools

LIB = re.compile(r'')


def orders(n):
    """(gated set, completion order of the gated ones)"""
    r = []
    for k in range(n + 1):
        for g in itertools.combinations(range(n), k):
            for o in itertools.permutations(g):
                r.append(''.join(map(str, o)) or '-')
    return r


class WA(Scen):
    events = ()
    max_cases = 600
    vec = False

    def setup(self, ex, st):
        self.base(ex, st)
        n = self.n
        self.res = ex.choose('outcomes', [''.join(x) for x in itertools.product('rt', repeat=n)])
        self.order = ex.choose('gated', orders(n))
        self.mid = ex.choose('mid', [False, True]) if n > 1 and '0' in self.order else False
        st.g.update(vals=tuple(fbv(32, 'v%d' % i) for i in range(n)), excs=tuple(fint('e%d' % i) for i in range(n)),
                    started=(), main=None, done=0, other=False)
        st.assume(*[e > 0 for e in st.g['excs']])

        def val(ex, st, a, I):
            i = a[0]
            st.g['tr'] = st.g['tr'] + (('ran', i),)
            if self.res[i] == 't':
                return [(st, ('throw', E.Exc(P(Elem('exc', st.g['excs'][i]), 0), None)))]
            return st.g['vals'][i]

        def body(ex, st, a, I):
            st.g['started'] = st.g['started'] + (a[0],)
            if self.mid and a[0] == 1:
                # child 0 completes on another thread right now
                outs = []
                lost = st.lost
                for s2, oc in self.finish(st, 0):
                    s2.lost = lost
                    outs.append((s2, ('ret', None)))
                return outs
            return None

        def parked(ex, st, a, I):
            if len(st.g['started']) == self.n:
                st.lost = st.lost | set(st.g['pre'])

        def log(name, k):
            def h(ex, st, a, I):
                st.g['tr'] = st.g['tr'] + ((name,) + tuple(a[:k]),)
            return h
        o = ex.overrides
        o.append((re.compile(r'^ext_(val|effect)_of$'), val))
        o.append((re.compile(r'^ext_body_of$'), body))
        o.append((re.compile(r'^ext_parked$'), parked))
        for nm, k in (('owner', 2), ('start', 1), ('end', 1), ('res', 3), ('err', 2)):
            o.append((re.compile(r'^ext_%s$' % nm), log(nm, k)))
        o.append((re.compile(r'__is_single_threaded'), lambda ex, st, a, I: False))
        ex.after_rmw = self.counted
        self.gates = [self.cell(st, 'gate%d' % i) for i in range(3)]
        g = [self.gates[i] if str(i) in self.order else NULL for i in range(n)]
        st.g['pre'] = ()
        if self.vec:
            return [n] + g + [NULL] * (3 - n)
        return g

    def counted(self, ex, st, p, op, old, order, I):
        if isinstance(p.base, Region) and p.base in st.g['pre']:
            ex.prove(st, order in ('acq_rel', 'seq_cst'), 'the count is acquire and release', I)
            st.g['done'] += 1
            # a child on its own thread, or the last one to be started: the others may complete and free everything now
            if st.g['done'] < self.n and (st.g['other'] or len(st.g['started']) == self.n):
                st.lost = st.lost | set(st.g['pre'])

    def finish(self, st, i):
        """another thread runs child i to its end"""
        h = self.rd(st, self.gates[i])
        st.lost = frozenset()
        outs = []
        st.g['other'] = True
        for s, oc in resume(self.ex, st, self.ex.norm(self.ex.int2p(h)).base):
            self.ok(s, oc[0] == 'ret', 'no throw')
            s.lost = frozenset()
            s.g['other'] = False
            outs.append((s, oc))
        return outs

    def post(self, ex, st, oc):
        self.oc = oc
        Scen.post(self, ex, st, oc)

    def play(self, st):
        ex, n = self.ex, self.n
        self.ok(st, self.oc[0] == 'ret', 'no throw')
        o = ex.norm(ex.int2p(self.oc[1]))
        self.expect(st, [], 'nothing runs before when_all is awaited')
        self.ok(st, not st.g['started'], 'children are lazy')
        st.g['pre'] = st.g['heap']
        cur = [s for s, _ in self.outs(st, 'drv_resume', o)]
        done = [i for i in range(n) if str(i) not in self.order]
        order = [int(c) for c in self.order if c != '-']
        if self.mid:
            order.remove(0)
            done.append(0)
        for step in range(len(order) + 1):
            if not self.ok(st, len(cur) == 1, 'no failure on the way'):
                return
            s = cur[0]
            s.lost = frozenset()
            if step == 0:
                self.ok(s, s.g['started'] == tuple(range(n)), 'every child is started exactly once')
            self.ok(s, any(t[0] == 'gotvoid' for t in s.g['tr']) == (len(done) == n),
                    'the owner is resumed when the last child has finished, not before')
            if step < len(order):
                done.append(order[step])
                cur = [x for x, _ in self.finish(s, order[step])]
        tr = s.g['tr']
        names = [t[0] for t in tr]
        self.ok(s, names.count('gotvoid') == 1, 'the owner is resumed once')
        k = names.index('gotvoid') if 'gotvoid' in names else len(names)
        self.ok(s, sorted(t[1] for t in tr[:k] if t[0] == 'ran') == list(range(n)), 'after every child ran once')
        rest = list(tr[k + 1:])
        if self.vec:
            self.ok(s, len(rest) == n + 2 and rest[n] == ('event', n), 'as many results as children')
            rest = rest[:n] + rest[n + 1:]
        if not self.ok(s, len(rest) == n + 1 and rest[n][0] == 'event', 'one result per child'):
            return
        for i in range(n):
            r = rest[i]
            if self.res[i] == 't':
                x = ex.int2p(r[2]) if r[0] == 'err' else None
                self.ok(s, r[0] == 'err' and r[1] == i and isinstance(x.base, Elem) and simp(zi(x.base.id) == s.g['excs'][i]),
                        "the i-th result is the i-th child's exception")
            else:
                self.ok(s, r[0] == 'res' and r[1] == i and r[2] == (2 if self.tys[i] == 'void' else 1) and
                        (self.tys[i] == 'void' or simp(bv(r[3], 32) == s.g['vals'][i])), "the i-th result is the i-th child's value")
        # contexts: when_all's own owner is the awaiting coroutine; the children's owner is the when_all
        ow = [t for t in tr if t[0] == 'owner']
        self.ok(s, len(ow) == n + 1 and self.same(s, ow[0][1], o), 'context of when_all sees its owner')
        main = ow[0][2]
        self.ok(s, all(self.same(s, t[1], main) is True for t in ow[1:]), 'all children are attached to the when_all')
        kids = [ex.int2p(t[2]).base for t in ow]
        for nm in ('start', 'end'):
            e = [ex.int2p(t[1]).base for t in tr if t[0] == nm]
            self.ok(s, len(e) == n + 1 and set(e) == set(kids), 'every child is notified of its %s once' % nm)
        s, _ = self.c(s, 'drv_destroy', o)
        self.all_dead(s)


def mk(fn, tys, vec=False):
    nm = 'when_all(%s)' % (('vector of %d %s' % (len(tys), vec)) if vec else ','.join(tys))
    return type('WA_' + fn + str(len(tys)), (WA,), dict(name=nm, fn=fn, tys=tys, n=len(tys), vec=bool(vec), bounded_only=bool(vec),
                                                no_small=not vec and len(tys) > 2))


PROPERTY = 'C16'
DRIVER = 'c16.cpp'
TARGETS = [mk('drv_i', ['int']), mk('drv_v', ['void']), mk('drv_ii', ['int', 'int']), mk('drv_vo', ['void', 'class']),
           mk('drv_oiv', ['class', 'int', 'void'])]
for t in ('int', 'own', 'void'):
    for n in range(0, 4):
        TARGETS.append(mk('drv_vec_' + t, [{'own': 'class'}.get(t, t)] * n, {'own': 'class'}.get(t, t)))


BV64 = z3.BitVecSort(64)


class Start(Target):
    """when_all of a vector of any length, from being started to its suspension: modular, the contract of the per-child
    job (verified above for every outcome) stands in for its body"""
    driver = 'c16n.cpp'
    no_small = True
    small_unroll = 4

    def setup(self, ex, st):
        node_fams(ex)
        n = self.n = z3.BitVec('n', 64)
        st.assume(z3.ULT(n, 1 << 40))
        T_, R_ = Region('tasks', None, 'param'), Region('results', None, 'param')
        T_.stride, T_.count, T_.efields = 8, n, {}
        self.T, self.R = T_, R_
        for r in (T_, R_):
            st.mem[r] = {}
            st.cow.add(r)
        v = ex.new_region(st, 'vec', 24, 'param')
        ex.store_raw(st, P(v, 0), 8, P(T_, 0), None)
        for o in (8, 16):
            ex.store_raw(st, P(v, o), 8, P(Arr(T_, n), 0), None)
        st.g.update(run=z3.K(BV64, z3.IntVal(0)), cnt=0, main=None)

        def vctor(ex, st, a, I):
            ex.prove(st, simp(bv(a[1], 64) == n), 'as many results as children', I)
            R_.stride, R_.count, R_.efields = self.esize, n, {}
            this = ex.norm(ex.int2p(a[0]))
            ex.store_raw(st, this, 8, P(R_, 0), None)
            for o in (8, 16):
                ex.store_raw(st, P(this.base, this.off + o), 8, P(Arr(R_, n), 0), None)
            st.g['nres'] = st.g.get('nres', 0) + 1

        def idx(ex, st, p, reg, I, what):
            p = ex.norm(ex.int2p(p))
            if p.base is reg and same(p.off, 0):
                return z3.BitVecVal(0, 64)
            if isinstance(p.base, Arr) and p.base.reg is reg and same(p.off, 0):
                ex.arr_check(st, p.base, I)
                return bv(p.base.idx, 64)
            ex.fail(st, what, I)
            return None

        def job(ex, st, a, I):
            if len(a) == 5:     # struct return
                a = a[1:]
            i = idx(ex, st, a[0], T_, I, 'the job is given a child of the vector')
            k = idx(ex, st, a[2], R_, I, 'the job is given a slot of the results')
            if i is None or k is None:
                return []
            ex.prove(st, simp(i == k), "the i-th child reports into the i-th result", I)
            ow = ex.int2p(a[1])
            m = ow.base
            ex.prove(st, isinstance(m, Region) and same(ow.off, 0) and m is st.g['main'], 'the owner of every child is the when_all', I)
            c = ex.norm(ex.int2p(a[3]))
            ex.prove(st, simp(bv(ex.load_raw(st, c, 8, I), 64) == n), 'the count starts with the number of children', I)
            st.g['run'] = z3.Store(st.g['run'], i, z3.Select(st.g['run'], i) + 1)
            st.g['cnt'] = simp(bv(st.g['cnt'], 64) + 1)
            s2 = st.fork()
            last = simp(bv(st.g['cnt'], 64) == n)
            st.assume(last)
            s2.assume(z3.Not(last))
            outs = []
            if ex.feasible(s2):
                outs.append((s2, ('ret', None)))
            if ex.feasible(st):
                # the children may all be done now: the when_all may be gone
                st.lost = st.lost | {st.g['main']}
                outs.append((st, ('ret', None)))
            return outs
        def on_delete(ex, st, p, size, I):
            p = ex.norm(ex.int2p(p))
            b = p.base.reg if isinstance(p.base, Arr) else p.base
            if b is not T_:
                return None
            ex.prove(st, T_ not in st.dead and simp(n == 0), 'the vector of children is given back once, not while they run', I)
            st.dead = st.dead | {T_}
            return [(st, ('ret', None))]
        ex.on_delete = on_delete
        st.g['cnt'] = z3.BitVecVal(0, 64)
        self.esize = 16
        o = ex.overrides
        o.append((re.compile(r'^std::vector<dd::expected<.*>::vector\(unsigned long, std::allocator'), vctor))
        o.append((re.compile(r'^dd::job dd::.*\(dd::task<.*&, .*coroutine_handle<.*expected<.*&, std::atomic<unsigned long>&\)'), job))
        return [P(v, 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        f = ex.norm(ex.int2p(oc[1])).base
        st.g['main'] = f
        for s, oc in resume(ex, st, f):
            ex.prove(s, oc[0] == 'ret', 'no throw')
            z = simp(self.n == 0)
            s0 = s.fork()
            s0.assume(z3.Not(z))
            if ex.feasible(s0):
                i = z3.BitVec('i', 64)
                ex.prove(s0, z3.Implies(z3.ULT(i, self.n), z3.Select(s0.g['run'], i) == 1), 'every child is started exactly once')


TARGETS += [type('Start_' + t, (Start,), dict(name='when_all(vector<task<%s>>) of any length: start' % t, fn='drv_start_' + t)) for t in ('int', 'void')]
