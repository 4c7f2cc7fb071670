"""Programs of generator/channel bodies and their reference semantics.

A program is a tuple of items; every nested body has an id of its own.  The real bodies (drivers/gens.hpp) ask the
environment what to do next; the reference machine says which events and which value every resumption must give."""
from props.common import *
from props.scen import *
import itertools, re

CODE = {'v': 1, 'c': 2, 'r': 3, 'm': 13, 'q': 14, 'X': 4, 'leaf': 5, 'part': 6, 'partm': 12, 'range': 7, 'none': 8, 'rleaf': 9, 'sleaf': 10,
        'conv': 11, 'gate': 15}
# yields of one value, by element type: what the body finds afterwards
SEEN = {'int': {'v': None, 'c': 'copy', 'm': 'copy', 'r': 'ref'}, 'ref': {'r': 'ref', 'q': 'ref'},
        'own': {'v': None, 'r': 'ref', 'q': 'ref'}, 'unit': {'v': None}}
SUB = ('leaf', 'part', 'partm', 'rleaf', 'sleaf', 'conv')


def flatten(prog):
    """-> code: id -> list of (opcode, arg id, count, name); the root has id 0"""
    code = {}

    def go(p):
        i = len(code)
        code[i] = None
        out = []
        for it in p:
            if isinstance(it, str):
                out.append((CODE[it], 0, 0, it))
            else:
                n = it[1] if it[0] in ('part', 'partm') else 0
                out.append((CODE[it[0]], go(it[-1]), n, it[0]))
        code[i] = out
        return i
    go(prog)
    return code


class Ref:
    """one range object: stack of active bodies"""

    def __init__(self, sem, root):
        self.sem = sem
        self.stack = [['body', root, 0, None]] if root is not None else []

    def done(self):
        return not self.stack

    def copy(self, sem):
        r = Ref(sem, None)
        r.stack = [[x.copy(sem) if isinstance(x, Ref) else list(x) if isinstance(x, list) else x for x in f] for f in self.stack]
        return r

    def resume(self, ev):
        S = self.sem
        while self.stack:
            f = self.stack[-1]
            if f[0] == 'body':
                _, i, pc, after = f
                if after:
                    ev.extend(after)
                    f[3] = None
                ops = S.code[i]
                if pc == len(ops):
                    self.stack.pop()
                    continue
                f[2] += 1
                c, arg, n, nm = ops[pc]
                seen = SEEN[S.ty]
                if nm in seen:
                    k = S.cell()
                    how = seen[nm]
                    f[3] = [('ran', i)] if how is None else [('saw', i, k if how == 'ref' else (k, 'orig'))]
                    return ('val', k, how)
                if nm == 'X':
                    self.stack.pop()
                    return ('throw',)
                if nm == 'gate':
                    ev.append(('gate', i))
                    return ('gate', i)
                if nm == 'none':
                    f[3] = [('ran', i)]
                    continue
                if nm == 'range':
                    ks = [S.cell(), S.cell()]
                    f[3] = [('saw', i, k) for k in ks]
                    self.stack.append(['range', list(ks)])
                    continue
                f[3] = [('ran', i)]
                if nm == 'conv':
                    self.stack.append(['conv', Ref(S, arg)])
                    continue
                if nm in ('part', 'partm'):
                    self.stack.append(['pre', i, Ref(S, arg), n])
                else:
                    self.stack += Ref(S, arg).stack
            elif f[0] == 'pre':   # a body consumes elements of a nested range itself before it yields the rest
                _, i, sub, n = f
                if n == 0:
                    self.stack.pop()
                    self.stack += sub.stack
                    continue
                f[3] -= 1
                r = sub.resume(ev)
                if r[0] == 'val':
                    ev.append(('pre', i, (r[1], 'now')))
                elif r[0] == 'gate':
                    f[3] += 1
                    return r
                else:
                    self.stack.pop()
                    if r[0] == 'end' or S.chan:   # a failed channel shows its end first
                        ev.append(('preend', i))
                    if r[0] == 'throw':
                        self.stack.pop()
                        return r
            elif f[0] == 'range':
                if not f[1]:
                    self.stack.pop()
                    continue
                return ('val', f[1].pop(0), 'ref')
            else:
                r = f[1].resume(ev)
                if r[0] == 'end':
                    self.stack.pop()
                    continue
                if r[0] == 'throw':
                    self.stack.pop()
                    return r
                if r[0] == 'val':
                    return ('val', r[1], 'conv')
                return r
        return ('end',)


class Sem:
    chan = False

    def __init__(self, ty, code, first=0):
        self.ty, self.code, self.n = ty, code, first
        self.cur = {}

    def copy(self):
        r = Sem(self.ty, self.code, self.n)
        r.cur = dict(self.cur)
        return r

    def cell(self):
        self.n += 1
        return self.n - 1


def programs(size, items, depth=3):
    """all programs with at most `size` nodes over the item names (parts as 'part<n>')"""
    memo = {}

    def seqs(n, d):   # sequences of exactly n nodes
        if (n, d) in memo:
            return memo[n, d]
        out = [()] if n == 0 else []
        for k in range(1, n + 1):
            for it in its(k, d):
                for rest in seqs(n - k, d):
                    out.append((it,) + rest)
        memo[n, d] = out
        return out

    def its(k, d):
        for nm in items:
            if nm.startswith('part') and nm[-1].isdigit():
                a = (nm[:-1], int(nm[-1]))
            else:
                a = (nm,)
            if a[0] in SUB:
                if d > 0:
                    for p in seqs(k - 1, d - 1):
                        if a[0] == 'conv' and any(x not in ('v', 'X') for x in p):
                            continue
                        yield a + (p,)
            elif k == 1:
                yield nm
    return [p for n in range(size + 1) for p in seqs(n, depth)]


class Body(Scen):
    """handlers of the body environment"""
    events = ()
    ty, fn = 'int', 'drv_nop'

    def d(self, op):
        return 'drv_%s_%s' % (op, self.ty)

    def h(self, st, name, size=64):
        return Scen.h(self, st, name, size)

    def setup(self, ex, st):
        self.base(ex, st)
        st.g.update(pc=(), ys=(), code={}, on=False)
        self.unit = ex.new_region(st, 'unit', 1, 'param')

        def cur(st, i):
            return st.g['code'][i][dict(st.g['pc']).get(i, 0) - 1]

        def op(ex, st, a, I):
            i = a[0]
            if not ex.prove(st, st.g['on'], 'bodies run only when the next element is asked for', I):
                return []
            pc = dict(st.g['pc'])
            k = pc.get(i, 0)
            if not ex.prove(st, i in st.g['code'] and k <= len(st.g['code'][i]), 'a body runs once', I):
                return []
            pc[i] = k + 1
            st.g['pc'] = tuple(sorted(pc.items()))
            return st.g['code'][i][k][0] if k < len(st.g['code'][i]) else 0

        def yl(ex, st, a, I):
            v = fbv(32, 'yielded')
            st.g['ys'] = st.g['ys'] + (v,)
            return v

        def tr(name, n):
            def h(ex, st, a, I):
                st.g['tr'] = st.g['tr'] + ((name,) + tuple(a[:n]),)
            return h

        def gate(ex, st, a, I):
            st.g['tr'] = st.g['tr'] + (('gate', a[0]),)
            return self.gatecell
        o = ex.overrides
        o[:0] = [(re.compile(r'^ext_op$'), op), (re.compile(r'^ext_yield$'), yl),
                 (re.compile(r'^ext_arg$'), lambda ex, st, a, I: cur(st, a[0])[1]),
                 (re.compile(r'^ext_cnt$'), lambda ex, st, a, I: cur(st, a[0])[2]),
                 (re.compile(r'^ext_throw$'), lambda ex, st, a, I: [(st, ('throw', E.Exc(P(Elem('exc', st.g['excid']), 0), None)))]),
                 (re.compile(r'^ext_unit$'), lambda ex, st, a, I: P(self.unit, 0)),
                 (re.compile(r'^ext_gate$'), gate),
                 (re.compile(r'^ext_gone$'), lambda ex, st, a, I: None)]
        for nm, n in (('saw', 2), ('pre', 2), ('preend', 1), ('ran', 1)) + tuple(self.more):
            o.insert(0, (re.compile(r'^ext_%s$' % nm), tr(nm, n)))
        return []

    more = ()

    def load_prog(self, st, prog, first=None):
        """ids of a program; a second program gets ids of its own"""
        c = flatten(prog)
        code = dict(st.g['code'])
        b = len(code)
        for i, ops in c.items():
            code[i + b] = [(x, y + b if nm in SUB else 0, n, nm) for x, y, n, nm in ops]
        st.g['code'] = code
        return b

    def orig(self, st, k, conv=False):
        v = st.g['ys'][k]
        if conv:
            v = simp(z3.SignExt(16, z3.Extract(15, 0, bv(v, 32))))
        return v

    def check_events(self, st, sem, ev, what):
        got = self.take(st)
        if not self.ok(st, tuple((g[0], g[1]) for g in got) == tuple((e[0], e[1]) for e in ev),
                       '%s: the bodies run in order, one at a time' % what):
            self.why = (got, ev)
            raise Stop()
        for g, e in zip(got, ev):
            if len(e) > 2:
                k = e[2]
                if isinstance(k, tuple):
                    want = self.orig(st, k[0]) if k[1] == 'orig' else sem.cur.get(k[0], self.orig(st, k[0]))
                else:
                    want = sem.cur.get(k, self.orig(st, k))
                m = {'saw': 'the body finds its variable as the consumer left it', 'pre': 'a nested range consumed by the body itself gives its elements'}
                self.ok(st, simp(bv(g[2], 32) == want), '%s: %s' % (what, m[e[0]]))
