"""Ghost sequences (lists of elements of a family) and ghost event logs."""
import z3
from sym import *


class GList:
    """ghost sequence nd(0..n-1) of distinct elements of a family, nd(n) == 0"""

    def __init__(self, name, fam, n, nd, pos, items=None):
        self.name, self.fam, self.n, self.nd, self.pos, self.items = name, fam, n, nd, pos, items

    def member(self, x):
        if self.items is not None:
            return simp(z3.Or([zi(x) == i for i in self.items])) if self.items else z3.BoolVal(False)
        return z3.And(0 <= self.pos(x), self.pos(x) < self.n, self.nd(self.pos(x)) == x)


_ids = [100]


def new_id():
    _ids[0] += 1
    return _ids[0]


def fresh_elem(ex, st, fam, name, owned=True):
    """a new element of the family, distinct from everything owned so far"""
    if ex.small:
        i = new_id()
        if owned:
            ex.setown(st, fam, i, True)
        return i
    i = z3.Int(fresh_name(name))
    st.assume(i > 0)
    st.assume(z3.Not(z3.Select(ex.ownarr(st, fam), i)))
    if owned:
        ex.setown(st, fam, i, True)
    return i


def mk_list(ex, st, fam, name, n=None, minlen=0, link=0, owned=True, havoc=(), end=0):
    """A fresh list: distinct elements not owned before, linked through field `link`, terminated by null.
    havoc: further fields whose content becomes arbitrary for the members."""
    uname = fresh_name(name)
    if ex.small:
        assert isinstance(n, int)
        items = [new_id() for _ in range(n)]
        nd = lambda j, items=items: items[j] if isinstance(j, int) and 0 <= j < len(items) else (
            end if isinstance(j, int) else _ite_chain(j, items, end))
        pos = lambda x, items=items: _pos_chain(x, items)
        L = GList(uname, fam, n, nd, pos, items)
        for k, x in enumerate(items):
            if link is not None:
                ex.elem_set(st, fam, x, link, P(Elem(fam, nd(k + 1)), ex.fams[fam].fields[link][2]))
            if owned:
                ex.setown(st, fam, x, True)
    else:
        ndf = z3.Function('nd_' + uname, IntS, IntS)
        posf = z3.Function('pos_' + uname, IntS, IntS)
        if n is None:
            n = z3.Int('n_' + uname)
        L = GList(uname, fam, n, lambda j: ndf(zi(j)), lambda x: posf(zi(x)))
        j = z3.Int('?j')
        x = z3.Int('?x')
        st.assume(n >= minlen)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(ndf(j) > 0, posf(ndf(j)) == j)), patterns=[ndf(j)]))
        st.assume(ndf(zi(n)) == zi(end))
        mem = lambda e: z3.And(0 <= posf(e), posf(e) < n, ndf(posf(e)) == e)
        own0 = ex.ownarr(st, fam)
        # not owned before (disjoint from everything the caller owns)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(z3.Select(own0, ndf(j)))), patterns=[ndf(j)]))
        if owned:
            own1 = z3.FreshConst(own0.sort(), 'own')
            st.assume(z3.ForAll([x], z3.Select(own1, x) == z3.Or(z3.Select(own0, x), mem(x)), patterns=[z3.Select(own1, x)]))
            st.own[fam] = own1
        if link is not None:
            a0 = ex.arr(st, fam, link)
            a1 = z3.FreshConst(a0.sort(), 'next')
            st.assume(z3.ForAll([x], z3.Select(a1, x) == z3.If(mem(x), ndf(posf(x) + 1), z3.Select(a0, x)),
                                patterns=[z3.Select(a1, x)]))
            st.arrs[(fam, link, '')] = a1
        for h in havoc:
            for sub in ('', 'off'):
                if sub == 'off' and ex.fams[fam].fields[h][0] != 'pref':
                    continue
                a0 = ex.arr(st, fam, h, sub)
                a1 = z3.FreshConst(a0.sort(), 'hv')
                st.assume(z3.ForAll([x], z3.Implies(z3.Not(mem(x)), z3.Select(a1, x) == z3.Select(a0, x)),
                                    patterns=[z3.Select(a1, x)]))
                st.arrs[(fam, h, sub)] = a1
    st.lists = dict(st.lists)
    st.lists[uname] = L
    return L


def _ite_chain(j, items, end=0):
    e = zi(end)
    for k in range(len(items) - 1, -1, -1):
        e = z3.If(j == k, z3.IntVal(items[k]), e)
    return e


def _pos_chain(x, items):
    if isinstance(x, int):
        return items.index(x) if x in items else -1
    e = z3.IntVal(-1)
    for k, i in enumerate(items):
        e = z3.If(zi(x) == i, z3.IntVal(k), e)
    return simp(e)


# ------------------------------------------------------------------ logs
def log_init(st, name, *args, bvargs=()):
    st.g['len:' + name] = 0
    for a in args:
        st.g['log:%s:%s' % (name, a)] = z3.K(IntS, z3.IntVal(0))


def log_add(ex, st, name, **kw):
    n = zi(st.g['len:' + name])
    for a, v in kw.items():
        k = 'log:%s:%s' % (name, a)
        st.g[k] = z3.Store(st.g[k], n, zi(v))
    st.g['len:' + name] = simp(n + 1)


def log_len(st, name):
    return st.g['len:' + name]


def log_get(st, name, arg, i):
    return simp(z3.Select(st.g['log:%s:%s' % (name, arg)], zi(i)))
