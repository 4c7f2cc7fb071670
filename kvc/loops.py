"""Loop cutting with inductive invariants found by Houdini over semantic templates.

The templates speak about the abstraction (position in a ghost list, ownership, event logs,
counters) and about loop-carried values by kind, never about names of local variables.
Only the candidates that hold on entry and are preserved by the body (both decided by the
solver) are kept, so whatever is assumed after the loop has been proved."""
import time
import z3
from sym import *
import engine as E

import os
DEBUG = bool(os.environ.get('KVC_DEBUG'))
J = z3.Int('?x')
K = z3.BitVec('?k', 64)


class Cand:
    """plain: f(vals, it, itb) -> Bool.   forall: body(vals, it, itb, x) with pattern"""
    __slots__ = ('name', 'f', 'q', 'pat')

    def __init__(self, name, f, q=None, pat=None):
        self.name, self.f, self.q, self.pat = name, f, q, pat

    def assume(self, v, it, itb):
        if self.q is None:
            return self.f(v, it, itb)
        x = J if self.q == 'int' else K
        b = self.f(v, it, itb, x)
        p = self.pat(v, x)
        return z3.ForAll([x], b, patterns=[p])

    def goal(self, v, it, itb):
        if self.q is None:
            return self.f(v, it, itb)
        x = fint('sk') if self.q == 'int' else fbv(64, 'sk')
        return self.f(v, it, itb, x)


def snapshot(ex, st, env, phis):
    v = {}
    for p in phis:
        v[('phi', p)] = env[p]
    for r, c in st.mem.items():
        if r in st.dead:
            continue
        for o, (sz, val) in c.items():
            if isinstance(o, int):
                v[('cell', r, o, sz)] = val
    for k, a in st.arrs.items():
        v[('arr', k)] = a
    for f, a in st.own.items():
        v[('own', f)] = a
    for g, val in st.g.items():
        v[('g', g)] = val
    return v


def kindof(ex, v):
    if v is UNDEF or v is None:
        return None
    if isinstance(v, (bool,)):
        return ('bool',)
    if isinstance(v, int):
        return ('int',)
    if is_sym(v):
        if z3.is_bv(v):
            return ('bv', v.size())
        if z3.is_bool(v):
            return ('bool',)
        if z3.is_int(v):
            return ('int',)
        if z3.is_array(v):
            return ('array',)
    if isinstance(v, P):
        v = ex.norm(v)
        b = v.base
        if b is None:
            return ('null',)
        if isinstance(b, Elem):
            return ('elem', b.fam, '*' if is_sym(v.off) else v.off)
        if isinstance(b, Arr):
            return ('arrp', b.reg, v.off)
        if isinstance(b, Region):
            if b.stride:
                return ('arrp', b, v.off)
            return ('reg', b, v.off)
        if isinstance(b, Fn):
            return ('fn', b.name)
    return ('?', v)


def samek(a, b):
    return a is b or (a is not None and b is not None and len(a) == len(b) and
                      all(x is y or (same(x, y) if is_sym(x) or is_sym(y) else x == y) for x, y in zip(a, b)))


def join(ex, key, a, b):
    if a is None:
        return b
    if b is None:
        return a
    if samek(a, b):
        return a
    ka, kb = a[0], b[0]
    if {ka, kb} == {'bool', 'int'}:
        return ('int',) if key[0] == 'g' else a if ka == 'int' else b
    if {ka, kb} == {'bv', 'int'}:
        return a if ka == 'bv' else b
    if {ka, kb} == {'bv', 'bool'}:
        return a if ka == 'bv' else b
    if ka == 'null' and kb in ('elem',):
        return b
    if kb == 'null' and ka in ('elem',):
        return a
    if ka == 'elem' and kb == 'elem' and a[1] == b[1]:
        if samek(a, b):
            return a
        return ('elem', a[1], '*')
    if ka == 'arrp' and kb == 'arrp' and a[1] is b[1] and same(a[2], b[2]):
        return a
    if ka == 'reg' and kb == 'reg' and a[1] is b[1]:
        return ('reg', a[1], '*')
    m = E.Mixed('loop-carried value of mixed kinds %r %r (%r)' % (a, b, key))
    m.loop = ex.joining
    raise m


def width(ex, L, key):
    if key[0] == 'phi':
        t = L.fn.vty[key[1]]
        return t[1] if t[0] == 'i' else 64
    if key[0] == 'cell':
        return key[3] * 8
    return None


def fresh(ex, L, key, kind, v0):
    k = kind[0]
    if k == 'elem':
        return P(Elem(kind[1], fint('h')), fbv(64, 'ho') if kind[2] == '*' or is_sym(kind[2]) else kind[2])
    if k == 'arrp':
        return P(Arr(kind[1], fbv(64, 'h')), kind[2])
    if k == 'reg':
        return P(kind[1], fbv(64, 'h')) if kind[2] == '*' else v0
    if k == 'bool':
        return fbool('h')
    if k == 'bv':
        return fbv(kind[1], 'h')
    if k == 'int':
        if key[0] == 'g':
            return fint('h')
        w = width(ex, L, key)
        return fbool('h') if w == 1 else fbv(w, 'h')
    if k == 'array':
        return z3.FreshConst(v0.sort(), 'h')
    if k in ('null', 'fn'):
        return v0
    raise E.Unsupported('havoc of %r' % (kind,))


def apply(st, env, key, v):
    if key[0] == 'phi':
        env[key[1]] = v
    elif key[0] == 'cell':
        st.wcells(key[1])[key[2]] = (key[3], v)
    elif key[0] == 'arr':
        st.arrs[key[1]] = v
    elif key[0] == 'own':
        st.own[key[1]] = v
    else:
        st.g[key[1]] = v


IGNORE_G = {'heap', 'note', 'nthrow'}


def invariant(ex, L, st0, env0, prev, why):
    F = L.fn
    where = '%s:%s' % (E.short(F.dem), F.blocks[L.header].insts[-1].line)
    envI = dict(env0)
    ex.phis(F, L.header, st0, envI, prev)
    phis = [I.id for I in F.blocks[L.header].insts if I.op == 'phi']
    init = snapshot(ex, st0, envI, phis)
    kinds = {}
    for p in phis:
        kinds[('phi', p)] = kindof(ex, init[('phi', p)])
    harvest = []

    def start(cands, it, itb):
        s = st0.fork()
        e = dict(envI)
        e['phidone'] = L.header
        vals = dict(init)
        for key, kd in kinds.items():
            if kd is None:
                v = init[key]
            else:
                v0 = init[key]
                v = fresh(ex, L, key, kd, v0)
                if key[0] == 'cell' and isinstance(v, P) and v is v0:
                    pass
            apply(s, e, key, v)
            vals[key] = v
        s.assume(it >= 0)
        for c in cands:
            s.assume(c.assume(vals, it, itb))
        return s, e, vals

    # --- discovery of the modified state
    diedrg = frozenset()
    for rnd in range(8):
        it, itb = fint('it'), fbv(64, 'itb')
        s, e, vals = start([], it, itb)
        ex.spec += 1
        old = ex.cmp_harvest
        ex.cmp_harvest = harvest
        try:
            outs, backs, exits = ex.run_region(F, [(s, e, L.header, prev)], L)
        finally:
            ex.spec -= 1
            ex.cmp_harvest = old
        new = False
        ex.joining = L
        for bs, be, bp in backs:
            be2 = dict(be)
            ex.phis(F, L.header, bs, be2, bp)
            bv_ = snapshot(ex, bs, be2, phis)
            for key, val in bv_.items():
                if key not in init:
                    if key[0] == 'cell' and key[1] in st0.mem and key[1] not in st0.dead:
                        # cell created in the loop: forget at header
                        pass
                    if key[0] in ('arr', 'own'):
                        # array first touched in the loop: its initial content is the default symbol
                        init[key] = ex.arr(st0, *key[1]) if key[0] == 'arr' and isinstance(key[1][0], str) else \
                            ex.aarr(st0, *key[1]) if key[0] == 'arr' else ex.ownarr(st0, key[1])
                        if not same(init[key], val):
                            kinds[key] = ('array',)
                            new = True
                    elif key[0] == 'g' and key[1] not in IGNORE_G:
                        raise E.Unsupported('ghost %s created in loop' % key[1])
                    continue
                if key[0] == 'g' and key[1] in IGNORE_G:
                    continue
                if key[0] == 'g' and isinstance(val, tuple):
                    if val != init[key]:
                        raise E.Unsupported('unsummarised ghost %s in loop at %s' % (key[1], where))
                    continue
                if same(val, vals.get(key, init[key])):
                    continue
                if key[0] == 'g' and not (isinstance(val, (int, bool)) or is_sym(val)):
                    if val is not init[key]:
                        raise E.Unsupported('unsummarised ghost %s in loop' % key[1])
                    continue
                k1 = join(ex, key, kinds.get(key, kindof(ex, init[key])), kindof(ex, val))
                if key not in kinds or not samek(kinds[key], k1):
                    kinds[key] = k1
                    new = True
            # cells that exist at entry but were removed / resized in the body
            for key in list(init):
                if key[0] == 'cell' and key not in bv_ and key[1] not in bs.dead and key[1] not in st0.dead:
                    c = bs.cells(key[1])
                    v = ex.load_cell(bs, key[1], key[2], key[3])
                    if not same(v, vals[key]):
                        k1 = join(ex, key, kinds.get(key, kindof(ex, init[key])), kindof(ex, v))
                        if key not in kinds or not samek(kinds[key], k1):
                            kinds[key] = k1
                            new = True
            for r in bs.dead - st0.dead:
                if r in st0.mem:
                    diedrg = diedrg | {r}
        if not new:
            break
    else:
        raise E.Unsupported('loop state does not stabilise at ' + where)
    if diedrg:
        st0.dead = st0.dead | diedrg
        for key in list(kinds):
            if key[0] == 'cell' and key[1] in diedrg:
                del kinds[key]
    backs0 = backs
    bsnap = []
    for bs, be, bp in backs:
        be2 = dict(be)
        ex.phis(F, L.header, bs, be2, bp)
        bsnap.append(snapshot(ex, bs, be2, phis))

    cands = gen(ex, L, st0, envI, init, kinds, bsnap, harvest, vals)
    # --- base case
    zero, zerob = z3.IntVal(0), z3.BitVecVal(0, 64)
    cands = filt(ex, st0.pc, cands, lambda c: c.goal(init, zero, zerob))
    # --- Houdini
    fixpoint = False
    for rnd in range(30):
        it, itb = fint('it'), fbv(64, 'itb')
        s, e, vals = start(cands, it, itb)
        ex.spec += 1
        try:
            outs, backs, exits = ex.run_region(F, [(s, e, L.header, prev)], L)
        finally:
            ex.spec -= 1
        n0 = len(cands)
        for bs, be, bp in backs:
            be2 = dict(be)
            ex.phis(F, L.header, bs, be2, bp)
            bvals = dict(vals)
            bvals.update({k: v for k, v in snapshot(ex, bs, be2, phis).items() if k in init})
            for key in kinds:
                if key[0] == 'cell':
                    bvals[key] = ex.load_cell(bs, key[1], key[2], key[3])
            cands = filt(ex, bs.pc, cands, lambda c: c.goal(bvals, it + 1, itb + 1))
        if len(cands) == n0:
            fixpoint = True
            break
    # --- final run, with obligations
    it, itb = fint('it'), fbv(64, 'itb')
    s, e, vals = start(cands, it, itb)
    if ex.feasible(st0) and not ex.feasible(s):
        # (the values at entry satisfy every candidate: the facts assumed cannot be contradictory)
        raise E.Unsupported('contradictory loop invariant at ' + where)
    ex.loopinfo.append((where, [c.name for c in cands]))
    if ex.spec == 0:
        for c in cands:
            ex.pr.prove(st0.pc, c.goal(init, zero, zerob), 'loop-invariant-on-entry: ' + c.name, where, known=True)
    outs, backs, exits = ex.run_region(F, [(s, e, L.header, prev)], L)
    if ex.spec == 0:
        for bs, be, bp in backs:
            be2 = dict(be)
            ex.phis(F, L.header, bs, be2, bp)
            bvals = dict(vals)
            bvals.update({k: v for k, v in snapshot(ex, bs, be2, phis).items() if k in init})
            for key in kinds:
                if key[0] == 'cell':
                    bvals[key] = ex.load_cell(bs, key[1], key[2], key[3])
            for c in cands:
                ex.pr.prove(bs.pc, c.goal(bvals, it + 1, itb + 1), 'loop-invariant-preserved: ' + c.name, where, known=fixpoint)
    if ex.on_loop:
        ex.on_loop(ex, L, s, backs, exits)
    return outs, exits


def filt(ex, pc, cands, goal):
    t = time.time()
    try:
        return filt_(ex, pc, cands, goal)
    finally:
        ex.pr.tq += time.time() - t


def filt_(ex, pc, cands, goal):
    if not cands:
        return cands
    s = z3.Solver()
    s.set('timeout', 20000)
    s.set('rlimit', ex.pr.rl_filter)
    for c in pc:
        s.add(c)
    out = []
    pend = []
    for c in cands:
        g = goal(c)
        if isinstance(g, bool):
            if g:
                out.append(c)
            continue
        pend.append((c, g))
    # all together first
    if pend:
        s.push()
        s.add(z3.Not(z3.And([g for _, g in pend])))
        r = s.check()
        ex.pr.nq += 1
        s.pop()
        if r == z3.unsat:
            return out + [c for c, _ in pend]
        keep = []
        for c, g in pend:
            s.push()
            s.add(z3.Not(g))
            r = s.check()
            ex.pr.nq += 1
            s.pop()
            if r == z3.unsat:
                keep.append(c)
            elif DEBUG:
                print('   drop', c.name, r, s.reason_unknown() if r == z3.unknown else '')
        out += keep
    order = {id(c): i for i, c in enumerate(cands)}
    out.sort(key=lambda c: order[id(c)])
    return out


def gen(ex, L, st0, env0, init, kinds, bsnap, harvest, hvals):
    C = []
    add = lambda name, f, q=None, pat=None: C.append(Cand(name, f, q, pat))
    lists = list(st0.lists.values())
    gints = [k for k, kd in kinds.items() if k[0] == 'g' and kd and kd[0] == 'int']
    allg = [k for k, v in init.items() if k[0] == 'g' and k[1] not in IGNORE_G and
            (isinstance(v, int) and not isinstance(v, bool) or (is_sym(v) and z3.is_int(v)))]
    nm = lambda k: '/'.join(str(x) for x in k)

    def eid(ex_, v):
        if v is UNDEF or not isinstance(v, P):
            return None
        v = ex.norm(v)
        if v.base is None:
            return z3.IntVal(0)
        if isinstance(v.base, Elem):
            return zi(v.base.id)
        return None
    elems = {k: kd for k, kd in kinds.items() if kd and kd[0] == 'elem'}
    # values of pointer kind available in the enclosing frame (arguments etc.)
    frame_elems = {}
    for k, v in env0.items():
        if isinstance(k, int) and isinstance(v, P):
            vv = ex.norm(v)
            if isinstance(vv.base, Elem):
                frame_elems.setdefault((vv.base.fam, str(vv.base.id)), vv)
    for Ls in lists:
        add('it<=len(%s)' % Ls.name, lambda v, it, ib, Ls=Ls: it <= zi(Ls.n))
        add('it<len(%s)' % Ls.name, lambda v, it, ib, Ls=Ls: it < zi(Ls.n))
    for k, kd in elems.items():
        fam = kd[1]
        i0 = eid(ex, init[k])
        V = lambda v, k=k: eid(ex, v[k])
        n = nm(k)
        if i0 is not None:
            add(n + '==entry', lambda v, it, ib, V=V, i0=i0: V(v) == i0)
        add(n + '!=null', lambda v, it, ib, V=V: V(v) != 0)
        for Ls in lists:
            if Ls.fam != fam:
                continue
            for s in (0, 1):
                add('%s==%s[it+%d]' % (n, Ls.name, s), lambda v, it, ib, V=V, Ls=Ls, s=s: V(v) == Ls.nd(it + s))
            if i0 is not None:
                add('%s==%s[it-1] or entry' % (n, Ls.name),
                    lambda v, it, ib, V=V, Ls=Ls, i0=i0: V(v) == z3.If(it == 0, i0, Ls.nd(it - 1)))
            for g in allg:
                for s in (0, 1):
                    add('%s==%s[%s+%d]' % (n, Ls.name, g[1], s),
                        lambda v, it, ib, V=V, Ls=Ls, g=g, s=s: V(v) == Ls.nd(zi(v[g]) + s))
            add('%s in %s or null' % (n, Ls.name), lambda v, it, ib, V=V, Ls=Ls: z3.Or(V(v) == 0, Ls.member(V(v))))
            add('%s in %s' % (n, Ls.name), lambda v, it, ib, V=V, Ls=Ls: Ls.member(V(v)))
        # field relations: the value equals the link field of something in the frame
        F = ex.fams[fam]
        for fo, fk in F.fields.items():
            if fk[0] == 'ref' and fk[1] == fam:
                for fe in frame_elems.values():
                    if fe.base.fam == fam:
                        add('%s==link(%s)' % (n, fe), lambda v, it, ib, V=V, fe=fe, fo=fo, fam=fam:
                            V(v) == z3.Select(v.get(('arr', (fam, fo, ''))) if v.get(('arr', (fam, fo, ''))) is not None else ex.arr(st0, fam, fo), zi(fe.base.id)))
                for k2, kd2 in elems.items():
                    if k2 != k and kd2[1] == fam:
                        add('%s==link(%s)' % (n, nm(k2)), lambda v, it, ib, V=V, k2=k2, fo=fo, fam=fam:
                            V(v) == z3.Select(v.get(('arr', (fam, fo, ''))) if v.get(('arr', (fam, fo, ''))) is not None else ex.arr(st0, fam, fo), eid(ex, v[k2])))
        for k2, kd2 in elems.items():
            if k2 > k if type(k2) == type(k) and False else (nm(k2) > n and kd2[1] == fam):
                add('%s==%s' % (n, nm(k2)), lambda v, it, ib, V=V, k2=k2: V(v) == eid(ex, v[k2]))
    # pairs (elem, ghost int)
    # bit-vector counters and array indices
    def bvval(k, v):
        x = v[k]
        if isinstance(x, P):
            b = x.base
            if isinstance(b, Arr):
                return bv(b.idx, 64)
            if isinstance(b, Region) and b.stride:
                return z3.BitVecVal(0, 64)
            return bv(x.off, 64)
        if x is UNDEF or x is None:
            return None
        kd = kinds[k]
        w = kd[1] if kd[0] == 'bv' else (width(ex, L, k) or 64)
        return bv(x, w)
    bvk = [k for k, kd in kinds.items() if kd and k[0] != 'g' and (kd[0] in ('bv', 'arrp') or (kd[0] == 'int' and (width(ex, L, k) or 1) > 1)
                                                                 or (kd[0] == 'reg' and kd[2] == '*'))]
    bvk += [k for k, kd in kinds.items() if kd and k[0] == 'g' and kd[0] == 'bv']
    hv = set()
    for k in kinds:
        x = hvals.get(k)
        if is_sym(x):
            hv |= vars_of(x)
        elif isinstance(x, P):
            if isinstance(x.base, (Elem, )):
                hv |= vars_of(x.base.id)
            if isinstance(x.base, Arr):
                hv |= vars_of(x.base.idx)
            hv |= vars_of(x.off)
    bounds = {}
    for a, b in harvest:
        for e in (a, b):
            if not (vars_of(e) & hv) and not any(v.startswith(('h!', 'ho!', 'it!', 'itb!')) for v in vars_of(e)):
                bounds[e.sexpr()] = e
    for k, v0 in init.items():
        if k[0] == 'phi' or k not in kinds:
            continue
    for a in list(env0.values()):
        if is_sym(a) and z3.is_bv(a) and a.size() == 64:
            bounds[a.sexpr()] = a
    for r in list(st0.mem):
        if r.count is not None:
            e = bv(r.count, 64)
            bounds[e.sexpr()] = e
    for k in bvk:
        v0 = bvval(k, init)
        if v0 is None:
            continue
        w = v0.size()
        n = nm(k)
        add(n + '==entry', lambda v, it, ib, k=k, v0=v0: bvval(k, v) == v0)
        if w == 64:
            steps = set()
            for bsn in bsnap:
                if k in bsn:
                    y = bsn[k]
                    try:
                        yv = bvval(k, bsn)
                        d = simp(yv - bvval(k, hvals))
                        if isinstance(d, int):
                            steps.add(d)
                    except Exception:
                        pass
            for d in steps:
                add('%s==entry+it*%d' % (n, sgn(d, 64)), lambda v, it, ib, k=k, v0=v0, d=d: bvval(k, v) == v0 + ib * d)
            for bn, be in bounds.items():
                if be.size() == 64 and len(bn) < 400:
                    add('%s<=%s' % (n, bn[:60]), lambda v, it, ib, k=k, be=be: z3.ULE(bvval(k, v), be))
                    add('%s>=%s' % (n, bn[:60]), lambda v, it, ib, k=k, be=be: z3.UGE(bvval(k, v), be))
            add('%s>=entry' % n, lambda v, it, ib, k=k, v0=v0: z3.UGE(bvval(k, v), v0))
            add('%s<=entry' % n, lambda v, it, ib, k=k, v0=v0: z3.ULE(bvval(k, v), v0))
        for k2 in bvk:
            if nm(k2) > n:
                w0 = bvval(k2, init)
                if w0 is not None and w0.size() == w:
                    add('%s-%s const' % (n, nm(k2)), lambda v, it, ib, k=k, k2=k2, d=v0 - w0: bvval(k, v) - bvval(k2, v) == d)
    # booleans
    for k, kd in kinds.items():
        if kd and kd[0] == 'bool':
            v0 = init[k]
            if v0 is UNDEF:
                continue
            add(nm(k) + '==entry', lambda v, it, ib, k=k, v0=v0: zb(tobool(v[k])) == zb(tobool(v0)))
    # ghost integers
    for k in gints:
        g0 = zi(init[k])
        n = nm(k)
        add(n + '==entry', lambda v, it, ib, k=k, g0=g0: zi(v[k]) == g0)
        add(n + '==entry+it', lambda v, it, ib, k=k, g0=g0: zi(v[k]) == g0 + it)
        add(n + '>=entry', lambda v, it, ib, k=k, g0=g0: zi(v[k]) >= g0)
        add(n + '<=entry', lambda v, it, ib, k=k, g0=g0: zi(v[k]) <= g0)
        for k2 in allg:
            if k2 != k and (k2 not in gints or nm(k2) > n):
                add('%s==%s' % (n, nm(k2)), lambda v, it, ib, k=k, k2=k2: zi(v[k]) == zi(v[k2]))
                add('%s-%s==entry' % (n, nm(k2)), lambda v, it, ib, k=k, k2=k2, d=zi(init[k]) - zi(init[k2]):
                    zi(v[k]) - zi(v[k2]) == d)
            if k2 != k:
                add('%s<=%s' % (n, nm(k2)), lambda v, it, ib, k=k, k2=k2: zi(v[k]) <= zi(v[k2]))
        for Ls in lists:
            add('%s<=len(%s)' % (n, Ls.name), lambda v, it, ib, k=k, Ls=Ls: zi(v[k]) <= zi(Ls.n))
    # arrays
    for k, kd in kinds.items():
        if not kd or kd[0] != 'array':
            continue
        A0 = init[k]
        n = nm(k)
        dom = A0.sort().domain()
        rng = A0.sort().range()
        if dom == IntS:
            add(n + ' unchanged', lambda v, it, ib, x, k=k, A0=A0: z3.Select(v[k], x) == z3.Select(A0, x), 'int',
                lambda v, x, k=k: z3.Select(v[k], x))
            fam = k[1][0] if k[0] == 'arr' else k[1] if k[0] == 'own' else None
            if k[0] == 'arr':
                own0 = ex.ownarr(st0, fam)
                add(n + ' unchanged on owned', lambda v, it, ib, x, k=k, A0=A0, own0=own0:
                    z3.Implies(z3.Select(own0, x), z3.Select(v[k], x) == z3.Select(A0, x)), 'int',
                    lambda v, x, k=k: z3.Select(v[k], x))
            if k[0] in ('arr', 'own'):
                for fe in frame_elems.values():
                    if fe.base.fam == fam:
                        add('%s unchanged except %s' % (n, fe), lambda v, it, ib, x, k=k, A0=A0, i=zi(fe.base.id):
                            z3.Implies(x != i, z3.Select(v[k], x) == z3.Select(A0, x)), 'int',
                            lambda v, x, k=k: z3.Select(v[k], x))
                consts = {}
                if rng == BoolS:
                    consts['false'] = z3.BoolVal(False)
                    consts['true'] = z3.BoolVal(True)
                else:
                    for bsn in bsnap:
                        if k in bsn:
                            for cst in stored_consts(bsn[k]):
                                consts[str(cst)] = cst
                for Ls in lists:
                    if Ls.fam != fam:
                        continue
                    Ts = [(cn, (lambda x, Ls=Ls, c=c: c)) for cn, c in consts.items()]
                    if k[0] == 'arr' and rng == IntS:
                        kind = ex.fams[fam].fields.get(k[1][1])
                        if kind and kind[0] == 'ref' and kind[1] == fam:
                            # reversed link: predecessor, entry value of some loop-carried pointer for the first
                            firsts = {'null': z3.IntVal(0)}
                            for ek in elems:
                                i0 = eid(ex, init[ek])
                                if i0 is not None and elems[ek][1] == fam:
                                    firsts[nm(ek)] = i0
                            for fn_, f0 in firsts.items():
                                Ts.append(('pred|' + fn_, lambda x, Ls=Ls, f0=f0: z3.If(Ls.pos(x) == 0, f0, Ls.nd(Ls.pos(x) - 1))))
                    bnds = [('it+%d' % s, (lambda v, it, s=s: it + s)) for s in (0, 1)]
                    for g in gints:
                        bnds.append((g[1], lambda v, it, g=g: zi(v[g])))
                        bnds.append((g[1] + '+1', lambda v, it, g=g: zi(v[g]) + 1))
                    for tn, T in Ts:
                        for bn, bf in bnds:
                            add('%s[x]==(pos<%s of %s ? %s : entry)' % (n, bn, Ls.name, tn),
                                lambda v, it, ib, x, k=k, A0=A0, Ls=Ls, T=T, bf=bf:
                                z3.Select(v[k], x) == z3.If(z3.And(Ls.member(x), Ls.pos(x) < bf(v, it)), T(x), z3.Select(A0, x)),
                                'int', lambda v, x, k=k: z3.Select(v[k], x))
                            if k[0] == 'own' and tn == 'false':
                                continue
            if k[0] == 'g' and k[1].startswith('log:'):
                # event log  log:NAME:arg with length len:NAME
                lk = ('g', 'len:' + k[1].split(':')[1])
                len0 = zi(init[lk])
                add(n + ' kept', lambda v, it, ib, x, k=k, A0=A0, len0=len0:
                    z3.Implies(z3.And(0 <= x, x < len0), z3.Select(v[k], x) == z3.Select(A0, x)), 'int',
                    lambda v, x, k=k: z3.Select(v[k], x))
                if rng == IntS:
                    Ts = []
                    for Ls in lists:
                        for s in (0, 1):
                            Ts.append(('%s[j+%d]' % (Ls.name, s), lambda j, Ls=Ls, s=s: Ls.nd(j + s)))
                            for fo, fk in ex.fams[Ls.fam].fields.items():
                                if fk[0] == 'ref':
                                    a0 = init.get(('arr', (Ls.fam, fo, '')))
                                    if a0 is None:
                                        a0 = ex.arr(st0, Ls.fam, fo)
                                    Ts.append(('%s[j+%d].f%s' % (Ls.name, s, fo),
                                               lambda j, Ls=Ls, s=s, a0=a0: z3.Select(a0, Ls.nd(j + s))))
                    for cst in set().union(*[set(stored_consts(b[k])) for b in bsnap if k in b] or [set()]):
                        Ts.append((str(cst), lambda j, c=cst: c))
                    for bsn in bsnap:
                        if k in bsn:
                            for e in stored_vals(bsn[k]):
                                if not (vars_of(e) & hv) and not any(x.startswith(('h!', 'it!')) for x in vars_of(e)):
                                    Ts.append((str(e), lambda j, c=e: c))
                    for tn, T in Ts:
                        add('%s[k]==(k<entry len ? entry : %s)' % (n, tn),
                            lambda v, it, ib, x, k=k, A0=A0, len0=len0, lk=lk, T=T:
                            z3.Implies(z3.And(0 <= x, x < zi(v[lk])),
                                       z3.Select(v[k], x) == z3.If(x < len0, z3.Select(A0, x), T(x - len0))), 'int',
                            lambda v, x, k=k: z3.Select(v[k], x))
        elif dom == z3.BitVecSort(64):
            add(n + ' unchanged', lambda v, it, ib, x, k=k, A0=A0: z3.Select(v[k], x) == z3.Select(A0, x), 'bv',
                lambda v, x, k=k: z3.Select(v[k], x))
            Ts = []
            if rng == IntS:
                Ts.append(('+1', lambda o: o + 1))
                Ts.append(('0', lambda o: z3.IntVal(0)))
                for bsn in bsnap:
                    for cst in stored_consts(bsn.get(k)) if k in bsn else ():
                        Ts.append((str(cst), lambda o, c=cst: c))
            elif rng == BoolS:
                Ts += [('true', lambda o: z3.BoolVal(True)), ('false', lambda o: z3.BoolVal(False))]
            else:
                Ts.append(('+1', lambda o: o + 1))
                for bsn in bsnap:
                    for cst in stored_consts(bsn.get(k)) if k in bsn else ():
                        Ts.append((str(cst), lambda o, c=cst: c))
            for k2 in bvk:
                v0 = bvval(k2, init)
                if v0 is None or v0.size() != 64:
                    continue
                for tn, T in Ts:
                    for cn, cf in (('k<', lambda x, b, b0: z3.And(z3.ULT(x, b), z3.UGE(x, b0))),
                                   ('k>=', lambda x, b, b0: z3.And(z3.UGE(x, b), z3.ULT(x, b0))),
                                   ('k>', lambda x, b, b0: z3.And(z3.UGT(x, b), z3.ULE(x, b0)))):
                        add('%s[k]==(%s%s ? %s : entry)' % (n, cn, nm(k2), tn),
                            lambda v, it, ib, x, k=k, A0=A0, k2=k2, T=T, v0=v0, cf=cf:
                            z3.Select(v[k], x) == z3.If(cf(x, bvval(k2, v), v0), T(z3.Select(A0, x)), z3.Select(A0, x)), 'bv',
                            lambda v, x, k=k: z3.Select(v[k], x))
                        # conditional effect: only where a predicate array held at entry
                        for pk, pa in list(init.items()):
                            if pk[0] in ('arr', 'g') and is_sym(pa) and z3.is_array(pa) and pa.sort().domain() == dom and \
                                    pa.sort().range() == BoolS and pk != k:
                                add('%s[k]==(%s%s && %s ? %s : entry)' % (n, cn, nm(k2), nm(pk), tn),
                                    lambda v, it, ib, x, k=k, A0=A0, k2=k2, T=T, v0=v0, cf=cf, pa=pa:
                                    z3.Select(v[k], x) == z3.If(z3.And(cf(x, bvval(k2, v), v0), z3.Select(pa, x)), T(z3.Select(A0, x)), z3.Select(A0, x)), 'bv',
                                    lambda v, x, k=k: z3.Select(v[k], x))
    if ex.extra_cands:
        C += ex.extra_cands(ex, L, st0, env0, init, kinds, bsnap)
    return C


def vars_of(e):
    out = set()
    if not is_sym(e):
        return out
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack += x.children()
    return out


def stored_vals(a):
    out = []
    while is_sym(a) and z3.is_store(a):
        out.append(a.arg(2))
        a = a.arg(0)
    return out


def stored_consts(a):
    return [v for v in stored_vals(a) if z3.is_bv_value(v) or z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v)]
