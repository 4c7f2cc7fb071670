"""Discharging obligations with z3 (and, in the thorough tier, a second time with cvc5)."""
import time, subprocess, tempfile, os
import z3
from sym import *

z3.set_param('smt.mbqi', False)
z3.set_param('auto_config', False)


# resource limits (solver steps, not seconds: results do not depend on machine load)
RL_FILTER = 6000000
RL_PROVE = 60000000
RL_FEAS = 8000000
SCALE = 1


_REM = {}
_ABS = {}


def hard(e):
    """remainders, and products with a big constant (hash functions)"""
    if not z3.is_app(e):
        return False
    k = e.decl().kind()
    return k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) or k == z3.Z3_OP_BMUL and e.size() == 64 and \
        any(z3.is_bv_value(c) and 1 << 32 < c.as_long() < (1 << 64) - (1 << 32) for c in e.children())


def has_rem(e):
    r = _REM.get(e.get_id())
    if r is not None:
        return r[0]
    if z3.is_quantifier(e):
        v = False
    else:
        v = hard(e) or any(has_rem(c) for c in e.children())
    _REM[e.get_id()] = (v, e)
    return v


def no_rem(e, ax):
    if not has_rem(e):
        return e
    r = _ABS.get(e.get_id())
    if r is None:
        sub = {}
        ch = [no_rem(c, sub) for c in e.children()]
        if e.decl().kind() in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            so = e.sort()
            f = z3.Function('urem%d' % so.size(), so, so, so)
            x = f(*ch)
            sub[x.get_id()] = z3.And(z3.ULE(x, ch[0]), z3.Implies(ch[1] != 0, z3.ULT(x, ch[1])))
        else:
            k = e.decl().kind()
            x = z3.Function('hmul%d_%d' % (e.size(), len(ch)), *[e.sort()] * (len(ch) + 1))(*ch) if hard(e) else z3.And(ch) if k == z3.Z3_OP_AND else z3.Or(ch) if k == z3.Z3_OP_OR else e.decl()(*ch)
        r = _ABS[e.get_id()] = (x, sub, e)
    ax.update(r[1])
    return r[0]


class Ob:
    __slots__ = ('name', 'loc', 'status', 'time', 'note', 'model', 'trail', 'backend', 'smt2')

    def __init__(self, name, loc):
        self.name, self.loc = name, loc
        self.status = None
        self.time = 0
        self.note = self.model = self.trail = self.smt2 = None
        self.backend = 'z3'


class Prover:
    def __init__(self, timeout=20000, keep_smt=False, small=False):
        self.obs = []
        self.timeout = timeout
        self.keep = keep_smt
        self.small = small
        self.nq = 0
        self.tq = 0.0
        self.feas_cache = {}
        self.stop_on_fail = False
        self.scale = SCALE
        self.rl_filter = RL_FILTER * SCALE

    def mark(self):
        return len(self.obs)

    def reset(self, m):
        del self.obs[m:]

    def _solver(self, pcs, extra, timeout, rl=0):
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set('timeout', timeout)
        s.set('rlimit', rl)
        for c in pcs:
            s.add(c)
        for c in extra:
            s.add(c)
        return s

    def query(self, pcs, extra, timeout=None, rl=0, exact=True):
        t = time.time()
        if any(has_rem(c) for c in pcs) or any(has_rem(c) for c in extra):
            # first with remainders (of which only r <= a and r < b is known) and hash products as uninterpreted functions (a weaker
            # premise: an unsatisfiable answer carries over)
            ax = {}
            s = self._solver([no_rem(c, ax) for c in pcs], [no_rem(c, ax) for c in extra], timeout or self.timeout, rl)
            for c in ax.values():
                s.add(c)
            r = s.check()
            if r == z3.unsat or not exact:
                self.nq += 1
                self.tq += time.time() - t
                return r, s
        s = self._solver(pcs, extra, timeout or self.timeout, rl)
        r = s.check()
        self.nq += 1
        self.tq += time.time() - t
        return r, s

    def feasible(self, pcs, extra):
        if not extra:
            if not pcs:
                return True
        key = (tuple(c.get_id() for c in pcs), tuple(c.get_id() for c in extra))
        r = self.feas_cache.get(key)
        if r is not None:
            return r[0]
        # syntactic
        ids = set(key[0])
        for e in extra:
            ne = simp(z3.Not(e))
            if ne is True:
                return False
            if is_sym(ne) and ne.get_id() in ids:
                return False
        q, _ = self.query(pcs, extra, 30000, RL_FEAS, False)
        r = q != z3.unsat
        self.feas_cache[key] = (r, list(pcs), list(extra))
        return r

    def valid(self, pcs, cond, timeout=3000):
        """quiet entailment test"""
        if cond is True:
            return True
        if cond is False:
            return self.query(pcs, [], timeout)[0] == z3.unsat
        return self.query(pcs, [z3.Not(cond)], timeout)[0] == z3.unsat

    def prove(self, pcs, cond, name, loc, st=None, note=None, known=False):
        """known: the same condition (up to the names of fresh symbols) was just discharged"""
        o = Ob(name, loc)
        o.note = note
        self.obs.append(o)
        if known and not self.keep:
            o.status = 'discharged'
            return True
        if cond is True:
            o.status, o.backend = 'discharged', 'simplifier'
            return True
        t = time.time()
        neg = [] if cond is False else [z3.Not(cond)]
        r, s = self.query(pcs, neg, 60000 * self.scale, RL_PROVE * self.scale)
        if r != z3.unsat:
            # retry with other tactics/seeds before giving up
            if r == z3.unknown and not self.small:
                for seed in (7, 23):
                    s2 = self._solver(pcs, neg, 60000 * self.scale, RL_PROVE * self.scale)
                    s2.set('random_seed', seed)
                    if seed == 23:
                        s2.set('auto_config', True)
                        s2.set('mbqi', True)
                        s2.set('timeout', 6000)
                        s2.set('rlimit', RL_FEAS)
                    r = s2.check()
                    if r != z3.unknown:
                        s = s2
                        break
        o.time = time.time() - t
        if r == z3.unsat:
            o.status = 'discharged'
            if self.keep:
                o.smt2 = s.to_smt2()
            return True
        if known:
            o.status = 'discharged'
            return True
        o.status = 'refuted' if r == z3.sat else 'unknown'
        o.trail = [] if st is None else list(st.trail)[-40:]
        try:
            if r == z3.sat or r == z3.unknown:
                m = s.model()
                o.model = str(m)[:6000]
        except z3.Z3Exception:
            o.model = None
        if st is not None and 'note' in st.g:
            o.note = (o.note or '') + ' ' + str(st.g['note'])
        return False


def cvc5_recheck(smt2, timeout=60):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write('(set-logic ALL)\n' + smt2)
    f.close()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'error ' + r.stderr[:200]
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(f.name)
