"""A verification target: one real function (through a thin extern "C" driver), its contract and its run."""
import time, traceback
import z3
from sym import *
import engine as E
from prove import Prover


class Oracle:
    """enumerates combinations of setup-time case splits"""

    def __init__(self):
        self.vec = []
        self.pos = 0
        self.log = []

    def start(self):
        self.pos = 0
        self.log = []

    def choose(self, name, opts):
        if self.pos == len(self.vec):
            self.vec.append([0, len(opts)])
        i = self.vec[self.pos][0]
        self.pos += 1
        self.log.append('%s=%s' % (name, opts[i]))
        return opts[i]

    def next(self):
        del self.vec[self.pos:]
        while self.vec:
            self.vec[-1][0] += 1
            if self.vec[-1][0] < self.vec[-1][1]:
                return True
            self.vec.pop()
        return False


class Target:
    name = None
    fn = None              # driver function
    covers = ()            # functions under contract (for the evidence)
    small_unroll = 2       # bounded mode: iterations of non-deterministic loops
    small_sizes = (0, 1, 2, 3)
    max_cases = 400
    timeout = 20000

    def setup(self, ex, st):
        raise NotImplementedError

    def post(self, ex, st, oc):
        pass

    def expect_paths(self):
        return 1


class Result:
    def __init__(self, name):
        self.name = name
        self.obs = []
        self.error = None
        self.paths = 0
        self.reach = 0
        self.cases = 0
        self.queries = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.fns = set()
        self.models = set()
        self.contracts = set()
        self.loops = []
        self.lines = set()


def run(mod, tg, small, keep_smt=False, budget=600, first_fail=True):
    res = Result(tg.name)
    t0 = time.time()
    orc = Oracle()
    while True:
        orc.start()
        pr = Prover(timeout=tg.timeout, keep_smt=keep_smt, small=small)
        ex = E.Engine(mod, pr, small)
        ex.oracle = orc
        ex.target = tg
        ex.deadline = t0 + budget
        st = E.St()
        case = ''
        try:
            args = tg.setup(ex, st)
            if args is not None:
                case = ','.join(orc.log)
                st.g['note'] = case
                F = mod.funcs.get(tg.fn)
                if F is None or F.isdecl:
                    raise E.Unsupported('driver function %s not found' % tg.fn)
                outs = ex.run_fn(st, F, args)
                for s, oc in outs:
                    if not pr.feasible(s.pc, []):
                        continue
                    res.paths += 1
                    if small:
                        r, _ = pr.query(s.pc, [], 5000)
                        if r == z3.sat:
                            res.reach += 1
                    if oc[0] == 'abort':
                        continue
                    tg.post(ex, s, oc)
        except E.Unsupported as e:
            res.error = 'unsupported: %s [%s]' % (e, case)
        except E.NeedInv as e:
            res.error = 'loop without invariant: %s [%s]' % (e.why, case)
        except (z3.Z3Exception, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError,
                AssertionError, NotImplementedError) as e:
            res.error = 'engine: %s: %s [%s]\n%s' % (type(e).__name__, e, case, traceback.format_exc()[-1800:])
        res.cases += 1
        res.obs += pr.obs
        res.queries += pr.nq
        res.solver_s += pr.tq
        res.fns |= ex.fn_used
        res.models |= ex.models_used
        res.contracts |= ex.contracts_used
        res.loops += ex.loopinfo
        res.lines |= set(ex.cov)
        if res.error:
            break
        if time.time() - t0 > budget:
            res.error = 'time budget'
            break
        if res.cases > tg.max_cases:
            res.error = 'too many cases'
            break
        if not orc.next():
            break
    res.wall = time.time() - t0
    return res
