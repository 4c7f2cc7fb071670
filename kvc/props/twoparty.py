"""Two parties (a running coroutine and the owner of its frame) that meet only through atomics in the frame.
The environment of one party is the other one running at any point: modes 'seq' (nobody else), 'coro' (verify the
coroutine's last steps against an owner that may let go at any time), 'owner' (verify owner operations against a
coroutine that may finish at any time)."""
from props.common import *
from props.c21 import resume
from props.shared import call_drv
import re


class Spy:
    """find the atomics an operation uses: records (offset, operation)"""
    shared = True

    def __init__(self, log, p):
        self.log, self.p = log, p

    def rec(self, st, k):
        self.log.append((self.p.base, self.p.off, k))

    def load(self, ex, st, p, ty, order, I):
        self.rec(st, 'load')
        return [(st, ex.load(st, p, ty, I))]

    def store(self, ex, st, p, ty, v, order, I):
        self.rec(st, 'store')
        ex.store(st, p, ty, v, I)
        return [(st, None)]

    def rmw(self, ex, st, p, ty, op, v, order, I):
        self.rec(st, op)
        old = ex.load(st, p, ty, I)
        ex.store(st, p, ty, ex.rmw_new(st, op, old, v, ty), I)
        return [(st, old)]

    def cmpxchg(self, ex, st, p, ty, exp, des, so, fo, weak, I):
        self.rec(st, 'cmpxchg')
        old = ex.load(st, p, ty, I)
        c = ex.icmp(st, 'eq', old, exp, ty)
        outs = []
        for cond, ok in ((c, True), (bnot(c), False)):
            if cond is False:
                continue
            s2 = st.fork()
            s2.assume(cond)
            if not ex.feasible(s2):
                continue
            if ok:
                ex.store(s2, p, ty, des, I)
            outs.append((s2, [old, ok]))
        return outs


def one(outs):
    outs = [o for o in outs if o[1][0] == 'ret']
    if len(outs) != 1:
        raise E.Unsupported('expected one outcome, got %d' % len(outs))
    return outs[0]


class spying:
    def __init__(self, ex):
        self.ex, self.log = ex, []

    def __enter__(self):
        self.old = self.ex.atomic_any
        self.ex.atomic_any = lambda ex, st, p, I: Spy(self.log, p)
        self.ex.spec += 1
        return self.log

    def __exit__(self, *a):
        self.ex.atomic_any = self.old
        self.ex.spec -= 1


def holder(ex, st, name, size=8):
    return ex.new_region(st, name, size, 'param')


def bool_wait(rx):
    """contract of atomic<bool>::wait(old, order): returns once the value differs from old"""

    def h(ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        if isinstance(p.base, Region) and not ex.region_ok(st, p.base, p.off, 1, I):
            return []
        old = a[1]
        old = (old != 0) if isinstance(old, int) else old
        order = {0: 'monotonic', 1: 'acquire', 2: 'acquire', 5: 'seq_cst'}.get(a[2] if len(a) > 2 else 5, '?')
        return ex.target.on_wait(ex, st, p, bool(old), order, I)
    return (re.compile(rx), h)


def bool_notify(rx):
    """contract of atomic<bool>::notify_one/all: uses the address only (the object may be gone)"""

    def h(ex, st, a, I):
        p = ex.norm(ex.int2p(a[0]))
        ex.target.on_notify(ex, st, p, I)
        return None
    return (re.compile(rx), h)
