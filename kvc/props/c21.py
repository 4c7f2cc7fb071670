from props.common import *
import re


def ev(st, *e):
    st.g['ev'] = st.g.get('ev', ()) + (e,)


def attach_contract(rx=r'ext_c?exe::attach'):
    """contract of executor::attach(node): pre: node owned, node->task set; effect: handed over exactly once;
    the node (and the frame around it) may be gone when attach returns"""

    def h(ex, st, a, I):
        exe, node = a[0], ex.norm(ex.int2p(a[1]))
        b = node.base
        if b is None:
            ex.fail(st, 'attach of a null node', I)
            return []
        if isinstance(b, Elem):
            if not ex.check_perm(st, 'node', b.id, I, 'attach'):
                pass
            t = ex.elem_get(st, 'node', b.id, 8)
            ex.prove(st, bnot(ex.is_null(st, t)), 'attached node has a task', I)
            log_add(ex, st, 'attach', exe=exe_id(ex, st, exe), node=b.id)
            ex.setown(st, 'node', b.id, False)
        elif isinstance(b, Region):
            if not ex.region_ok(st, b, node.off, 24, I):
                return []
            t = ex.load_raw(st, P(b, node.off + 8), 8, I)
            ev(st, 'attach', exe, b, node.off, t)
            st.lost = st.lost | {b}
        else:
            raise E.Unsupported('attach of %r' % (node,))
        return None
    return (re.compile(rx), h)


def exe_id(ex, st, p):
    p = ex.int2p(p)
    if isinstance(p.base, Region) and p.off == 0:
        return p.base.id
    raise E.Unsupported('executor identity %r' % (p,))


def coro_task_field(ex, st):
    pass


class ListTarget(Target):
    any = False

    def setup(self, ex, st):
        node_fams(ex)
        ex.overrides.append(attach_contract())
        n = ex.choose('len', [0, 1, 2, 3]) if ex.small else None
        e = ex.new_region(st, 'exe', 8, 'param')
        L = mk_list(ex, st, 'node', 'L', n)
        st.g['L'] = L
        st.g['exe'] = e
        # every node in the list has a task
        if ex.small:
            for x in L.items:
                ex.elem_set(st, 'node', x, 8, P(Elem('coro', new_id()), 0))
        else:
            x = z3.Int('?x')
            ta = ex.arr(st, 'node', 8)
            st.assume(z3.ForAll([x], z3.Select(ta, x) > 0, patterns=[z3.Select(ta, x)]))
        log_init(st, 'attach', 'exe', 'node')
        st.g['tasks0'] = ex.arr(st, 'node', 8)
        top = P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL
        return [P(e, 0), top]

    def post(self, ex, st, oc):
        L = st.g['L']
        ex.prove(st, oc[0] == 'ret', 'attach_list does not throw')
        ex.prove(st, simp(zi(st.g['len:attach']) == zi(L.n)), 'as many nodes handed over as the list has')
        if L.items is not None:
            for j, x in enumerate(L.items):
                ex.prove(st, simp(zi(log_get(st, 'attach', 'node', j)) == x), 'the i-th node handed over is the i-th of the list')
                ex.prove(st, simp(zi(log_get(st, 'attach', 'exe', j)) == st.g['exe'].id), 'on the given executor')
        else:
            j = fint('j')
            rng = z3.And(0 <= j, j < L.n)
            ex.prove(st, z3.Implies(rng, zi(log_get(st, 'attach', 'node', j)) == L.nd(j)),
                     'the i-th node handed over is the i-th of the list')
            ex.prove(st, z3.Implies(rng, zi(log_get(st, 'attach', 'exe', j)) == st.g['exe'].id), 'on the given executor')


class AttachList(ListTarget):
    name, fn = 'attach_list', 'drv_attach_list'


class AttachListAny(ListTarget):
    name, fn = 'attach_list(any_executor_ref)', 'drv_attach_list_any'


class Reverse(Target):
    name, fn = 'reverse_list', 'drv_reverse'

    def setup(self, ex, st):
        node_fams(ex)
        n = ex.choose('len', [0, 1, 2, 3]) if ex.small else None
        L = mk_list(ex, st, 'node', 'L', n)
        st.g['L'] = L
        st.g['f0'] = (ex.arr(st, 'node', 8), ex.arr(st, 'node', 16))
        return [P(Elem('node', L.nd(0)), 0) if not (ex.small and n == 0) else NULL]

    def post(self, ex, st, oc):
        L = st.g['L']
        ex.prove(st, oc[0] == 'ret', 'reverse_list does not throw')
        r = ex.int2p(oc[1])
        rid = zi(0 if r.base is None else r.base.id)
        nx = ex.arr(st, 'node', 0)
        own = ex.ownarr(st, 'node')
        n = zi(L.n)
        ex.prove(st, simp(z3.If(n == 0, rid == 0, rid == zi(L.nd(n - 1) if L.items is None else L.nd(L.n - 1)))),
                 'the new head is the last node')
        if L.items is not None:
            for j, x in enumerate(L.items):
                ex.prove(st, simp(z3.Select(nx, zi(x)) == (L.items[j - 1] if j else 0)), 'each link points to the predecessor')
        else:
            j = fint('j')
            ex.prove(st, z3.Implies(z3.And(0 <= j, j < n), z3.Select(nx, L.nd(j)) == z3.If(j == 0, 0, L.nd(j - 1))),
                     'each link points to the predecessor')
            ex.prove(st, z3.Implies(z3.And(0 <= j, j < n), z3.Select(own, L.nd(j))), 'no node lost')
        a, b = ex.arr(st, 'node', 8), ex.arr(st, 'node', 16)
        x = fint('x')
        ex.prove(st, simp(z3.And(z3.Select(a, x) == z3.Select(st.g['f0'][0], x), z3.Select(b, x) == z3.Select(st.g['f0'][1], x))),
                 'tasks and statuses unchanged')


class AnyAttach(ListTarget):
    name, fn = 'any_executor_ref::attach', 'drv_any_attach'

    def setup(self, ex, st):
        a = super().setup(ex, st)
        L = st.g['L']
        if ex.small:
            if L.n == 0:
                return None
        else:
            st.assume(L.n >= 1)
        st.g['n0'] = L.nd(0)
        return a

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'attach does not throw')
        ex.prove(st, simp(zi(st.g['len:attach']) == 1), 'exactly one attach on the referred executor')
        ex.prove(st, simp(zi(log_get(st, 'attach', 'node', 0)) == zi(st.g['n0'])), 'the same node')
        ex.prove(st, simp(zi(log_get(st, 'attach', 'exe', 0)) == st.g['exe'].id), 'the referred executor')


class AnyCopy(AnyAttach):
    name, fn = 'any_executor_ref copies', 'drv_any_copy'

    def setup(self, ex, st):
        a = super().setup(ex, st)
        if a is None:
            return None
        e2 = ex.new_region(st, 'exe2', 8, 'param')
        return [a[0], P(e2, 0), a[1]]


def frames(ex, st):
    """coroutine frames allocated on this path"""
    return [r for r in st.g.get('heap', ()) if isinstance(ex.load_cell(st, r, 0, 8), P) and
            isinstance(ex.load_cell(st, r, 0, 8).base, Fn)]


def resume(ex, st, r, which=0, inst=None):
    """resume/destroy a concrete coroutine frame -> outcomes"""
    fp = ex.load_raw(st, P(r, 8 * which), 8, inst)
    return ex.call_ptr(st, fp, [P(r, 0)], inst)


class Jump(Target):
    name, fn = 'jump_on(executor)', 'drv_jump'

    def setup(self, ex, st):
        node_fams(ex)
        ex.overrides.append(attach_contract())
        e = ex.new_region(st, 'exe', 8, 'param')
        o = ex.new_region(st, 'out', 4, 'param')
        st.g['e'], st.g['o'] = e, o
        r = ex.new_region(st, 'ret', 8, 'param')
        return [P(r, 0), P(e, 0), P(o, 0)] if len(ex.mod.funcs[self.fn].blocks and ex.mod.funcs[self.fn].params) == 3 else [P(e, 0), P(o, 0)]

    def post(self, ex, st, oc):
        e, o = st.g['e'], st.g['o']
        ex.prove(st, oc[0] == 'ret', 'jump_on does not throw')
        evs = [x for x in st.g.get('ev', ()) if x[0] == 'attach']
        if not ex.prove(st, len(evs) == 1, 'the suspended coroutine is attached exactly once'):
            return
        _, exe, reg, off, task = evs[0]
        ex.prove(st, ex.ptr_eq(st, exe, P(e, 0)), 'attached to the given executor')
        fr = frames(ex, st)
        ex.prove(st, len(fr) == 1 and isinstance(task, P) and task.base is fr[0], 'the attached task is the suspended coroutine')
        # the executor later stores a status and resumes the task
        st.lost = frozenset()
        s = fbv(32, 'status')
        st.assume(z3.ULT(s, 4))
        ex.store_raw(st, P(reg, off + 16), 4, s, None)
        for s2, oc2 in resume(ex, st, fr[0]):
            ex.prove(s2, oc2[0] == 'ret', 'resumption does not throw')
            v = ex.load_raw(s2, P(o, 0), 4, None)
            ex.prove(s2, simp(bv(v, 32) == z3.If(s == 0, s, s + 100)), 'the awaited expression reports the status stored by the executor')
            ex.prove(s2, fr[0] in s2.dead, 'frame destroyed at the end of the job')


class JumpAny(Jump):
    name, fn = 'jump_on(any_executor_ref)', 'drv_jump_any'


class JumpNoop(Target):
    name, fn = 'jump_on(noop_executor)', 'drv_jump_noop'

    def setup(self, ex, st):
        node_fams(ex)
        o = ex.new_region(st, 'out', 4, 'param')
        st.g['o'] = o
        ex.store_raw(st, P(o, 0), 4, 0, None)
        r = ex.new_region(st, 'ret', 8, 'param')
        return ([P(r, 0)] if len(ex.mod.funcs[self.fn].blocks and ex.mod.funcs[self.fn].params) == 2 else []) + [P(o, 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        ex.prove(st, ex.load_raw(st, P(st.g['o'], 0), 4, None) == 0, 'noop executor never resumes the task')


class JumpThis(JumpNoop):
    name, fn = 'jump_on(this_thread_executor)', 'drv_jump_this'

    def setup(self, ex, st):
        a = super().setup(ex, st)
        ex.store_raw(st, P(st.g['o'], 0), 4, 77, None)
        return a

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        ex.prove(st, ex.load_raw(st, P(st.g['o'], 0), 4, None) == 0, 'resumed on this thread with status ok')


class ThisAttach(Target):
    name, fn = 'this_thread_executor::attach', 'drv_this_attach'
    want = 1

    def setup(self, ex, st):
        node_fams(ex)
        n = fresh_elem(ex, st, 'node', 'n')
        c = fresh_elem(ex, st, 'coro', 'c', owned=False)
        st.g['c'] = c
        ex.elem_set(st, 'node', n, 8, P(Elem('coro', c), 0))
        log_init(st, 'resume', 'id')

        def res(ex, st, cof, args, I):
            ex.prove(st, cof.which == 'resume', 'resume, not destroy', I)
            log_add(ex, st, 'resume', id=cof.id)
            ex.setown(st, 'node', n, False)
            return [(st, ('ret', None))]
        ex.on_resume = res
        return [P(Elem('node', n), 0)]

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        ex.prove(st, simp(zi(st.g['len:resume']) == self.want), 'resumed exactly %d time(s)' % self.want)
        if self.want:
            ex.prove(st, simp(zi(log_get(st, 'resume', 'id', 0)) == zi(st.g['c'])), 'the task of the node is resumed')


class NoopAttach(ThisAttach):
    name, fn, want = 'noop_executor::attach', 'drv_noop_attach', 0


class NewThreadAttach(ThisAttach):
    """attach() hands a state object to a new thread.  The thread runs it (once) at any point from its start on; here as
    late as possible: after attach returned, when the stack frame of attach is gone"""
    name, fn, early = 'new_thread_executor::attach, thread runs after attach returned', 'drv_new_thread_attach', False

    def setup(self, ex, st):
        a = super().setup(ex, st)
        st.g['started'] = ()

        def run(st, sp, I):
            vt = ex.load_raw(st, sp, 8, I)
            fp = ex.load_raw(st, P(vt.base, vt.off + 16), 8, I)
            res = []
            for s2, oc in ex.call_ptr(st, fp, [sp], I):
                ex.prove(s2, oc[0] == 'ret', 'no exception leaves the thread', I)
                vt = ex.load_raw(s2, sp, 8, I)
                for s3, oc3 in ex.call_ptr(s2, ex.load_raw(s2, P(vt.base, vt.off + 8), 8, I), [sp], I):
                    res.append((s3, ('ret', None)))
            return res
        self.run = run

        def start(ex, st, args, I):
            up = ex.int2p(args[1])
            sp = ex.int2p(ex.load_raw(st, up, 8, I))
            ex.store_raw(st, up, 8, NULL, I)
            st.g['started'] += (sp,)
            ex.store_raw(st, ex.int2p(args[0]), 8, 1, I)
            return run(st, sp, I) if self.early else None

        def detach(ex, st, args, I):
            t = ex.int2p(args[0])
            ex.prove(st, simp(bv(ex.load_raw(st, t, 8, I), 64) != 0), 'detach of a running thread', I)
            ex.store_raw(st, t, 8, 0, I)
            return None
        ex.overrides.append((re.compile(r'^std::thread::_M_start_thread'), start))
        ex.overrides.append((re.compile(r'^std::thread::detach'), detach))
        ex.overrides.append((re.compile(r'^std::thread::_State::~_State'), lambda ex, st, args, I: None))
        return a

    def post(self, ex, st, oc):
        ex.prove(st, oc[0] == 'ret', 'no throw')
        if not ex.prove(st, len(st.g['started']) == 1, 'exactly one thread started'):
            return
        for s2, _ in ([(st, None)] if self.early else self.run(st, st.g['started'][0], None)):
            super().post(ex, s2, oc)


class NewThreadAttachEarly(NewThreadAttach):
    name, early = 'new_thread_executor::attach, task runs and destroys the node before the thread is detached', True


PROPERTY = 'C21'
DRIVER = 'c21.cpp'
TARGETS = [AttachList, AttachListAny, Reverse, AnyAttach, AnyCopy, Jump, JumpAny, JumpNoop, JumpThis, ThisAttach, NoopAttach, NewThreadAttach, NewThreadAttachEarly]
