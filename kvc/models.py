"""Trusted contracts for the C++ runtime and library functions that have no body in the module."""
import re
import z3
from sym import *
import engine as E

MODELS = []


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx), f))
        return f
    return d


def cstr(ex, st, p):
    if isinstance(p, P) and isinstance(p.base, Region):
        c = st.cells(p.base)
        o = ''
        i = p.off
        while i in c and isinstance(c[i][1], int) and c[i][1]:
            o += chr(c[i][1])
            i += 1
        return o
    return '?'


@model(r'^__assert_fail$')
def m_assert(ex, st, a, I):
    ex.fail(st, 'assert: ' + cstr(ex, st, a[0]), I)
    return []


@model(r'^(std::terminate\(\)|__clang_call_terminate|abort|std::abort\(\)|__cxa_pure_virtual)$')
def m_term(ex, st, a, I):
    h = getattr(ex, 'on_terminate', None)
    if h:
        return h(ex, st, I)
    ex.fail(st, 'std::terminate reached', I)
    return []


# ---------------------------------------------------------------- heap
def do_new(ex, st, size, I, align=16, name='heap'):
    h = getattr(ex, 'on_new', None)
    if h:
        r = h(ex, st, size, align, I)
        if r is not None:
            return r
    r = ex.new_region(st, '%s@%s' % (name, I.line if I else 0), size, 'heap', align)
    st.assume(r.addr != 0, (r.addr & (align - 1)) == 0)
    st.g['heap'] = st.g.get('heap', ()) + (r,)
    outs = [(st, ('ret', P(r, 0)))]
    if getattr(ex, 'alloc_throws', False):
        s2 = st.fork()
        s2.g['heap'] = s2.g['heap'][:-1]
        outs.append((s2, ('throw', E.Exc(P(Elem('exc', fint('bad_alloc')), 0), '_ZTISt9bad_alloc'))))
    return outs


def do_delete(ex, st, p, size, I):
    h = getattr(ex, 'on_delete', None)
    if h:
        r = h(ex, st, p, size, I)
        if r is not None:
            return r
    if p is UNDEF:
        ex.fail(st, 'delete of uninitialised pointer', I)
        return []
    p = ex.int2p(p)
    if p.base is None:
        return None
    b = p.base
    if not isinstance(b, Region) or b.kind != 'heap':
        if isinstance(b, Region):
            ex.fail(st, 'bad-free:%s' % b.name, I)
            return []
        raise E.Unsupported('delete of %r' % (p,))
    if b in st.dead:
        ex.fail(st, 'double-free:%s' % b.name, I)
        return []
    if not (isinstance(p.off, int) and p.off == 0):
        ex.fail(st, 'free of interior pointer', I)
        return []
    if size is not None and b.size is not None:
        ex.prove(st, simp(bv(size, 64) == bv(b.size, 64)), 'sized-delete', I)
    st.dead = st.dead | {b}
    return None


@model(r'^operator new(\[\])?\(unsigned long\)$')
def m_new(ex, st, a, I):
    return do_new(ex, st, a[0], I)


@model(r'^operator new(\[\])?\(unsigned long, std::nothrow_t const&\)$')
def m_new_nt(ex, st, a, I):
    return do_new(ex, st, a[0], I)


@model(r'^operator new(\[\])?\(unsigned long, std::align_val_t\)$')
def m_new_al(ex, st, a, I):
    return do_new(ex, st, a[0], I, a[1] if isinstance(a[1], int) else 16)


@model(r'^operator delete(\[\])?\(void\*\)$')
def m_del(ex, st, a, I):
    return do_delete(ex, st, a[0], None, I)


@model(r'^operator delete(\[\])?\(void\*, unsigned long\)$')
def m_del2(ex, st, a, I):
    return do_delete(ex, st, a[0], a[1], I)


@model(r'^operator delete(\[\])?\(void\*, (unsigned long, )?std::align_val_t\)$')
def m_del3(ex, st, a, I):
    return do_delete(ex, st, a[0], a[1] if len(a) == 3 else None, I)


# ---------------------------------------------------------------- exceptions
@model(r'^__cxa_allocate_exception$')
def m_cxa_alloc(ex, st, a, I):
    r = ex.new_region(st, 'exc', a[0], 'exc')
    return P(r, 0)


@model(r'^__cxa_free_exception$')
def m_cxa_free(ex, st, a, I):
    return None


@model(r'^__cxa_throw$')
def m_throw(ex, st, a, I):
    tn = a[1].base.name if isinstance(a[1], P) and isinstance(a[1].base, Region) else None
    if tn:
        tn = tn.lstrip('@')
    st.g['nthrow'] = st.g.get('nthrow', 0) + 1
    return [(st, ('throw', E.Exc(a[0], tn)))]


@model(r'^__cxa_begin_catch$')
def m_begin(ex, st, a, I):
    st.caught = st.caught + (a[0],)
    return a[0]


@model(r'^__cxa_end_catch$')
def m_end(ex, st, a, I):
    st.caught = st.caught[:-1]
    return None


@model(r'^__cxa_get_exception_ptr$')
def m_getexc(ex, st, a, I):
    return a[0]


@model(r'^__cxa_rethrow$')
def m_rethrow(ex, st, a, I):
    p = st.caught[-1]
    return [(st, ('throw', E.Exc(p, ex.exc_type(st, p) if hasattr(ex, 'exc_type') else None)))]


@model(r'^std::rethrow_exception\(std::__exception_ptr::exception_ptr\)$')
def m_rethrow_ptr(ex, st, a, I):
    v = ex.load_raw(st, a[0], 8, I)
    if v is UNDEF:
        ex.fail(st, 'rethrow of uninitialised exception_ptr', I)
        return []
    v = ex.int2p(v)
    n = ex.is_null(st, v)
    if not ex.prove(st, bnot(n), 'rethrow of null exception_ptr', I):
        return []
    return [(st, ('throw', E.Exc(v, None)))]


@model(r'^std::current_exception\(\)$')
def m_curexc(ex, st, a, I):
    v = st.caught[-1] if st.caught else NULL
    ex.store_raw(st, a[0], 8, v, I)
    return None


@model(r'^std::__exception_ptr::exception_ptr::(_M_addref|_M_release)\(\)$')
def m_excref(ex, st, a, I):
    return None


@model(r'^std::__exception_ptr::exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr const&\)$')
def m_exccopy(ex, st, a, I):
    ex.store_raw(st, a[0], 8, ex.load_raw(st, a[1], 8, I), I)
    return None


@model(r'^std::__exception_ptr::exception_ptr::~exception_ptr\(\)$')
def m_excdtor(ex, st, a, I):
    ex.load_raw(st, a[0], 8, I)
    return None


@model(r'^std::uncaught_exceptions?\(\)$')
def m_unc(ex, st, a, I):
    # whatever runs may run while the stack is unwound
    n = fbv(32, 'uncaught')
    st.assume(z3.And(n >= 0, n < 1000))
    return n


@model(r'^std::(__throw_\w+)\(')
def m_throw_std(ex, st, a, I):
    return [(st, ('throw', E.Exc(P(Elem('exc', fint('stdexc')), 0), 'std')))]


@model(r'^__cxa_guard_acquire$')
def m_guard(ex, st, a, I):
    v = ex.load_raw(st, a[0], 1, I)
    v = ex.coerce(st, v, ('i', 8))
    if isinstance(v, int):
        return 0 if v else 1
    return 0


@model(r'^__cxa_guard_release$')
def m_guard_rel(ex, st, a, I):
    ex.store_raw(st, a[0], 1, 1, I)
    return None


@model(r'^__cxa_(thread_)?atexit$')
def m_atexit(ex, st, a, I):
    return 0


@model(r'^std::(nothrow_t::)?nop$')
def m_nop(ex, st, a, I):
    return None
