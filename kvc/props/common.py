import re
import z3
from sym import *
import engine as E
from target import Target
from ghost import *

RELEASE = {'release', 'acq_rel', 'seq_cst'}
ACQUIRE = {'acquire', 'acq_rel', 'seq_cst'}


def node_fams(ex):
    """dd::task_node as a family: next@0, task@8, status@16"""
    ex.fam('coro', {0: ('cofn', 'resume'), 8: ('cofn', 'destroy')}, perm=False)
    ex.fam('tok', {}, perm=False)
    ex.fam('exc', {}, perm=False)
    ex.fam('node', {0: ('ref', 'node', 0), 8: ('ref', 'coro', 0), 16: ('int', 32)}, size=24)


def lay(ex, name):
    """(size, members) of a library struct in this tree"""
    r = ex.mod.layout.get(name)
    if r is None:
        raise E.Unsupported('representation: no struct %s' % name)
    return r


def member(ex, struct, type_rx, k=0, name=None):
    """byte offset of the member called `name`, else of the k-th member whose type matches"""
    c = [m for m in lay(ex, struct)[1] if re.search(type_rx, m[3])]
    for m in c:
        if name and m[0] == name:
            return m[1]
    if k >= len(c) or (name and len(c) > k + 2):
        raise E.Unsupported('representation: members of %s' % struct)
    return c[k][1]
