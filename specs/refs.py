"""Reference counters under interference (C01).

The counter of an object that other threads hold references to is a value
that changes between any two instructions: every access to it yields a fresh
number, not less than the number of references this thread owns. Only a
read-modify-write operation, or seeing that nobody else has a reference,
says anything about the object afterwards; once the last own reference is
dropped the object may not be touched, unless it was the last of all."""
from spec import *
import history
import idle
import ints
import objv
import ring

OPT = dict(idle.OPT)


def shared(x, o, owned=(), field='ref_count', own=1):
    off, size, _ = o.fld(field)
    sh = x.share(o.r, off, size, owned)
    sh['own'] = own
    return sh


def r_ring(x):
    o = ring.mk(x, freef=x.choose(2) == 1)
    d, _ = x.lookup(o.get('data'))
    return o, [d] if d is not None else [], ('gutil_ring_ref', 'gutil_ring_unref')


def r_ints(x):
    o = ints.mk(x)
    return o, [o.d], ('gutil_ints_ref', 'gutil_ints_unref')


def r_history(x):
    h = history.Hist(x, 2)
    h.o.set('max_interval', history.time('max_interval', 1))
    return h.o, [], ('gutil_int_history_ref', 'gutil_int_history_unref')


def r_weakref(x):
    return objv.weak(x), [], ('gutil_weakref_ref', 'gutil_weakref_unref')


def r_queue(x):
    q = idle.Queue(x)
    return obj_at(x, q.q, 'gutil_idle_queue'), [], ('gutil_idle_queue_ref', 'gutil_idle_queue_unref')


def r_pool(x):
    p = idle.Pool(x)
    return obj_at(x, p.p, 'gutil_idle_pool'), [], ('gutil_idle_pool_ref', 'gutil_idle_pool_unref')


def owns(x, o, sh, n, what):
    if sh['alone']:
        x.prove_eq(o.get('ref_count'), n, what, 'refcount')
    else:
        check(x, sh['own'] == n, what, 'refcount')


def released(x, o, sh, what):
    """this thread has dropped its reference"""
    check(x, sh['own'] == 0 or sh['alone'], '%s: drops one reference' % what, 'refcount')
    check(x, bool(o.r.freed) == sh['alone'], '%s: %s' % (what, 'the last reference frees the object' if sh['alone'] else 'not the last reference'), 'refcount')


def both(x, mk):
    o, owned, (ref, unref) = mk(x)
    k = x.choose(3)
    sh = shared(x, o, owned)
    if k < 2:
        x.prove_eq(x.call(ref, o.ptr), o.ptr, '%s returns its argument' % ref)
        owns(x, o, sh, 2, '%s takes one reference' % ref)
        check(x, not o.r.freed, '%s frees nothing' % ref, 'refcount')
        if not k:
            return
        x.call(unref, o.ptr)
        check(x, not o.r.freed, '%s: an object is not freed while it is referenced' % unref, 'refcount')
        owns(x, o, sh, 1, '%s: drops one reference' % unref)
        if sh['alone']:
            return      # the rest is the same as with a single thread
    x.call(unref, o.ptr)
    released(x, o, sh, unref)


for name, mk, mods in (('ring', r_ring, ring.MODS), ('ints', r_ints, ints.MODS), ('int_history', r_history, history.MODS),
                       ('weakref', r_weakref, objv.WM), ('idle_queue', r_queue, idle.Queue.MODS), ('idle_pool', r_pool, idle.PM)):
    def c(x, mk=mk):
        both(x, mk)
    contract('C01', 'threads: ' + name, mods, **(OPT if 'idle' in name else {}))(c)


@contract('C01', 'threads: ints_unref_to_data', ints.MODS)
def c_to_data(x):
    o = ints.mk(x)
    want = x.choose(2)
    n = o.n
    out = buffer(x, 'out', K(4)) if want else None
    sh = shared(x, o, [o.d])
    p = x.call('gutil_ints_unref_to_data', o.ptr, out.ptr() if want else ZERO)
    released(x, o, sh, 'unref_to_data')
    x.prove_ne(p, 0, 'unref_to_data: data is returned')
    if want:
        x.prove_eq(x.uview(x.rload(out, K(0), 4), 32), n, 'unref_to_data: count')
    if not sh['alone']:
        r, off = x.lookup(p)
        check(x, r is not None and r is not o.d and not r.freed, 'unref_to_data: the data of a shared object is copied', 'refcount')
        check(x, not evs(x, 'cb') and not o.d.freed, 'unref_to_data: a shared object keeps its data', 'refcount')


@contract('C01', 'threads: sub-array of ints', ints.MODS, rec_depth=4)
def c_sub(x):
    """the parent is released by the thread which drops the last sub-array"""
    o = ints.mk(x)
    sh = shared(x, o, [o.d])
    a, b = pint(x, 'offset', 4, False), pint(x, 'count', 4, False)
    p = x.call('gutil_ints_new_from_ints', o.ptr, a, b)
    if x.decide_eq(p):
        return owns(x, o, sh, 1, 'new_from_ints: a refused sub-array takes no reference')
    owns(x, o, sh, 2, 'new_from_ints: the sub-array holds a reference to its parent')
    x.call('gutil_ints_unref', o.ptr)
    if not check(x, not o.r.freed, 'unref: the parent of a sub-array is not freed', 'refcount'):
        return
    owns(x, o, sh, 1, 'unref of the parent: drops one reference')
    x.call('gutil_ints_unref', p)
    check(x, sh['own'] == 0 or sh['alone'], 'unref: the sub-array drops its reference to the parent', 'refcount')
    check(x, bool(o.r.freed) == sh['alone'], 'unref: the parent is freed with its last reference', 'refcount')
