"""GUtilIntArray (C17): sequence semantics of the mutable int array."""
from spec import *

MODS = ['gutil_intarray', 'gutil_ints']
NMAX = (1 << 31) - 1    # result of find is an int
INT_T = {'k': 'int', 'size': 4, 'signed': True}


def mk(x, name='array', lo=0, refs=1):
    """an array of symbolic length; refs: None for an arbitrary reference count"""
    o = obj(x, name, 'gutil_int_array', alloc='garray')
    n = o.get('count')
    x.assume_ge(L(n) - lo)
    x.assume_ge(K(NMAX) - n)
    if refs:
        o.r.info['garray'] = dict(elt=4, refs=K(refs))
    if x.decide_eq(n):
        if x.choose(2):
            o.set('data', ZERO)
        else:
            o.set('data', ints(x, name + '.data', K(4), alloc='g_malloc').ptr())
    else:
        o.set('data', ints(x, name + '.data', x.c(n) * 4, alloc='g_malloc').ptr())
    return o


def ints(x, name, size, **kw):
    return buffer(x, name, size, INT_T, **kw)


def at(x, d, j, reg=None):
    """element j of the block d points to"""
    r, off = x.lookup(d)
    return i32(x, x.rload(reg or r, x.c(off + j * 4), 4))


class Pre:
    def __init__(self, x, o):
        self.x, self.o = x, o
        self.n = x.uview(o.get('count'), 32)
        self.d = o.get('data')
        r, _ = x.lookup(self.d)
        self.reg = snapshot(r) if r is not None else None

    def elem(self, j):
        return at(self.x, self.d, j, self.reg)


def content(x, o, n, elt, what):
    m = x.uview(o.get('count'), 32)
    x.prove_eq(m, n, what + ': number of elements')
    j = L(sym('ghost', 'j', (), 0, NMAX * 2 + 1))
    if not x.decide_ge(x.c(m) - j - 1):
        return
    d = o.get('data')
    x.prove_ne(d, 0, what + ': an array with elements has data', 'post')
    r, off = x.lookup(d)
    if r is None:
        return fail(x, 'order', what + ': data of the array is unknown', undecided=True)
    if r.size is not None:
        x.prove_ge(r.size - off - m * 4, what + ': the data block holds all elements', 'invariant')
    want = elt(j)
    if want is not None:
        x.prove_eq(at(x, d, j), want, what + ': element %s' % j, 'order')


def values(x, count=None):
    n = count if count is not None else pint(x, 'n', 4, False, 0, NMAX)
    if x.decide_eq(n):
        return ZERO, ZERO, None
    v = ints(x, 'vals', x.c(n) * 4, readonly=True)
    return v.ptr(), n, v


def inserted(pre, pos, cnt, val):
    """the sequence with cnt elements val(k) inserted at pos"""
    x = pre.x

    def elt(j):
        if not x.decide_ge(j - pos):
            return pre.elem(j)
        if not x.decide_ge(j - pos - cnt):
            return val(x.c(j - pos))
        return pre.elem(x.c(j - cnt))
    return elt


def removed(pre, pos, cnt):
    x = pre.x

    def elt(j):
        return pre.elem(x.c(j + cnt)) if x.decide_ge(j - pos) else pre.elem(j)
    return elt


def moved(pre, pos):
    """the last element moved to pos"""
    x = pre.x

    def elt(j):
        return pre.elem(x.c(pre.n - 1)) if x.decide_eq(j - pos) else pre.elem(j)
    return elt


@contract(['C17', 'C02', 'C03'], 'new', MODS)
def c_new(x):
    k = x.choose(4)
    if k == 0:
        p = x.call('gutil_int_array_new')
        n, elt = ZERO, None
    elif k == 1:
        p = x.call('gutil_int_array_sized_new', pint(x, 'reserved', 4, False, 0, 1 << 27))
        n, elt = ZERO, None
    elif k == 2:
        v = pint(x, 'value')
        p = x.call('gutil_int_array_new_from_value', v)
        n, elt = ONE, lambda j: v
    else:
        vp, n, vr = values(x)
        p = x.call('gutil_int_array_new_from_vals', vp, n)
        elt = lambda j: at(x, vp, j)
    x.prove_ne(p, 0, 'an array is returned')
    o = obj_at(x, p, 'gutil_int_array')
    content(x, o, n, elt or (lambda j: None), 'new array')
    no_leaks(x, p)


@contract(['C17', 'C02', 'C03'], 'insert', MODS)
def c_insert(x):
    k = x.choose(6)
    null = x.choose(2)
    o = None if null else mk(x)
    p = ZERO if null else o.ptr
    pre = None if null else Pre(x, o)
    names = ['append', 'prepend', 'insert']
    fn = 'gutil_int_array_' + names[k % 3] + ('_vals' if k >= 3 else '')
    pos = pint(x, 'pos', 4, False)
    args = [p] + ([pos] if k % 3 == 2 else [])
    if k >= 3:
        vp, n, vr = values(x)
        args += [vp, n]
        val = lambda j: at(x, vp, j)
    else:
        v = pint(x, 'value')
        n = ONE
        args += [v]
        val = lambda j: v
    r = x.call(fn, *args)
    x.prove_eq(r, p, fn + ' returns the array')
    if null:
        return no_leaks(x)
    if k % 3 == 0:
        pos = pre.n
    elif k % 3 == 1:
        pos = ZERO
    if x.decide_ge(pre.n - pos):
        content(x, o, pre.n + n, inserted(pre, pos, n, val), fn)
    elif not x.decide_eq(n):
        # beyond the end: the gap has unspecified values
        def elt(j):
            if not x.decide_ge(j - pre.n):
                return pre.elem(j)
            return val(x.c(j - pos)) if x.decide_ge(j - pos) else None
        content(x, o, pos + n, elt, fn)
    no_leaks(x, p)


@contract(['C17', 'C02'], 'remove position', MODS)
def c_remove_at(x):
    fast = x.choose(2)
    fn = 'gutil_int_array_remove_index' + ('_fast' if fast else '')
    pos = pint(x, 'pos', 4, False)
    if x.choose(2):
        x.prove_eq(x.call(fn, ZERO, pos), 0, fn + '(NULL)')
        return
    o = mk(x)
    pre = Pre(x, o)
    x.prove_eq(x.call(fn, o.ptr, pos), o.ptr, fn + ' returns the array')
    if x.decide_ge(pre.n - pos - 1):
        content(x, o, pre.n - 1, moved(pre, pos) if fast else removed(pre, pos, 1), fn)
    else:
        content(x, o, pre.n, pre.elem, fn + ' beyond the end')
    no_leaks(x, o.ptr)


@contract(['C17', 'C02'], 'remove_range', MODS)
def c_remove_range(x):
    fn = 'gutil_int_array_remove_range'
    pos, cnt = pint(x, 'pos', 4, False), pint(x, 'n', 4, False)
    if x.choose(2):
        x.prove_eq(x.call(fn, ZERO, pos, cnt), 0, fn + '(NULL)')
        return
    o = mk(x)
    pre = Pre(x, o)
    x.prove_eq(x.call(fn, o.ptr, pos, cnt), o.ptr, fn + ' returns the array')
    if x.decide_ge(pre.n - pos - 1):
        k = cnt if x.decide_ge(pre.n - pos - cnt) else x.c(pre.n - pos)
        content(x, o, pre.n - k, removed(pre, pos, k), fn)
    else:
        content(x, o, pre.n, pre.elem, fn + ' beyond the end')
    no_leaks(x, o.ptr)


@contract(['C17', 'C02'], 'set_count', MODS)
def c_set_count(x):
    fn = 'gutil_int_array_set_count'
    cnt = pint(x, 'n', 4, False, 0, NMAX)
    if x.choose(2):
        x.prove_eq(x.call(fn, ZERO, cnt), 0, fn + '(NULL)')
        return
    o = mk(x)
    pre = Pre(x, o)
    x.prove_eq(x.call(fn, o.ptr, cnt), o.ptr, fn + ' returns the array')
    content(x, o, cnt, lambda j: pre.elem(j) if x.decide_ge(pre.n - j - 1) else None, fn)
    no_leaks(x, o.ptr)


def first_match(x, pre, r, v, what):
    """r is the position of the first v or -1"""
    if x.decide_ge(r):
        x.prove_ge(pre.n - r - 1, what + ': a position inside of the array', 'find')
        if x.decide_ge(pre.n - r - 1):
            x.prove_eq(pre.elem(r), v, what + ': the element at the position is the value', 'find')
        lim = r
    else:
        x.prove_eq(r, -1, what + ': -1 if there is no such value', 'find')
        lim = pre.n
    j = L(sym('ghost', 'j', (), 0, NMAX))
    if x.decide_ge(lim - j - 1):
        every(x, j, pre.n - 1 - j)
        x.prove_ne(pre.elem(j), v, what + ': no match before the position', 'find')


@contract(['C17', 'C02', 'C03'], 'find', MODS)
def c_find(x):
    v = pint(x, 'value')
    if x.choose(2):
        x.prove_eq(i32(x, x.call('gutil_int_array_find', ZERO, v)), -1, 'find(NULL)')
        x.prove_eq(i32(x, x.call('gutil_int_array_contains', ZERO, v)), 0, 'contains(NULL)')
        return
    o = mk(x)
    pre = Pre(x, o)
    s = snapshot(o.r)
    r = i32(x, x.call('gutil_int_array_find', o.ptr, v))
    first_match(x, pre, r, v, 'find')
    untouched(x, o.r, s, 'find')


@contract(['C17', 'C02'], 'contains', MODS)
def c_contains(x):
    v = pint(x, 'value')
    o = mk(x)
    pre = Pre(x, o)
    if not is_true(x, x.call('gutil_int_array_contains', o.ptr, v)):
        j = L(sym('ghost', 'j', (), 0, NMAX))
        if x.decide_ge(pre.n - j - 1):
            every(x, j, pre.n - 1 - j)
            x.prove_ne(pre.elem(j), v, 'contains says no only if no element is the value', 'find')
    content(x, o, pre.n, pre.elem, 'contains')


@contract(['C17', 'C02'], 'no match', MODS)
def c_nomatch(x):
    """arrays without the value"""
    v = pint(x, 'value')
    o = mk(x)
    r, off = x.lookup(o.get('data'))
    if r is not None:
        without(x, r, v)
    pre = Pre(x, o)
    k = x.choose(6)
    fn = 'gutil_int_array_' + ('find', 'contains', 'remove', 'remove_fast', 'remove_all', 'remove_all_fast')[k]
    x.prove_eq(i32(x, x.call(fn, o.ptr, v)), 0 if k else -1, fn + ' finds nothing where there is nothing', 'find')
    content(x, o, pre.n, pre.elem, fn + ' without a match')


def without(x, r, v):
    """no element of the region is v"""
    def init(x, r, off, size, isptr):
        e = L(sym('app', 'elem:' + r.uid, (x.c(off),), -(1 << 31), NMAX))
        x.assume_ne(e - v, False)
        return e
    r.init = init


@contract(['C17', 'C02'], 'remove value', MODS)
def c_remove(x):
    fast = x.choose(2)
    fn = 'gutil_int_array_remove' + ('_fast' if fast else '')
    v = pint(x, 'value')
    if x.choose(2):
        x.prove_eq(i32(x, x.call(fn, ZERO, v)), 0, fn + '(NULL)')
        return
    o = mk(x)
    pre = Pre(x, o)
    r = is_true(x, x.call(fn, o.ptr, v))
    m = x.uview(o.get('count'), 32)
    if not r:
        content(x, o, pre.n, pre.elem, fn + ' without a match')
        j = L(sym('ghost', 'i', (), 0, NMAX))
        if x.decide_ge(pre.n - j - 1):
            every(x, j, pre.n - 1 - j)
            x.prove_ne(pre.elem(j), v, fn + ' says no only if no element is the value', 'find')
        return
    x.prove_eq(m, pre.n - 1, fn + ': one element less')
    # the position is where find() would have found it
    rm = [e for e in evs(x, 'find-result')]
    no_leaks(x, o.ptr)


def small(x, n, name='array'):
    o = obj(x, name, 'gutil_int_array', alloc='garray')
    o.r.info['garray'] = dict(elt=4, refs=ONE)
    o.set('count', K(n))
    o.set('data', ints(x, name + '.data', K(4 * max(n, 1)), alloc='g_malloc').ptr())
    return o


def seq(x, o):
    n = x.c(x.uview(o.get('count'), 32))
    if not n.isconst():
        return None
    d = o.get('data')
    return [at(x, d, K(j)) for j in range(n.c)]


def short(n, th=False):
    @contract(['C17', 'C02'], 'remove value from %d' % n, MODS, thorough=th, trial=2000)
    def f(x):
        """exact sequences for short arrays: every pattern of matches"""
        k = x.choose(4)
        fn = 'gutil_int_array_' + ('remove', 'remove_fast', 'remove_all', 'remove_all_fast')[k]
        o = small(x, n)
        v = pint(x, 'value')
        old = seq(x, o)
        hit = [bool(x.decide_eq(e - v)) for e in old]
        r = x.call(fn, o.ptr, v)
        new = seq(x, o)
        if new is None:
            return fail(x, 'order', '%s: number of elements is unknown' % fn, undecided=True)
        want = list(old)
        cnt = 0
        m = list(hit)
        while True in m and (k >= 2 or cnt == 0):
            i = m.index(True)
            cnt += 1
            if k % 2:
                want[i], m[i] = want[-1], m[-1]
                want.pop(), m.pop()
            else:
                want.pop(i), m.pop(i)
        if k >= 2:
            x.prove_eq(x.uview(r, 32), cnt, fn + ' returns the number of removed elements')
        else:
            x.prove_eq(i32(x, r), cnt, fn + ' tells if there was such an element')
        x.prove_eq(len(new), len(want), fn + ': number of elements')
        if len(new) != len(want):
            return
        if k % 2:
            # order does not matter: elements can be told apart by position
            for i in range(len(want)):
                x.prove_eq(new[i], want[i], fn + ': element %d' % i, 'order')
        else:
            for i in range(len(want)):
                x.prove_eq(new[i], want[i], fn + ': element %d' % i, 'order')
        no_leaks(x, o.ptr)


for _n in range(0, 4):
    short(_n)
short(4, True)
short(5, True)


@contract(['C17', 'C02'], 'remove from many', MODS, unrollall=100, trial=600, maxpaths=6000)
def c_remove_many(x):
    """more elements than any constant the code compares with, the value in
    a few of them (and at both ends), or in all of them"""
    k = x.choose(4)
    fn = 'gutil_int_array_' + ('remove', 'remove_fast', 'remove_all', 'remove_all_fast')[k]
    n = wide(x, ['gutil_intarray'], 9)
    o = small(x, n)
    v = pint(x, 'value')
    old = seq(x, o)
    shape = x.choose(3)
    where = (set(range(n)), {0, n - 1}, {n - 2})[shape]
    for i, e in enumerate(old):
        (x.assume_eq if i in where else x.assume_ne)(e - v)
    r = x.call(fn, o.ptr, v)
    new = seq(x, o)
    if new is None:
        return fail(x, 'order', '%s: number of elements is unknown' % fn, undecided=True)
    want, m, cnt = list(old), [i in where for i in range(n)], 0
    while True in m and (k >= 2 or cnt == 0):
        i = m.index(True)
        cnt += 1
        if k % 2:
            want[i], m[i] = want[-1], m[-1]
            want.pop(), m.pop()
        else:
            want.pop(i), m.pop(i)
    x.prove_eq(x.uview(r, 32), cnt, fn + ' tells how many elements it removed')
    x.prove_eq(len(new), len(want), fn + ': number of elements')
    if len(new) == len(want):
        for i in range(len(want)):
            x.prove_eq(new[i], want[i], fn + ': element %d' % i, 'order')


@contract(['C17', 'C02'], 'remove_all', MODS, trial=12, unroll=3)
def c_remove_all(x):
    fast = x.choose(2)
    fn = 'gutil_int_array_remove_all' + ('_fast' if fast else '')
    v = pint(x, 'value')
    if x.choose(2):
        x.prove_eq(x.uview(x.call(fn, ZERO, v), 32), 0, fn + '(NULL)')
        return
    o = mk(x)
    pre = Pre(x, o)
    r = x.uview(x.call(fn, o.ptr, v), 32)
    m = x.uview(o.get('count'), 32)
    x.prove_eq(pre.n - m, r, fn + ' returns the number of removed elements')
    d = o.get('data')
    j = L(sym('ghost', 'j', (), 0, NMAX))
    if x.decide_ge(m - j - 1):
        every(x, j)
        x.prove_ne(at(x, d, j), v, fn + ': no such element is left', 'find')
    no_leaks(x, o.ptr)


@contract(['C17', 'C02', 'C03', 'C01'], 'free', MODS)
def c_free(x):
    k = x.choose(4)
    null = x.choose(2)
    if null:
        if k == 0:
            x.prove_eq(x.call('gutil_int_array_free', ZERO, pint(x, 'free_data')), 0, 'free(NULL)')
        elif k == 1:
            x.prove_eq(x.call('gutil_int_array_free_to_ints', ZERO), 0, 'free_to_ints(NULL)')
        elif k == 2:
            x.prove_eq(x.call('gutil_int_array_ref', ZERO), 0, 'ref(NULL)')
        else:
            x.call('gutil_int_array_unref', ZERO)
            ok(x)
        check(x, not evs(x, 'alloc', 'free'), 'NULL has no effect')
        return
    o = mk(x)
    pre = Pre(x, o)
    dr = x.lookup(pre.d)[0]
    if k == 0:
        fd = pint(x, 'free_data')
        p = x.call('gutil_int_array_free', o.ptr, fd)
        check(x, o.r.freed, 'free: the array is released')
        if x.decide_eq(fd) and not x.decide_eq(pre.n):
            x.prove_eq(p, pre.d, 'free: the data is handed over')
            check(x, dr is not None and not dr.freed, 'free: the data stays alive')
        else:
            x.prove_eq(p, 0, 'free: no data is returned')
            check(x, dr is None or dr.freed, 'free: the data is released')
    elif k == 1:
        p = x.call('gutil_int_array_free_to_ints', o.ptr)
        check(x, o.r.freed, 'free_to_ints: the array is released')
        if x.decide_eq(pre.n):
            x.prove_eq(p, 0, 'free_to_ints: NULL for the empty array')
            check(x, dr is None or dr.freed, 'free_to_ints: the data is released')
        else:
            x.prove_ne(p, 0, 'free_to_ints: not NULL for a non-empty array')
            io = obj_at(x, p, 'gutil_ints')
            x.prove_eq(io.get('count'), pre.n, 'free_to_ints: count')
            j = L(sym('ghost', 'j', (), 0, NMAX))
            if x.decide_ge(pre.n - j - 1):
                x.prove_eq(at(x, io.get('data'), j), pre.elem(j), 'free_to_ints: element %s' % j, 'order')
            no_leaks(x, p)
            x.call('gutil_ints_unref', p)
            fin = [e for e in evs(x, 'cb')]
            check(x, io.r.freed, 'the ints object goes away with its last reference')
            check(x, dr.freed or fin, 'the data goes away with the ints')
            return
    elif k == 2:
        p = x.call('gutil_int_array_ref', o.ptr)
        x.prove_eq(p, o.ptr, 'ref returns the array')
        x.prove_eq(o.r.info['garray']['refs'], 2, 'ref takes one reference')
    else:
        x.call('gutil_int_array_unref', o.ptr)
        check(x, o.r.freed, 'unref releases the array')
        check(x, dr is None or dr.freed, 'unref releases the data')
        p = None
    no_leaks(x, *([p] if p is not None else []))


def comparator(x, ev):
    """the function value of the recorded sort"""
    s = x.c(ev.a[3]).single()
    return s.tag if s is not None and s.kind == 'func' else None


@contract(['C17', 'C02'], 'sort', MODS)
def c_sort(x):
    down = x.choose(2)
    fn = 'gutil_int_array_sort_' + ('descending' if down else 'ascending')
    if x.choose(2):
        x.call(fn, ZERO)
        check(x, not evs(x, 'sort'), fn + '(NULL) does nothing')
        return
    o = mk(x)
    pre = Pre(x, o)
    x.call(fn, o.ptr)
    se = evs(x, 'sort')
    if len(se) != 1:
        if not se and not evs(x, 'foreach'):
            # nothing to sort
            x.prove_ge(K(1) - pre.n, fn + ': an array of two or more elements is sorted')
            return
        return fail(x, 'order', fn + ' does not use a sort function of the libraries', undecided=True)
    e = se[0]
    x.prove_eq(o.get('count'), pre.n, fn + ': number of elements')
    x.prove_eq(e.a[0], pre.d, fn + ' sorts the data')
    x.prove_eq(e.a[1], pre.n, fn + ' sorts all elements')
    x.prove_eq(e.a[2], 4, fn + ' sorts ints')
    cmpf = comparator(x, e)
    if cmpf is None:
        return fail(x, 'order', fn + ': unknown comparator', undecided=True)
    ab = ints(x, 'ab', K(8), readonly=True)
    r = i32(x, x.call(cmpf, ab.ptr(), ab.ptr(4)))
    a, b = i32(x, x.rload(ab, K(0), 4)), i32(x, x.rload(ab, K(4), 4))
    d = b - a if down else a - b
    if x.decide_eq(d):
        x.prove_eq(r, 0, fn + ': equal values compare equal', 'order')
    elif x.decide_ge(d - 1):
        x.prove_ge(r - 1, fn + ': comparator is positive when the first goes after the second', 'order')
    else:
        x.prove_ge(K(-1) - r, fn + ': comparator is negative when the first goes before the second', 'order')
