"""GUtilInts (C18): immutable int arrays."""
from spec import *
from intarray import ints as block, at, NMAX

MODS = ['gutil_ints', 'gutil_misc']
N32 = (1 << 32) - 1
G_FREE = 'g_free'


def mk(x, name='ints', refs=None, free='any'):
    """a live object: free function none, g_free of its data, g_free of another
    block, or an unknown one"""
    o = obj(x, name, 'gutil_ints', alloc='g_slice')
    rc = o.get('ref_count')
    if refs is None:
        x.assume_ge(rc - 1)
        x.assume_ge(K(NMAX - 1) - rc)
    else:
        o.set('ref_count', K(refs))
    n = x.uview(o.get('count'), 32)
    x.assume_ge(n - 1)
    kind = x.choose(4) if free == 'any' else free
    d = block(x, name + '.data', x.c(n) * 4, alloc='g_malloc')
    d.readonly = True
    o.set('data', d.ptr())
    ud = pptr(x, name + '.user_data')
    if kind == 0:
        o.set('free_func', ZERO)
    elif kind == 1:
        o.set('free_func', x.funcptr(G_FREE))
        ud = d.ptr()
    elif kind == 2:
        o.set('free_func', x.funcptr(G_FREE))
        u = buffer(x, name + '.block', L(sym('ghost', 'size(%s.block)' % name, (), 1, 1 << 62)), alloc='g_malloc')
        ud = u.ptr()
    else:
        f = pptr(x, name + '.free_func', null=False)
        o.set('free_func', f)
    o.set('user_data', ud)
    o.kind, o.n, o.d, o.ud = kind, x.c(n), d, ud
    return o


def frees(x, o, what):
    """the data is released exactly once, in its own way"""
    f = o.get('free_func') if not o.r.freed else None
    return f


def released(x, o, times, what):
    """the free function of the object ran this many times"""
    if o.kind in (1, 2):
        got = len([e for e in evs(x, 'free') if x.entails_eq(e.a[0] - o.ud)])
    elif o.kind == 3:
        got = len([e for e in evs(x, 'cb') if len(e.a) > 1 and x.entails_eq(e.a[1] - o.ud)])
    else:
        got = times
        check(x, not evs(x, 'cb'), what + ': there is no free function to call', 'release')
    check(x, got == times, '%s: the free function ran %d time(s), expected %d' % (what, got, times), 'release')


def unchanged(x, o, snap, what):
    for f in ('data', 'count', 'free_func', 'user_data'):
        x.prove_eq(o.get(f), o.get(f, snap), '%s: %s of the array never changes' % (what, f), 'frame')
    check(x, not o.d.freed, what + ': the data stays alive', 'frame')


@contract(['C18', 'C02', 'C03'], 'new', MODS)
def c_new(x):
    k = x.choose(4)
    fn = 'gutil_ints_' + ('new', 'new_take', 'new_static', 'new_with_free_func')[k]
    n = pint(x, 'n', 4, False)
    ff, ud = pptr(x, 'free_func'), pptr(x, 'user_data')
    null = x.choose(2)
    if null or x.decide_eq(n):
        d = None
        dp = ZERO if null else block(x, 'data', K(4), alloc='g_malloc').ptr()
    else:
        d = block(x, 'data', n * 4, alloc='g_malloc')
        dp = d.ptr()
    p = x.call(fn, dp, n, *([ff, ud] if k == 3 else []))
    if d is None:
        x.prove_eq(p, 0, fn + ': the empty array is NULL')
        check(x, not evs(x, 'cb', 'free'), fn + ': nothing is taken over', 'release')
        return no_leaks(x)
    x.prove_ne(p, 0, fn + ': a non-empty array is not NULL')
    r, off = x.lookup(p)
    if r is None:
        return fail(x, 'post', fn + ': unknown object', undecided=True)
    o = obj_at(x, p, 'gutil_ints')
    x.prove_eq(x.uview(x.call('gutil_ints_get_count', p), 32), n, fn + ': count')
    q = x.call('gutil_ints_get_data', p, ZERO)
    if k:
        x.prove_eq(q, dp, fn + ': uses the given data')
    else:
        x.prove_ne(q, dp, fn + ': the data is copied')
    j = L(sym('ghost', 'j', (), 0, N32))
    x.assume_ge(n - j - 1)
    x.prove_eq(at(x, q, j), at(x, dp, j), fn + ': element %s' % j, 'order')
    no_leaks(x, p)
    # and it goes away completely with its only reference
    x.call('gutil_ints_unref', p)
    check(x, r.freed, fn + ': there is one reference to the new object', 'release')
    if k == 1:
        check(x, d.freed, fn + ': the data is freed with the object', 'release')
    else:
        check(x, not d.freed, fn + ': the data of the caller is not freed', 'release')
    cbs = evs(x, 'cb')
    if k == 3 and not x.decide_eq(ff):
        check(x, len(cbs) == 1, fn + ': free function is called once', 'release')
        for e in cbs:
            x.prove_eq(e.a[0], ff, fn + ': the given free function', 'release')
            x.prove_eq(e.a[1], ud, fn + ': with the given pointer', 'release')
    else:
        check(x, not cbs, fn + ': no other function is called', 'release')
    no_leaks(x)


@contract(['C18', 'C02', 'C03'], 'new_from_ints', MODS, rec_depth=1)
def c_from(x):
    off, cnt = pint(x, 'offset', 4, False), pint(x, 'n', 4, False)
    if x.choose(2):
        x.prove_eq(x.call('gutil_ints_new_from_ints', ZERO, off, cnt), 0, 'sub-array of NULL')
        return no_leaks(x)
    o = mk(x, free=x.choose(4))
    s = snapshot(o.r)
    rc = o.get('ref_count')
    p = x.call('gutil_ints_new_from_ints', o.ptr, off, cnt)
    unchanged(x, o, s, 'new_from_ints')
    k = ZERO
    if x.decide_ge(o.n - off - 1):
        k = cnt if x.decide_ge(o.n - off - cnt) else x.c(o.n - off)
    if x.decide_eq(k):
        x.prove_eq(p, 0, 'the empty sub-array is NULL')
        x.prove_eq(o.get('ref_count'), rc, 'nothing holds the parent', 'release')
        return no_leaks(x)
    x.prove_ne(p, 0, 'a non-empty sub-array is not NULL')
    x.prove_eq(x.uview(x.call('gutil_ints_get_count', p), 32), k, 'sub-array: count')
    q = x.call('gutil_ints_get_data', p, ZERO)
    if x.decide_eq(p - o.ptr):
        x.prove_eq(off, 0, 'the parent itself stands for the whole of it')
        x.prove_eq(k, o.n, 'the parent itself stands for the whole of it')
        x.prove_eq(o.get('ref_count'), rc + 1, 'the reference is the caller\'s', 'release')
        return
    j = L(sym('ghost', 'j', (), 0, N32))
    x.assume_ge(k - j - 1)
    x.prove_eq(at(x, q, j), at(x, o.d.ptr(), x.c(off + j)), 'sub-array: element %s' % j, 'order')
    x.prove_eq(q, o.d.ptr(off * 4), 'sub-array shares the data of the parent')
    x.prove_eq(o.get('ref_count'), rc + 1, 'the sub-array keeps the parent alive', 'release')
    no_leaks(x, p)
    x.call('gutil_ints_unref', p)
    check(x, obj_at(x, p, 'gutil_ints').r.freed, 'sub-array goes away with its reference', 'release')
    x.prove_eq(o.get('ref_count'), rc, 'the sub-array drops its reference to the parent', 'release')
    unchanged(x, o, s, 'unref of a sub-array')
    no_leaks(x)


@contract(['C18', 'C02', 'C01'], 'ref', MODS)
def c_ref(x):
    if x.choose(2):
        x.prove_eq(x.call('gutil_ints_ref', ZERO), 0, 'ref(NULL)')
        x.call('gutil_ints_unref', ZERO)
        return no_leaks(x)
    o = mk(x)
    s = snapshot(o.r)
    rc = o.get('ref_count')
    if x.choose(2):
        x.prove_eq(x.call('gutil_ints_ref', o.ptr), o.ptr, 'ref returns the object')
        x.prove_eq(o.get('ref_count'), rc + 1, 'one more reference', 'release')
        unchanged(x, o, s, 'ref')
        released(x, o, 0, 'ref')
    else:
        x.call('gutil_ints_unref', o.ptr)
        if x.decide_eq(rc - 1):
            check(x, o.r.freed, 'the last unref frees the object', 'release')
            released(x, o, 1, 'last unref')
        else:
            check(x, not o.r.freed, 'unref does not free an object still in use', 'release')
            released(x, o, 0, 'unref')
            x.prove_eq(o.get('ref_count'), rc - 1, 'one reference less', 'release')
            unchanged(x, o, s, 'unref')
    no_leaks(x)


@contract(['C18', 'C02', 'C01'], 'unref_to_data', MODS)
def c_to_data(x):
    want = x.choose(2)
    out = buffer(x, 'out', K(4)) if want else None
    op = out.ptr() if want else ZERO
    fn = 'gutil_ints_unref_to_data'
    if x.choose(2):
        x.prove_eq(x.call(fn, ZERO, op), 0, fn + '(NULL)')
        if want:
            x.prove_eq(x.rload(out, K(0), 4), 0, fn + '(NULL): count')
        return no_leaks(x)
    o = mk(x)
    s = snapshot(o.r)
    rc = o.get('ref_count')
    d0 = snapshot(o.d)
    p = x.call(fn, o.ptr, op)
    if want:
        x.prove_eq(x.uview(x.rload(out, K(0), 4), 32), o.n, fn + ': count')
    x.prove_ne(p, 0, fn + ': data is returned')
    j = L(sym('ghost', 'j', (), 0, N32))
    x.assume_ge(o.n - j - 1)
    r, off = x.lookup(p)
    if r is None:
        return fail(x, 'post', fn + ': unknown block', undecided=True)
    check(x, not r.freed, fn + ': the returned data is alive')
    x.prove_eq(i32(x, x.rload(r, x.c(off + j * 4), 4)), i32(x, x.rload(d0, x.c(j * 4), 4)), fn + ': element %s' % j, 'order')
    if r is o.d:
        # handing over the buffer: only when nobody else uses it and g_free releases it
        x.prove_eq(rc, 1, fn + ': the original buffer is returned only by the last reference', 'release')
        check(x, o.kind == 1, fn + ': the original buffer is returned only if it is to be released with g_free', 'release')
        check(x, o.r.freed, fn + ': the object is released', 'release')
        check(x, not evs(x, 'cb'), fn + ': no free function for a buffer which is handed over', 'release')
    else:
        check(x, r.kind == 'alloc' and r.alloc == 'g_malloc' and x.entails_eq(off), fn + ': the copy belongs to the caller', 'release')
        if x.decide_eq(rc - 1):
            check(x, o.r.freed, fn + ': the last reference frees the object', 'release')
            released(x, o, 1, fn)
        else:
            check(x, not o.r.freed, fn + ': others still use the object', 'release')
            released(x, o, 0, fn)
            x.prove_eq(o.get('ref_count'), rc - 1, fn + ': one reference less', 'release')
            unchanged(x, o, s, fn)
    no_leaks(x, p)


@contract(['C18', 'C02', 'C03'], 'accessors', MODS)
def c_acc(x):
    want = x.choose(2)
    out = buffer(x, 'out', K(4)) if want else None
    op = out.ptr() if want else ZERO
    if x.choose(2):
        x.prove_eq(x.uview(x.call('gutil_ints_get_count', ZERO), 32), 0, 'get_count(NULL)')
        x.prove_eq(x.call('gutil_ints_get_data', ZERO, op), 0, 'get_data(NULL)')
        if want:
            x.prove_eq(x.rload(out, K(0), 4), 0, 'get_data(NULL): count')
        x.prove_eq(i32(x, x.call('gutil_ints_find', ZERO, pint(x, 'v'))), -1, 'find(NULL)')
        x.prove_eq(i32(x, x.call('gutil_ints_contains', ZERO, pint(x, 'v'))), 0, 'contains(NULL)')
        x.call('gutil_ints_hash', ZERO)
        return
    o = mk(x, free=0)
    s = snapshot(o.r)
    x.prove_eq(x.uview(x.call('gutil_ints_get_count', o.ptr), 32), o.n, 'get_count')
    x.prove_eq(x.call('gutil_ints_get_data', o.ptr, op), o.d.ptr(), 'get_data')
    if want:
        x.prove_eq(x.uview(x.rload(out, K(0), 4), 32), o.n, 'get_data: count')
    untouched(x, o.r, s, 'accessors')


def elem(x, o, j):
    return at(x, o.d.ptr(), j)


@contract(['C18', 'C02', 'C03'], 'find', MODS)
def c_find(x):
    o = mk(x, free=0)
    s = snapshot(o.r)
    v = pint(x, 'value')
    j = L(sym('ghost', 'j', (), 0, N32))
    if x.choose(2):
        x.assume_ge(K(NMAX) - o.n)
        r = i32(x, x.call('gutil_ints_find', o.ptr, v))
        if x.decide_ge(r):
            x.prove_ge(o.n - r - 1, 'find: a position inside of the array', 'find')
            if x.decide_ge(o.n - r - 1):
                x.prove_eq(elem(x, o, r), v, 'find: the element at the position is the value', 'find')
            lim = r
        else:
            x.prove_eq(r, -1, 'find: -1 for no match', 'find')
            lim = o.n
    else:
        if is_true(x, x.call('gutil_ints_contains', o.ptr, v)):
            return ok(x)
        lim = o.n
    if x.decide_ge(lim - j - 1):
        every(x, j, o.n - 1 - j)
        x.prove_ne(elem(x, o, j), v, 'find/contains: no match before the result', 'find')
    untouched(x, o.r, s, 'find')


@contract(['C18', 'C02'], 'no match', MODS)
def c_none(x):
    from intarray import without
    o = mk(x, free=0)
    v = pint(x, 'value')
    without(x, o.d, v)
    if x.choose(2):
        x.prove_eq(i32(x, x.call('gutil_ints_find', o.ptr, v)), -1, 'find without a match', 'find')
    else:
        x.prove_eq(i32(x, x.call('gutil_ints_contains', o.ptr, v)), 0, 'contains without a match', 'find')


def pair(x):
    """two handles: both NULL, one NULL, the same, different"""
    k = x.choose(5)
    a = mk(x, 'a', free=0) if k in (1, 3, 4) else None
    b = mk(x, 'b', free=0) if k in (2, 4) else a if k == 3 else None
    return a, b


def h(o):
    return o.ptr if o else ZERO


def consistent(x, a, b, eq, c1, c2):
    if eq:
        x.prove_eq(c1, 0, 'equal arrays compare equal', 'compare')
        x.prove_eq(c2, 0, 'equal arrays compare equal', 'compare')
    else:
        x.prove_ne(c1, 0, 'different arrays do not compare equal', 'compare')
        if x.decide_ge(c1):
            x.prove_ge(K(-1) - c2, 'comparison is antisymmetric', 'compare')
        else:
            x.prove_ge(c2 - 1, 'comparison is antisymmetric', 'compare')


@contract(['C18', 'C02', 'C03'], 'comparison', MODS, nsw_assume=False)
def c_cmp(x):
    a, b = pair(x)
    sa, sb = (snapshot(a.r) if a else None), (snapshot(b.r) if b else None)
    eq = is_true(x, x.call('gutil_ints_equal', h(a), h(b)))
    eq2 = is_true(x, x.call('gutil_ints_equal', h(b), h(a)))
    c1 = i32(x, x.call('gutil_ints_compare', h(a), h(b)))
    c2 = i32(x, x.call('gutil_ints_compare', h(b), h(a)))
    if not any(f in ('gutil_ints_equal', 'gutil_ints_compare') for f, _ in x.loops_seen):
        # loops over arbitrary contents are not related to one another here: see "comparison of .."
        check(x, eq == eq2, 'equality is symmetric', 'compare')
        consistent(x, a, b, eq, c1, c2)
    if eq:
        if a is not None and b is not None:
            x.prove_eq(a.n, b.n, 'equal arrays have the same length', 'compare')
        else:
            check(x, a is b, 'only NULL equals NULL', 'compare')
    else:
        check(x, a is not b, 'an array equals itself', 'compare')
    if a is b:
        x.prove_eq(c1, 0, 'an array compares equal to itself', 'compare')
        x.prove_eq(c2, 0, 'an array compares equal to itself', 'compare')
    elif a is None:
        x.prove_ge(K(-1) - c1, 'NULL goes before everything', 'compare')
        x.prove_ge(c2 - 1, 'everything goes after NULL', 'compare')
    if a:
        untouched(x, a.r, sa, 'compare')
    if b:
        untouched(x, b.r, sb, 'compare')


def tiny(x, name, n):
    o = obj(x, name, 'gutil_ints', alloc='g_slice')
    o.set('ref_count', ONE)
    o.set('count', K(n))
    o.d = block(x, name + '.data', K(4 * n), readonly=True)
    o.set('data', o.d.ptr())
    o.n = K(n)
    return o


def compares(n, m, th=False):
    @contract(['C18', 'C02'], 'comparison of %d and %d' % (n, m), MODS, thorough=th, nsw_assume=False)
    def f(x):
        """exact for short arrays, whatever the code looks like"""
        x.words = True
        a, b = tiny(x, 'a', n), tiny(x, 'b', m)
        eq = is_true(x, x.call('gutil_ints_equal', a.ptr, b.ptr))
        eq2 = is_true(x, x.call('gutil_ints_equal', b.ptr, a.ptr))
        c1 = i32(x, x.call('gutil_ints_compare', a.ptr, b.ptr))
        c2 = i32(x, x.call('gutil_ints_compare', b.ptr, a.ptr))
        same = n == m and all(x.decide_eq(x.rload(a.d, K(4 * i), 4) - x.rload(b.d, K(4 * i), 4)) for i in range(n))
        check(x, eq == same, 'arrays are equal exactly if their elements are', 'compare')
        check(x, eq == eq2, 'equality is symmetric', 'compare')
        consistent(x, a, b, eq, c1, c2)


def order(n, m, k, th=False):
    @contract(['C18'], 'order of %d %d %d' % (n, m, k), MODS, thorough=th, nsw_assume=False)
    def f(x):
        """comparison is transitive"""
        x.words = True
        a, b, c = tiny(x, 'a', n), tiny(x, 'b', m), tiny(x, 'c', k)
        x.assume_ge(K(0) - i32(x, x.call('gutil_ints_compare', a.ptr, b.ptr)))
        x.assume_ge(K(0) - i32(x, x.call('gutil_ints_compare', b.ptr, c.ptr)))
        x.prove_ge(K(0) - i32(x, x.call('gutil_ints_compare', a.ptr, c.ptr)), 'comparison is transitive', 'compare')


for _n in (1, 2, 3):
    for _m in (1, 2, 3):
        compares(_n, _m)
order(1, 1, 1)
order(1, 2, 1)
order(1, 1, 2)
order(2, 1, 1)
order(2, 2, 2)
order(1, 2, 2)
order(2, 1, 2)


def hashes(n, th=False):
    @contract(['C18', 'C02'], 'hash of %d' % n, MODS, thorough=th, nsw_assume=True)
    def f(x):
        """equal arrays in different memory have equal hashes"""
        a, b = tiny(x, 'a', n), tiny(x, 'b', n)
        for i in range(n):
            x.assume_eq(x.rload(a.d, K(4 * i), 4) - x.rload(b.d, K(4 * i), 4))
        x.assume_ne(a.get('user_data') - b.get('user_data'))
        x.prove_eq(x.call('gutil_ints_hash', a.ptr), x.call('gutil_ints_hash', b.ptr), 'equal arrays have the same hash', 'compare')


for _n in (1, 2, 3):
    hashes(_n, _n > 2)


@contract(['C18', 'C02'], 'prefix order', MODS, nsw_assume=False)
def c_prefix(x):
    """an array goes after its own prefix"""
    a, b = mk(x, 'a', free=0), mk(x, 'b', free=0)
    x.assume_ge(a.n - b.n - 1)
    b.set('data', a.d.ptr())
    x.prove_ge(i32(x, x.call('gutil_ints_compare', a.ptr, b.ptr)) - 1, 'an array goes after its prefix', 'compare')
    x.prove_ge(K(-1) - i32(x, x.call('gutil_ints_compare', b.ptr, a.ptr)), 'a prefix goes first', 'compare')
    check(x, not is_true(x, x.call('gutil_ints_equal', a.ptr, b.ptr)), 'a prefix is not equal to the whole', 'compare')
