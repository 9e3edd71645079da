"""String vectors (C19)."""
from spec import *

MODS = ['gutil_strv', 'gutil_misc']
STR_T = {'k': 'ptr', 'to': CHAR_T}
CNT = 1 << 28


def vec(x, name='sv', null=True, n=None):
    """(pointer, count, region): NULL or a vector of any length"""
    if null and x.choose(2):
        return ZERO, ZERO, None
    r, n = ptrvec(x, name, n=n)
    r.alloc = 'g_malloc'
    own(r)
    return r.ptr(), n, r


def fixed(x, name, n):
    """a vector of n strings in separate memory"""
    r = x.region(name, 'ext', K(8 * (n + 1)), 'sym', STR_T)
    r.info = {'sep': 1}
    r.alloc = 'g_malloc'
    own(r)
    es = []
    for i in range(n):
        s = cstring(x, '%s[%d]' % (name, i))[0]
        s.alloc = 'g_malloc'
        x.rstore(r, K(8 * i), s.ptr(), 8)
        es.append(s.ptr())
    x.rstore(r, K(8 * n), ZERO, 8)
    return r.ptr(), es, r


def string(x, name, null=True):
    if null and x.choose(2):
        return ZERO
    return cstring(x, name)[0].ptr()


def item(x, r, j, reg=None):
    return x.c(x.rload(reg or r, x.c(L(j) * 8), 8, True))


def is_copy(x, p, s, what):
    """p is a string of its own with the bytes of s"""
    r, off = x.lookup(p)
    sr, so = x.lookup(s)
    if r is None or sr is None:
        return fail(x, 'copy', what + ': %s is not a known string' % x.c(L(p)), undecided=r is None and x.c(L(p)).imprecise())
    if not check(x, r is not sr and r.kind == 'alloc' and r.alloc == 'g_malloc' and not r.freed, what + ': the string in the vector is a copy of its own', 'copy'):
        return
    n = x.c(sr.nulterm[1]) if sr.nulterm else None
    if n is None:
        return
    k = L(sym('ghost', 'k', (), 0, 1 << 62))
    if x.decide_ge(n - k):
        x.prove_eq(x.rload(r, x.c(off + k), 1), x.rload(sr, x.c(so + k), 1), what + ': same characters', 'copy')


def is_vec(x, p, n, elt, what):
    """p is a NULL-terminated block of exactly n strings, number j satisfying elt(j)"""
    r, off = x.lookup(p)
    if r is None:
        if not x.decide_eq(n):
            fail(x, 'post', what + ': %s is not a known vector' % x.c(L(p)), undecided=x.c(L(p)).imprecise())
        return
    check(x, not r.freed, what + ': the vector is alive')
    x.prove_eq(off, 0, what + ': start of the vector')
    if r.size is not None:
        x.prove_ge(r.size - (L(n) + 1) * 8, what + ': the block holds the strings and the terminator', 'invariant')
        if not x.entails_ge(r.size - (L(n) + 1) * 8):
            return
    x.prove_eq(item(x, r, n), 0, what + ': NULL after the last string', 'terminator')
    j = L(sym('ghost', 'j', (), 0, CNT * 2))
    if x.decide_ge(L(n) - j - 1):
        e = item(x, r, j)
        elt(j, e)
        x.prove_ne(e, 0, what + ': no NULL before the end', 'terminator')


def same(x, reg, what):
    return lambda j, e: x.prove_eq(e, item(x, reg, j), what + ': string %s stays' % j, 'order')


def eqs(x, a, b):
    """do two strings compare equal"""
    import models
    return x.decide_eq(models._cmp(x, 'strcmp', a, b))


def ne(x, a, b):
    import models
    x.assume_ne(models._cmp(x, 'strcmp', a, b))


@contract(['C19', 'C02', 'C03'], 'length', MODS)
def c_length(x):
    p, n, r = vec(x)
    k = x.choose(3)
    if k == 0:
        x.prove_eq(x.uview(x.call('gutil_strv_length', p), 32), n, 'strv_length')
    elif k == 1:
        x.prove_eq(x.uview(x.call('gutil_ptrv_length', p), 64), n, 'ptrv_length')
    else:
        t = is_true(x, x.call('gutil_ptrv_is_empty', p))
        check(x, t == bool(x.decide_eq(n)), 'ptrv_is_empty')


@contract(['C19', 'C02', 'C03'], 'at', MODS)
def c_at(x):
    p, n, r = vec(x)
    if x.choose(2):
        i = pint(x, 'i', 4, False)
        e = x.call('gutil_strv_at', p, i)
        if r is not None and x.decide_ge(n - i - 1):
            x.prove_eq(e, item(x, r, i), 'at: the string at the position')
        else:
            x.prove_eq(e, 0, 'at: NULL beyond the end')
    else:
        e = x.call('gutil_strv_last', p)
        if r is not None and x.decide_ge(n - 1):
            x.prove_eq(e, item(x, r, n - 1), 'last: the last string')
        else:
            x.prove_eq(e, 0, 'last: NULL for an empty vector')


@contract(['C19', 'C02', 'C03'], 'find', MODS)
def c_find(x):
    p, n, r = vec(x)
    s = string(x, 's')
    last = x.choose(3)
    fn = 'gutil_strv_' + ('find', 'find_last', 'contains')[last]
    v = i32(x, x.call(fn, p, s))
    import models
    cmp_ = lambda j: models._cmp(x, 'strcmp', item(x, r, j), s)
    j = L(sym('ghost', 'j', (), 0, CNT))
    if r is None or x.decide_eq(s):
        x.prove_eq(v, 0 if last == 2 else -1, fn + ' with NULL', 'find')
        return
    if last == 2:
        if x.decide_eq(v):
            lo, hi = ZERO, n
        else:
            return ok(x)
    elif x.decide_ge(v):
        x.prove_ge(n - v - 1, fn + ': a position inside of the vector', 'find')
        if not x.decide_ge(n - v - 1):
            return
        x.prove_eq(cmp_(v), 0, fn + ': the string at the position matches', 'find')
        lo, hi = (x.c(v + 1), n) if last else (ZERO, v)
    else:
        x.prove_eq(v, -1, fn + ': -1 if nothing matches', 'find')
        lo, hi = ZERO, n
    if x.decide_ge(j - lo) and x.decide_ge(hi - j - 1):
        every(x, j, n - 1 - j)
        x.prove_ne(cmp_(j), 0, fn + ': no other match %s the result' % ('after' if last == 1 else 'before'), 'find')


@contract(['C19', 'C02', 'C03'], 'add', MODS)
def c_add(x):
    p, n, r = vec(x)
    s = string(x, 's')
    reg = snapshot(r) if r is not None else None
    q = x.call('gutil_strv_add', p, s)
    if x.decide_eq(s):
        x.prove_eq(q, p, 'add of NULL changes nothing')
        if r is not None:
            untouched(x, r, reg, 'add of NULL')
        return

    def elt(j, e):
        if x.decide_ge(n - j - 1):
            x.prove_eq(e, item(x, r, j, reg), 'add: string %s stays' % j, 'order')
        else:
            is_copy(x, e, s, 'add')
    is_vec(x, q, n + 1, elt, 'add')
    frees = [e for e in evs(x, 'free') if e.a[1] != 'realloc']
    check(x, all(r is not None and x.entails_eq(e.a[0] - r.ptr()) for e in frees), 'add: no string is released', 'release')
    no_leaks(x, q)


def addv(k):
    @contract(['C19', 'C02'], 'addv %d' % k, MODS)
    def f(x):
        p, n, r = vec(x)
        ss = [string(x, 's%d' % i, False) for i in range(k)]
        reg = snapshot(r) if r is not None else None
        fn = x.mod.fns.get('gutil_strv_addv')
        if fn is None:
            raise Broken('anchor gutil_strv_addv is not defined in the analysed sources')
        x.last_call = fn
        q = x.invoke(fn, [p] + ss + [ZERO]) if k else x.invoke(fn, [p, ZERO])
        if not k:
            x.prove_eq(q, p, 'addv of nothing changes nothing')
            return

        def elt(j, e):
            if x.decide_ge(n - j - 1):
                x.prove_eq(e, item(x, r, j, reg), 'addv: string %s stays' % j, 'order')
                return
            for i in range(k):
                if x.decide_eq(j - n - i):
                    is_copy(x, e, ss[i], 'addv')
                    return
        is_vec(x, q, n + k, elt, 'addv')
        no_leaks(x, q)


for _k in range(4):
    addv(_k)


@contract(['C19', 'C02'], 'addv of many', MODS, unrollall=100)
def c_addv_many(x):
    """more strings than any constant in the code"""
    p, es, r = fixed(x, 'sv', 2)
    k = wide(x, MODS[:1], 9)
    ss = [cstring(x, 's%d' % i)[0].ptr() for i in range(k)]
    x.last_call = x.mod.fns.get('gutil_strv_addv')
    if x.last_call is None:
        raise Anchor('gutil_strv_addv is not defined')
    q = x.invoke(x.last_call, [p] + ss + [ZERO])
    r, off = x.lookup(q)
    if r is None:
        return fail(x, 'post', 'addv of many: unknown vector', undecided=True)
    exactly(x, q, es + [None] * k, 'addv of %d' % k)
    i = (0, 1, k // 2, k - 2, k - 1)[x.choose(5)]
    is_copy(x, item(x, r, K(i + 2)), ss[i], 'addv of %d' % k)
    no_leaks(x, q)


@contract(['C19', 'C02', 'C03'], 'remove_at', MODS)
def c_remove_at(x):
    p, n, r = vec(x)
    pos, fr = pint(x, 'pos', lo=NEGMAX), pint(x, 'free')
    reg = snapshot(r) if r is not None else None
    q = x.call('gutil_strv_remove_at', p, pos, fr)
    if r is None:
        x.prove_eq(q, 0, 'remove_at(NULL)')
        return
    if not (x.decide_ge(pos) and x.decide_ge(n - pos - 1)):
        x.prove_eq(q, p, 'a position out of range is ignored')
        untouched(x, r, reg, 'remove_at out of range')
        check(x, not evs(x, 'free'), 'nothing is released for a position out of range', 'release')
        return
    gone = item(x, r, pos, reg)
    is_vec(x, q, n - 1, lambda j, e: x.prove_eq(e, item(x, r, j if not x.decide_ge(j - pos) else x.c(j + 1), reg), 'remove_at: string %s' % j, 'order'), 'remove_at')
    frees = [e for e in evs(x, 'free') if not x.entails_eq(e.a[0] - r.ptr())]
    if x.decide_eq(fr):
        check(x, not frees, 'remove_at: the string is left to the caller', 'release')
    else:
        check(x, len(frees) == 1 and x.entails_eq(frees[0].a[0] - gone), 'remove_at: exactly the removed string is released', 'release')


def partitions(n):
    """canonical class numbers of n things"""
    out = [[]]
    for _ in range(n):
        out = [p + [c] for p in out for c in range(max(p, default=-1) + 2)]
    return out


def relate(x, es, ps):
    import models
    for i in range(len(es)):
        for j in range(i):
            if es[i] is es[j]:
                continue
            c = models._cmp(x, 'strcmp', es[i], es[j])
            if ps[i] == ps[j]:
                x.assume_eq(c)
            else:
                x.assume_ne(c)


def exact(x, q, want, what):
    n = len(want)
    r, off = x.lookup(q)
    if r is None:
        return fail(x, 'post', what + ': unknown vector', undecided=True)
    is_vec(x, q, K(n), lambda j, e: None, what)
    for i in range(n):
        x.prove_eq(item(x, r, K(i)), want[i], what + ': string %d' % i, 'order')


def exactly(x, q, want, what):
    """the same for a long vector, without looking at all positions in turn"""
    n = len(want)
    r, off = x.lookup(q)
    if r is None:
        return fail(x, 'post', what + ': unknown vector', undecided=True)
    check(x, not r.freed and off == ZERO, what + ': the vector is alive')
    x.prove_ge(r.size - 8 * (n + 1), what + ': the block holds the strings and the terminator', 'invariant')
    if not x.entails_ge(r.size - 8 * (n + 1)):
        return
    for i, w in enumerate(want + [ZERO]):
        if w is not None:
            x.prove_eq(item(x, r, K(i)), w, what + ': string %d' % i if i < n else what + ': NULL after the last string', 'order')


def freed(x, gone, es, what):
    for e in es:
        r, _ = x.lookup(e)
        if any(e == g for g in gone):
            check(x, r.freed, what + ': the removed string is released', 'release')
        else:
            check(x, not r.freed, what + ': other strings stay alive', 'release')


def removes(n, th=False):
    @contract(['C19', 'C02'], 'remove from %d' % n, MODS, thorough=th, unroll=40, trial=2000)
    def f(x):
        p, es, r = fixed(x, 'sv', n)
        ps = partitions(n)
        ps = [q for q in ps if max(q, default=0) <= 1]
        # two classes: the strings that match and the others
        own = x.choose(n + 1)       # the string to remove may belong to the vector
        if own < n:
            s = es[own]
        else:
            s = string(x, 's', False)
        m = [i == own or bool(x.choose(2)) for i in range(n)]
        for i in range(n):
            if i != own:
                import models
                c = models._cmp(x, 'strcmp', es[i], s)
                x.assume_eq(c) if m[i] else x.assume_ne(c)
        al = x.choose(2)
        q = x.call('gutil_strv_remove', p, s, K(al))
        want, gone, hit = [], [], False
        for i in range(n):
            if m[i] and (al or not hit):
                gone.append(es[i])
                hit = True
            else:
                want.append(es[i])
        exact(x, q, want, 'remove')
        freed(x, gone, es, 'remove')
        no_leaks(x, q)


for _n in range(0, 4):
    removes(_n)
removes(4, True)


def one_pair(x, n):
    """classes of n strings, exactly two of which are equal"""
    i = (0, 1, n - 2)[x.choose(3)]
    j = (i + 1, n - 2, n - 1)[x.choose(3)]
    if i >= j:
        raise PathEnd()
    c = list(range(n))
    c[j] = i
    return c, j


@contract(['C19', 'C02'], 'remove_dups of many', MODS, unrollall=100, limit=150)
def c_dups_many(x):
    n = wide(x, MODS[:1], 9)
    p, es, r = fixed(x, 'sv', n)
    c, j = one_pair(x, n)
    relate(x, es, c)
    q = x.call('gutil_strv_remove_dups', p)
    exactly(x, q, es[:j] + es[j + 1:], 'remove_dups of %d' % n)
    freed(x, [es[j]], es, 'remove_dups of %d' % n)


@contract(['C19', 'C02'], 'remove from many', MODS, unrollall=100)
def c_remove_many(x):
    import models
    n = wide(x, MODS[:1], 9)
    p, es, r = fixed(x, 'sv', n)
    c, j = one_pair(x, n)
    s = string(x, 's', False)
    for k in range(n):
        d = models._cmp(x, 'strcmp', es[k], s)
        x.assume_eq(d) if c[k] == c[j] else x.assume_ne(d)
    al = x.choose(2)
    q = x.call('gutil_strv_remove', p, s, K(al))
    gone = [k for k in range(n) if c[k] == c[j]]
    gone = gone if al else gone[:1]
    exactly(x, q, [es[k] for k in range(n) if k not in gone], 'remove from %d' % n)
    freed(x, [es[k] for k in gone], es, 'remove from %d' % n)
    no_leaks(x, q)


@contract('C19', 'equal of many', MODS, unrollall=100)
def c_equal_many(x):
    import models
    n = wide(x, MODS[:1], 9)
    p, es, r = fixed(x, 'v1', n)
    q, fs, t = fixed(x, 'v2', n)
    d = (None, 0, 1, n - 2, n - 1)[x.choose(5)]
    for i in range(n):
        c = models._cmp(x, 'strcmp', es[i], fs[i])
        x.assume_eq(c) if i != d else x.assume_ne(c)
    v = is_true(x, x.call('gutil_strv_equal', p, q))
    check(x, v == (d is None), 'equal: %s for vectors of %d which are%s equal' % (v, n, '' if d is None else ' not'), 'compare')


def dups(n, th=False):
    @contract(['C19', 'C02'], 'remove_dups of %d' % n, MODS, thorough=th, unroll=60, trial=3000)
    def f(x):
        p, es, r = fixed(x, 'sv', n)
        ps = partitions(n)
        c = ps[x.choose(len(ps))]
        relate(x, es, c)
        q = x.call('gutil_strv_remove_dups', p)
        want, gone, seen = [], [], set()
        for i in range(n):
            if c[i] in seen:
                gone.append(es[i])
            else:
                want.append(es[i])
                seen.add(c[i])
        exact(x, q, want, 'remove_dups')
        freed(x, gone, es, 'remove_dups')
        no_leaks(x, q)


for _n in range(0, 5):
    dups(_n)
dups(5, True)


def equals(n, m, th=False):
    @contract(['C19', 'C02'], 'equal %d %d' % (n, m), MODS, thorough=th, unroll=40, trial=2000)
    def f(x):
        p, es, r = fixed(x, 'v1', n)
        q, fs, t = fixed(x, 'v2', m)
        if n == 0 and x.choose(2):
            p = ZERO
        if m == 0 and x.choose(2):
            q = ZERO
        import models
        eq = n == m
        for i in range(min(n, m)):
            c = models._cmp(x, 'strcmp', es[i], fs[i])
            k = x.choose(3)
            if k == 2:
                x.rstore(t, K(8 * i), es[i], 8)     # both have the same string
            elif k:
                x.assume_eq(c)
            else:
                x.assume_ne(c)
                eq = False
        v = is_true(x, x.call('gutil_strv_equal', p, q))
        check(x, v == eq, 'equal: %s for vectors which are%s equal' % (v, '' if eq else ' not'), 'compare')


for _n in range(0, 4):
    for _m in range(0, 4):
        equals(_n, _m)


@contract(['C19', 'C02', 'C03'], 'equal', MODS)
def c_equal(x):
    p, n, r = vec(x, 'v1')
    same_ = x.choose(2)
    q, m, t = (p, n, r) if same_ else vec(x, 'v2')
    v = is_true(x, x.call('gutil_strv_equal', p, q))
    if same_:
        check(x, v, 'a vector equals itself', 'compare')
        return
    if v:
        x.prove_eq(n, m, 'equal vectors have the same length', 'compare')
        if r is not None and t is not None:
            import models
            j = L(sym('ghost', 'j', (), 0, CNT))
            if x.decide_ge(n - j - 1) and x.decide_ge(m - j - 1):
                every(x, j)
                x.prove_eq(models._cmp(x, 'strcmp', item(x, r, j), item(x, t, j)), 0, 'equal vectors have equal strings', 'compare')
    elif r is None or t is None:
        x.prove_ge(n + m - 1, 'NULL equals the empty vector', 'compare')


def cmp_ok(x, f, asc, what):
    """comparator over pointers to strings"""
    s = x.c(f).single()
    if s is None or s.kind != 'func' or s.tag not in x.mod.fns:
        return fail(x, 'order', what + ': unknown comparator', undecided=True)
    a, b = cstring(x, 'a')[0].ptr(), cstring(x, 'b')[0].ptr()
    ab = x.region('ab', 'ext', K(16), 'sym', STR_T)
    ab.info = {'sep': 1}
    x.rstore(ab, K(0), a, 8)
    x.rstore(ab, K(8), b, 8)
    r = i32(x, x.call(s.tag, ab.ptr(), ab.ptr(8)))
    import models
    w = models._cmp(x, 'strcmp', a, b)
    if not asc:
        w = -w
    if x.decide_eq(w):
        x.prove_eq(r, 0, what + ': equal strings compare equal', 'order')
    elif x.decide_ge(w):
        x.prove_ge(r - 1, what + ': comparator follows strcmp', 'order')
    else:
        x.prove_ge(K(-1) - r, what + ': comparator follows strcmp', 'order')


@contract(['C19', 'C02', 'C03'], 'sort', MODS)
def c_sort(x):
    p, n, r = vec(x)
    asc = pint(x, 'ascending')
    reg = snapshot(r) if r is not None else None
    q = x.call('gutil_strv_sort', p, asc)
    x.prove_eq(q, p, 'sort returns the vector')
    se = evs(x, 'sort')
    if r is None or not se:
        if r is not None and all(e.fn in ('gutil_ptrv_length', 'gutil_strv_length') for e in evs(x, 'foreach')):
            x.prove_ge(K(1) - n, 'sort: two or more strings are sorted')
        if r is None:
            check(x, not se, 'sort(NULL) does nothing')
        return
    if len(se) != 1:
        return fail(x, 'order', 'sort: more than one call', undecided=True)
    e = se[0]
    x.prove_eq(e.a[0], p, 'sort: the vector is sorted')
    x.prove_eq(e.a[1], n, 'sort: all strings but not the terminator are sorted')
    x.prove_eq(e.a[2], 8, 'sort: pointers are sorted')
    x.prove_eq(item(x, r, n), 0, 'sort: the terminator stays', 'terminator')
    cmp_ok(x, e.a[3], not x.decide_eq(asc), 'sort')


@contract(['C19', 'C02', 'C03'], 'bsearch', MODS)
def c_bsearch(x):
    p, n, r = vec(x)
    asc = pint(x, 'ascending')
    s = string(x, 's')
    v = i32(x, x.call('gutil_strv_bsearch', p, s, asc))
    be = evs(x, 'bsearch')
    if r is None or x.decide_eq(s):
        x.prove_eq(v, -1, 'bsearch with NULL')
        return
    if not be:
        if any(e.kind == 'foreach' and e.fn.startswith('gutil_strv') for e in x.st.events) and not x.entails_eq(n):
            return fail(x, 'order', 'bsearch does not use bsearch()', undecided=True)
        x.prove_eq(n, 0, 'bsearch: a non-empty vector is searched')
        x.prove_eq(v, -1, 'bsearch: nothing found in the empty vector')
        return
    e = be[0]
    x.prove_eq(e.a[1], p, 'bsearch: the vector is searched')
    x.prove_eq(e.a[2], n, 'bsearch: all strings are searched')
    x.prove_eq(e.a[3], 8, 'bsearch: pointers are searched')
    k = x.lookup(e.a[0])[0]
    x.prove_eq(x.load(e.a[0], 8, 'ptr', True), s, 'bsearch: the key is a pointer to the string')
    f = x.st.notes.get('bsearch')
    x.prove_eq(v, -1 if f is None else f, 'bsearch: the index of what was found')
    cmp_ok(x, e.a[4], not x.decide_eq(asc), 'bsearch')


@contract(['C19', 'C02', 'C03'], 'strip', MODS)
def c_strip(x):
    p, n, r = vec(x)
    for k in ('strchug', 'strchomp'):
        if r is not None:
            pass
    reg = snapshot(r) if r is not None else None
    s1 = Sequence(x, lambda e: e.kind == 'strchug', lambda i: (), 'strip')
    q = x.call('gutil_strv_strip', p)
    x.prove_eq(q, p, 'strip returns the vector')
    s1.finish(n)
    if r is not None:
        is_vec(x, q, n, same(x, reg, 'strip'), 'strip')
    check(x, not evs(x, 'free', 'alloc'), 'strip: strings are changed in place', 'release')


def strips(n):
    @contract(['C19', 'C02'], 'strip %d' % n, MODS)
    def f(x):
        p, es, r = fixed(x, 'sv', n)
        x.call('gutil_strv_strip', p)
        for k in ('strchug', 'strchomp'):
            got = [e.a[0] for e in evs(x, k)]
            check(x, len(got) == n and all(any(x.entails_eq(g - e) for g in got) for e in es), 'strip: leading and trailing spaces of every string are removed')
        exact(x, p, es, 'strip')


for _n in (1, 2, 3):
    strips(_n)


@contract(['C19', 'C02'], 'ptrv_free', MODS)
def c_ptrv_free(x):
    k = x.choose(4)
    if k == 3:
        x.call('gutil_ptrv_free', ZERO)
        check(x, not evs(x, 'free'), 'ptrv_free(NULL) does nothing')
        return
    p, es, r = fixed(x, 'v', k)
    x.call('gutil_ptrv_free', p)
    check(x, r.freed, 'ptrv_free: the vector is released', 'release')
    for e in es:
        check(x, x.lookup(e)[0].freed, 'ptrv_free: every block is released', 'release')
