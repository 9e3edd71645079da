"""Object vectors (C20) and counted weak references (C26)."""
from spec import *
from misc import ghost

MODS = ['gutil_objv', 'gutil_misc']
OBJ_T = {'k': 'ptr', 'to': VOIDP}
CNT = 1 << 28


def gobj(x, name, null=False):
    return pptr(x, name, VOIDP, null)


def vec(x, name='ov', null=True):
    if null and x.choose(2):
        return ZERO, ZERO, None
    r, n = ptrvec(x, name, VOIDP)
    r.alloc = 'g_malloc'
    if name != 'objs':
        own(r)
    return r.ptr(), n, r


def fixed(x, name, n, objs):
    """a vector of given objects"""
    r = x.region(name, 'ext', K(8 * (n + 1)), 'sym', OBJ_T)
    r.info = {'sep': 1}
    r.alloc = 'g_malloc'
    for i, o in enumerate(objs):
        x.rstore(r, K(8 * i), o, 8)
    x.rstore(r, K(8 * n), ZERO, 8)
    return r.ptr(), r


def item(x, r, j, reg=None):
    return x.c(x.rload(reg or r, x.c(L(j) * 8), 8, True))


def is_vec(x, p, n, elt, what):
    r, off = x.lookup(p)
    if r is None:
        if not x.decide_eq(n):
            fail(x, 'post', what + ': %s is not a known vector' % x.c(L(p)), undecided=x.c(L(p)).imprecise())
        return
    check(x, not r.freed, what + ': the vector is alive')
    x.prove_eq(off, 0, what + ': start of the vector')
    if r.size is not None:
        x.prove_ge(r.size - (L(n) + 1) * 8, what + ': the block holds the objects and the terminator', 'invariant')
        if not x.entails_ge(r.size - (L(n) + 1) * 8):
            return
    x.prove_eq(item(x, r, n), 0, what + ': NULL after the last object', 'terminator')
    j = ghost('j', CNT * 2)
    if x.decide_ge(L(n) - j - 1):
        every(x, j)
        e = item(x, r, j)
        elt(j, e)
        x.prove_ne(e, 0, what + ': no NULL before the end', 'terminator')


def norefs(x, what, kinds=('ref', 'unref')):
    check(x, not [e for e in evs(x, *kinds)] and not any(f.kind == 'foreach' and any(q.kind in kinds for _, es in f.a[0].templates for q in es) for f in x.st.events),
          what + ': no reference is taken or dropped', 'refs')


def onlyref(x, kind, o, what):
    e = evs(x, 'ref', 'unref')
    check(x, len(e) == 1 and e[0].kind == kind and x.entails_eq(e[0].a[0] - o), what + ': exactly one reference', 'refs')


@contract(['C20', 'C03', 'C02'], 'accessors', MODS)
def c_acc(x):
    p, n, r = vec(x)
    k = x.choose(3)
    if k == 0:
        i = pint(x, 'pos', 8, False)
        e = x.call('gutil_objv_at', p, i)
        if r is not None and x.decide_ge(n - i - 1):
            x.prove_eq(e, item(x, r, i), 'at: the object at the position')
        else:
            x.prove_eq(e, 0, 'at: NULL beyond the end')
    elif k == 1:
        e = x.call('gutil_objv_first', p)
        if r is not None and x.decide_ge(n - 1):
            x.prove_eq(e, item(x, r, ZERO), 'first: the first object')
        else:
            x.prove_eq(e, 0, 'first: NULL for an empty vector')
    else:
        e = x.call('gutil_objv_last', p)
        if r is not None and x.decide_ge(n - 1):
            x.prove_eq(e, item(x, r, n - 1), 'last: the last object')
        else:
            x.prove_eq(e, 0, 'last: NULL for an empty vector')
    norefs(x, 'accessor')


@contract(['C20', 'C03', 'C02'], 'find', MODS)
def c_find(x):
    p, n, r = vec(x)
    o = gobj(x, 'obj', True)
    last = x.choose(3)
    fn = 'gutil_objv_' + ('find', 'find_last', 'contains')[last]
    v = x.call(fn, p, o)
    v = i32(x, v) if last == 2 else x.sview(v, 64)
    norefs(x, fn)
    j = ghost('j', CNT)
    if r is None or x.decide_eq(o):
        return x.prove_eq(v, 0 if last == 2 else -1, fn + ' with NULL', 'find')
    if last == 2:
        if not x.decide_eq(v):
            return hit(x, r, n, o, fn)
        lo, hi = ZERO, n
    elif x.decide_ge(v):
        x.prove_ge(n - v - 1, fn + ': a position inside of the vector', 'find')
        if not x.decide_ge(n - v - 1):
            return
        x.prove_eq(item(x, r, v), o, fn + ': the object at the position', 'find')
        lo, hi = (x.c(v + 1), n) if last else (ZERO, v)
    else:
        x.prove_eq(v, -1, fn + ': -1 if nothing matches', 'find')
        lo, hi = ZERO, n
    if x.decide_ge(j - lo) and x.decide_ge(hi - j - 1):
        every(x, j, n - 1 - j)
        x.prove_ne(item(x, r, j) - o, 0, fn + ': no other match %s the result' % ('after' if last == 1 else 'before'), 'find')


def hit(x, r, n, o, fn):
    ok(x)


def absent(x, r, o):
    """no entry of the vector is the object"""
    def ini(x, r, off, size, isptr=False):
        return None
    old = r.nulterm

    def load(x, rr, off, size, isptr=False):
        if size != 8:
            return None
        n = x.c(old[1])
        q, m = x.divmod_const(off, 8)
        if x.decide_ge(n - q - 1):
            v = x.typed('elem', rr.uid + '[]', (q,), OBJ_T, 8)
            x.assume_ne(v, False)
            x.assume_ne(v - o, False)
            return x.c(v)
        return None
    r.init = load


@contract(['C20', 'C02'], 'absent object', MODS)
def c_absent(x):
    p, n, r = vec(x, null=False)
    o = gobj(x, 'obj')
    absent(x, r, o)
    k = x.choose(4)
    if k < 2:
        v = x.sview(x.call('gutil_objv_' + ('find', 'find_last')[k], p, o), 64)
        x.prove_eq(v, -1, 'find: an object which is not there', 'find')
    elif k == 2:
        x.prove_eq(i32(x, x.call('gutil_objv_contains', p, o)), 0, 'contains: an object which is not there', 'find')
    else:
        reg = snapshot(r)
        q = x.call('gutil_objv_remove', p, o, pint(x, 'all'))
        x.prove_eq(q, p, 'remove: an object which is not there')
        untouched(x, r, reg, 'remove of an object which is not there')
    norefs(x, 'absent object')


@contract(['C20', 'C03', 'C02'], 'add', MODS)
def c_add(x):
    p, n, r = vec(x)
    o = gobj(x, 'obj', True)
    reg = snapshot(r) if r is not None else None
    ins = x.choose(2)
    if ins:
        pos = pint(x, 'pos', 8, False)
        q = x.call('gutil_objv_insert', p, o, pos)
    else:
        pos = n
        q = x.call('gutil_objv_add', p, o)
    if x.decide_eq(o):
        x.prove_eq(q, p, 'adding NULL changes nothing')
        norefs(x, 'adding NULL')
        if r is not None:
            untouched(x, r, reg, 'adding NULL')
        return
    pos = n if x.decide_ge(pos - n) else pos

    def elt(j, e):
        if x.decide_ge(pos - j - 1):
            x.prove_eq(e, item(x, r, j, reg), 'add: objects before the position stay', 'order')
        elif x.decide_eq(j - pos):
            x.prove_eq(e, o, 'add: the object at its position', 'order')
        else:
            x.prove_eq(e, item(x, r, j - 1, reg), 'add: objects behind the position are moved', 'order')
    is_vec(x, q, n + 1, elt, 'add')
    onlyref(x, 'ref', o, 'add')
    no_leaks(x, q)


@contract(['C20', 'C03', 'C02'], 'append', MODS)
def c_append(x):
    p, n, r = vec(x)
    s, m, t = vec(x, 'objs')
    reg = snapshot(r) if r is not None else None
    if t is not None:
        t.readonly = True
    sq = Sequence(x, lambda e: e.kind in ('ref', 'unref'), lambda i: (item(x, t, i),), 'append', 'refs', 0)
    q = x.call('gutil_objv_append', p, s)
    sq.finish(m)
    check(x, not evs(x, 'unref'), 'append: no reference is dropped', 'refs')
    if t is None or x.decide_eq(m):
        x.prove_eq(q, p, 'appending nothing changes nothing')
        if r is not None:
            untouched(x, r, reg, 'appending nothing')
        return

    def elt(j, e):
        if x.decide_ge(n - j - 1):
            x.prove_eq(e, item(x, r, j, reg), 'append: objects stay', 'order')
        else:
            every(x, j - n)
            x.prove_eq(e, item(x, t, j - n), 'append: added objects in order', 'order')
    is_vec(x, q, n + m, elt, 'append')
    no_leaks(x, q)


@contract(['C20', 'C03', 'C02'], 'copy', MODS)
def c_copy(x):
    p, n, r = vec(x)
    if r is not None:
        r.readonly = True
    sq = Sequence(x, lambda e: e.kind in ('ref', 'unref'), lambda i: (item(x, r, i),), 'copy', 'refs', 0)
    q = x.call('gutil_objv_copy', p)
    sq.finish(n)
    check(x, not evs(x, 'unref'), 'copy: no reference is dropped', 'refs')
    if r is None:
        return x.prove_eq(q, 0, 'copy(NULL)')
    x.prove_ne(q - p, 0, 'copy: a new vector')
    is_vec(x, q, n, lambda j, e: x.prove_eq(e, item(x, r, j), 'copy: the same objects in order', 'order'), 'copy')
    no_leaks(x, q, p)


@contract(['C20', 'C03', 'C02'], 'free', MODS)
def c_free(x):
    p, n, r = vec(x)
    reg = snapshot(r) if r is not None else None
    sq = Sequence(x, lambda e: e.kind in ('ref', 'unref'), lambda i: (item(x, r, i, reg),), 'free', 'refs', 0)
    x.call('gutil_objv_free', p)
    sq.finish(n)
    check(x, not evs(x, 'ref'), 'free: no reference is taken', 'refs')
    if r is not None:
        check(x, r.freed, 'free: the vector is released', 'release')


def frees(k):
    @contract(['C20', 'C02'], 'free %d' % k, MODS)
    def f(x):
        os = [gobj(x, 'o%d' % i) for i in range(k)]
        p, r = fixed(x, 'ov', k, os)
        x.call('gutil_objv_free', p)
        counts(x, os, [-1] * k, 'free')
        check(x, r.freed, 'free: the vector is released', 'release')
    return f


def counts(x, os, want, what):
    """net references per distinct object"""
    net = refs(x)
    tot = {}
    for o, w in zip(os, want):
        tot[x.c(o)] = tot.get(x.c(o), 0) + w
    tot = {k: v for k, v in tot.items() if v}
    check(x, net == tot, what + ': references taken and dropped', 'refs')


for _k in (1, 2, 3):
    frees(_k)


def new(k):
    @contract(['C20', 'C02'], 'new %d' % k, MODS, unroll=20)
    def f(x):
        os = [gobj(x, 'o%d' % i) for i in range(k)]
        fn = x.mod.fns.get('gutil_objv_new')
        if fn is None:
            raise Anchor('gutil_objv_new is not defined')
        x.last_call = fn
        q = x.invoke(fn, os + [ZERO])
        r, off = x.lookup(q)
        if not check(x, r is not None and r.kind == 'alloc' and r.alloc == 'g_malloc', 'new: a vector'):
            return
        x.prove_ge(r.size - 8 * (k + 1), 'new: room for the objects')
        for i in range(k):
            x.prove_eq(item(x, r, K(i)), os[i], 'new: objects in order', 'order')
        x.prove_eq(item(x, r, K(k)), 0, 'new: terminated', 'terminator')
        check(x, [e.kind for e in evs(x, 'ref', 'unref')] == ['ref'] * k and all(x.entails_eq(e.a[0] - o) for e, o in zip(evs(x, 'ref'), os)), 'new: a reference to every object', 'refs')
        no_leaks(x, q)
    return f


for _k in range(4):
    new(_k)


@contract(['C20', 'C02'], 'many objects', MODS, unrollall=100, limit=150)
def c_many(x):
    """more objects than any constant in the code"""
    n = wide(x, ['gutil_objv'], 9)
    what = 'with %d objects' % n
    op = x.choose(3)
    os = [gobj(x, 'o%d' % i) for i in range(n)]
    if op == 0:
        fn = x.mod.fns.get('gutil_objv_new')
        if fn is None:
            raise Anchor('gutil_objv_new is not defined')
        x.last_call = fn
        q = x.invoke(fn, os + [ZERO])
        want, refs_ = os, [('ref', o) for o in os]
    else:
        i = (0, 1, n - 2)[x.choose(3)]
        j = (i + 1, n - 2, n - 1)[x.choose(3)]
        if i >= j:
            raise PathEnd()
        os[j] = os[i]
        for k in range(n):
            if k not in (i, j):
                x.assume_ne(os[k] - os[i])
        p, r = fixed(x, 'ov', n, os)
        q = x.call('gutil_objv_remove', p, os[i], K(op - 1))
        gone = (i,) if op == 1 else (i, j)
        want = [o for k, o in enumerate(os) if k not in gone]
        refs_ = [('unref', os[i])] * len(gone)
    r, off = x.lookup(q)
    if not check(x, r is not None and not r.freed and off == ZERO, what + ': a vector', undecided=r is None):
        return
    x.prove_ge(r.size - 8 * (len(want) + 1), what + ': room for the objects and the terminator', 'invariant')
    if not x.entails_ge(r.size - 8 * (len(want) + 1)):
        return
    for k, w in enumerate(want + [ZERO]):
        x.prove_eq(item(x, r, K(k)), w, what + ': the objects in order', 'order')
    e = evs(x, 'ref', 'unref')
    left = list(refs_)
    for ev in e:
        for w in left:
            if ev.kind == w[0] and x.entails_eq(ev.a[0] - w[1]):
                left.remove(w)
                break
        else:
            fail(x, 'refs', what + ': an extra %s' % ev.kind)
    check(x, not left, what + ': one reference for each entry', 'refs')
    no_leaks(x, q)


@contract(['C20', 'C03', 'C02'], 'remove_at', MODS)
def c_remove_at(x):
    p, n, r = vec(x)
    pos = pint(x, 'pos', 8, False)
    reg = snapshot(r) if r is not None else None
    q = x.call('gutil_objv_remove_at', p, pos)
    if r is None or not x.decide_ge(n - pos - 1):
        x.prove_eq(q, p, 'a position out of range is ignored')
        norefs(x, 'remove_at out of range')
        if r is not None:
            untouched(x, r, reg, 'remove_at out of range')
        return
    gone = item(x, r, pos, reg)
    is_vec(x, q, n - 1, lambda j, e: x.prove_eq(e, item(x, r, j if not x.decide_ge(j - pos) else x.c(j + 1), reg), 'remove_at: other objects stay in order', 'order'), 'remove_at')
    onlyref(x, 'unref', gone, 'remove_at')
    no_leaks(x, q)


def removes(n, th=False):
    @contract(['C20', 'C02'], 'remove from %d' % n, MODS, thorough=th, unroll=40, trial=2000)
    def f(x):
        o = gobj(x, 'obj')
        m = [x.choose(2) for i in range(n)]
        os = []
        for i in range(n):
            if m[i]:
                os.append(o)
            else:
                q = gobj(x, 'o%d' % i)
                x.assume_ne(q - o)
                os.append(q)
        p, r = fixed(x, 'ov', n, os)
        al = x.choose(2)
        q = x.call('gutil_objv_remove', p, o, K(al))
        want, drop, hit_ = [], 0, False
        for i in range(n):
            if m[i] and (al or not hit_):
                hit_ = True
                drop += 1
            else:
                want.append(os[i])
        r, off = x.lookup(q)
        if not check(x, r is not None and not r.freed, 'remove: a vector', undecided=r is None):
            return
        x.prove_eq(off, 0, 'remove: a vector')
        for i, w in enumerate(want):
            x.prove_eq(item(x, r, K(i)), w, 'remove: other objects stay in order', 'order')
        x.prove_eq(item(x, r, K(len(want))), 0, 'remove: terminated', 'terminator')
        e = evs(x, 'ref', 'unref')
        check(x, len(e) == drop and all(q.kind == 'unref' and x.entails_eq(q.a[0] - o) for q in e), 'remove: one reference for each removed entry', 'refs')
        no_leaks(x, q)
    return f


for _n in range(0, 5):
    removes(_n)
removes(5, True)


def short(n, th=False):
    """all operations on a vector of n objects, step by step"""
    def vector(x, q, want, what):
        if not want and x.decide_eq(q):
            return ok(x)
        r, off = x.lookup(q)
        if not check(x, r is not None and not r.freed, what + ': a vector', undecided=r is None):
            return
        x.prove_eq(off, 0, what + ': a vector')
        x.prove_ge(r.size - 8 * (len(want) + 1), what + ': room for the objects and the terminator', 'invariant')
        for i, w in enumerate(want):
            x.prove_eq(item(x, r, K(i)), w, what + ': the objects in order', 'order')
        x.prove_eq(item(x, r, K(len(want))), 0, what + ': terminated', 'terminator')

    def refs_(x, os, what):
        e = evs(x, 'ref', 'unref')
        left = list(os)
        for q in e:
            for o in left:
                if q.kind == 'ref' and x.entails_eq(q.a[0] - o):
                    left.remove(o)
                    break
            else:
                return fail(x, 'refs', what + ': %s of %s' % (q.kind, x.c(q.a[0])))
        check(x, not left, what + ': one reference for each added entry (%d missing)' % len(left), 'refs')

    OPT = dict(thorough=th, unroll=40, trial=2000)

    @contract(['C20', 'C02'], 'short append %d' % n, MODS, **OPT)
    def f_append(x):
        os = [gobj(x, 'o%d' % i) for i in range(n)]
        k = x.choose(4)
        ns = [gobj(x, 'n%d' % i) for i in range(k)]
        p = ZERO if not n and x.choose(2) else fixed(x, 'ov', n, os)[0]
        s = ZERO if not k and x.choose(2) else fixed(x, 'nv', k, ns)[0]
        vector(x, x.call('gutil_objv_append', p, s), os + ns, 'append')
        refs_(x, ns, 'append')

    @contract(['C20', 'C02'], 'short copy %d' % n, MODS, **OPT)
    def f_copy(x):
        os = [gobj(x, 'o%d' % i) for i in range(n)]
        p, r = fixed(x, 'ov', n, os)
        q = x.call('gutil_objv_copy', p)
        vector(x, q, os, 'copy')
        x.prove_ne(q, 0, 'copy: an empty vector is copied too')
        refs_(x, os, 'copy')
        no_leaks(x, q, p)

    @contract(['C20', 'C02'], 'short add %d' % n, MODS, **OPT)
    def f_add(x):
        os = [gobj(x, 'o%d' % i) for i in range(n)]
        o = gobj(x, 'obj')
        p = ZERO if not n and x.choose(2) else fixed(x, 'ov', n, os)[0]
        pos = x.choose(n + 3)
        if pos == n + 2:
            q, pos = x.call('gutil_objv_add', p, o), n
        else:
            q = x.call('gutil_objv_insert', p, o, K(pos))
        vector(x, q, os[:pos] + [o] + os[pos:], 'add')
        refs_(x, [o], 'add')
        no_leaks(x, q)

    @contract(['C20', 'C02'], 'short remove_at %d' % n, MODS, **OPT)
    def f_remove(x):
        os = [gobj(x, 'o%d' % i) for i in range(n)]
        p, r = fixed(x, 'ov', n, os)
        pos = x.choose(n + 1)
        q = x.call('gutil_objv_remove_at', p, K(pos))
        vector(x, q, os[:pos] + os[pos + 1:], 'remove_at')
        e = evs(x, 'ref', 'unref')
        check(x, len(e) == (pos < n) and all(q.kind == 'unref' and x.entails_eq(q.a[0] - os[pos]) for q in e), 'remove_at: drops the reference of the entry', 'refs')

    @contract(['C20', 'C02'], 'short find %d' % n, MODS, **OPT)
    def f_find(x):
        o = gobj(x, 'obj')
        m = [x.choose(2) for i in range(n)]
        os = []
        for i in range(n):
            q = gobj(x, 'o%d' % i)
            if not m[i]:
                x.assume_ne(q - o)
            os.append(o if m[i] else q)
        p, r = fixed(x, 'ov', n, os)
        r.readonly = True
        k = x.choose(6)
        if k == 0:
            x.prove_eq(x.sview(x.call('gutil_objv_find', p, o), 64), m.index(1) if 1 in m else -1, 'find: the first match', 'find')
        elif k == 1:
            x.prove_eq(x.sview(x.call('gutil_objv_find_last', p, o), 64), n - 1 - m[::-1].index(1) if 1 in m else -1, 'find_last: the last match', 'find')
        elif k == 2:
            check(x, is_true(x, x.call('gutil_objv_contains', p, o)) == (1 in m), 'contains: whether there is a match', 'find')
        elif k == 3:
            i = x.choose(n + 2)
            x.prove_eq(x.call('gutil_objv_at', p, K(i)), os[i] if i < n else 0, 'at: the object at the position')
        elif k == 4:
            x.prove_eq(x.call('gutil_objv_first', p), os[0] if n else 0, 'first: the first object')
        else:
            x.prove_eq(x.call('gutil_objv_last', p), os[-1] if n else 0, 'last: the last object')
        norefs(x, 'find')


for _n in range(4):
    short(_n)
short(5, True)


@contract(['C20', 'C03', 'C02'], 'remove NULL', MODS)
def c_remove_null(x):
    p, n, r = vec(x)
    reg = snapshot(r) if r is not None else None
    o = gobj(x, 'obj', True)
    if r is not None:
        x.assume_eq(o)
    q = x.call('gutil_objv_remove', p, o, pint(x, 'all'))
    x.prove_eq(q, p, 'remove with NULL')
    norefs(x, 'remove with NULL')
    if r is not None:
        untouched(x, r, reg, 'remove of NULL')


def equals(n, m, th=False):
    @contract(['C20', 'C02'], 'equal %d %d' % (n, m), MODS, thorough=th, unroll=40, trial=2000)
    def f(x):
        a = [gobj(x, 'a%d' % i) for i in range(n)]
        b, eq = [], n == m
        for i in range(m):
            if i < n and x.choose(2):
                b.append(a[i])
            else:
                o = gobj(x, 'b%d' % i)
                if i < n:
                    x.assume_ne(o - a[i])
                    eq = False
                b.append(o)
        p, _ = fixed(x, 'v1', n, a)
        q, _ = fixed(x, 'v2', m, b)
        if n == 0 and x.choose(2):
            p = ZERO
        if m == 0 and x.choose(2):
            q = ZERO
        v = is_true(x, x.call('gutil_objv_equal', p, q))
        check(x, v == eq, 'equal: %s for vectors which are%s equal' % (v, '' if eq else ' not'), 'compare')
        norefs(x, 'equal')
    return f


for _n in range(4):
    for _m in range(4):
        equals(_n, _m)


@contract(['C20', 'C03', 'C02'], 'equal', MODS)
def c_equal(x):
    p, n, r = vec(x, 'v1')
    same_ = x.choose(2)
    q, m, t = (p, n, r) if same_ else vec(x, 'v2')
    v = is_true(x, x.call('gutil_objv_equal', p, q))
    norefs(x, 'equal')
    if same_:
        return check(x, v, 'a vector equals itself', 'compare')
    if v:
        x.prove_eq(n, m, 'equal vectors have the same length', 'compare')
        if r is not None and t is not None:
            j = ghost('j', CNT)
            if x.decide_ge(n - j - 1) and x.decide_ge(m - j - 1):
                every(x, j)
                x.prove_eq(item(x, r, j), item(x, t, j), 'equal vectors have the same objects', 'compare')
    elif r is None or t is None:
        x.prove_ge(n + m - 1, 'NULL equals the empty vector', 'compare')


# --------------------------------------------------------------------- C26
WM = ['gutil_weakref']


def weak(x, rc=None):
    o = obj(x, 'weakref', 'gutil_weakref', alloc='g_slice')
    n = o.get('ref_count')
    x.assume_ge(n - 1)
    return o


def calls(x, *names):
    return [e for e in x.st.events if e.kind in names]


WEAK = ('g_weak_ref_init', 'g_weak_ref_set', 'g_weak_ref_get', 'g_weak_ref_clear')


@contract(['C26', 'C02'], 'weakref_new', WM)
def c_weak_new(x):
    t = gobj(x, 'target', True)
    q = x.call('gutil_weakref_new', t)
    r, off = x.lookup(q)
    if not check(x, r is not None and r.kind == 'alloc', 'new: a new reference', undecided=r is None):
        return
    o = Obj(x, r, 'gutil_weakref')
    x.prove_eq(o.get('ref_count'), 1, 'new: one reference', 'refcount')
    e = calls(x, *WEAK)
    if check(x, len(e) >= 1 and e[0].kind == 'g_weak_ref_init', 'new: the weak reference is initialised', 'typestate'):
        x.prove_eq(e[0].a[0], o.addr('weak_ref'), 'new: in place', 'typestate')
        x.prove_eq(e[-1].a[1], t, 'new: pointing at the object', 'typestate')
        check(x, all(q.kind in ('g_weak_ref_init', 'g_weak_ref_set') for q in e), 'new: nothing else', 'typestate')
    check(x, not evs(x, 'ref', 'unref'), 'new: no strong reference', 'refs')
    no_leaks(x, q)


@contract(['C26', 'C03', 'C02'], 'weakref_get', WM)
def c_weak_get(x):
    if x.choose(2):
        k = x.choose(4)
        fn = 'gutil_weakref_' + ('get', 'set', 'ref', 'unref')[k]
        q = x.call(fn, *([ZERO, gobj(x, 'o', True)] if k == 1 else [ZERO]))
        if q is not None and k in (0, 2):
            x.prove_eq(q, 0, fn + '(NULL)')
        return check(x, not calls(x, *WEAK) and not evs(x, 'free', 'alloc'), fn + '(NULL) does nothing')
    o = weak(x)
    snap = snapshot(o.r)
    q = x.call('gutil_weakref_get', o.ptr)
    e = calls(x, *WEAK)
    if check(x, len(e) == 1 and e[0].kind == 'g_weak_ref_get', 'get: asks the weak reference once', 'typestate'):
        x.prove_eq(e[0].a[0], o.addr('weak_ref'), 'get: of this object', 'typestate')
        x.prove_eq(q, e[0].a[-1], 'get: returns what it got, with its reference')
    check(x, not evs(x, 'ref', 'unref'), 'get: the strong reference is the caller\'s', 'refs')
    untouched(x, o.r, snap, 'get')


@contract(['C26', 'C02'], 'weakref_set', WM)
def c_weak_set(x):
    o = weak(x)
    t = gobj(x, 'target', True)
    snap = snapshot(o.r)
    x.call('gutil_weakref_set', o.ptr, t)
    # looking at the current object is fine, as long as the reference obtained
    # by that is dropped, and so is leaving alone what is there already
    e = calls(x, *WEAK)
    got = [q.a[-1] for q in e if q.kind == 'g_weak_ref_get']
    e = [q for q in e if q.kind != 'g_weak_ref_get']
    if not e and any(x.entails_eq(q - t) for q in got):
        pass
    elif check(x, bool(e) and all(q.kind == 'g_weak_ref_set' for q in e), 'set: retargets the weak reference', 'typestate'):
        for q in e:
            x.prove_eq(q.a[0], o.addr('weak_ref'), 'set: of this object', 'typestate')
        x.prove_eq(e[-1].a[1], t, 'set: to the given object', 'typestate')
    if got:
        check(x, not evs(x, 'ref'), 'set: no strong reference', 'refs')
        got = [q for q in got if not x.decide_eq(q)]
        u = evs(x, 'unref')
        if check(x, len(u) == len(got), 'set: drops the references it obtains', 'refs'):
            for q, g in zip(u, got):
                x.prove_eq(q.a[0], g, 'set: drops the references it obtains', 'refs')
    else:
        check(x, not evs(x, 'ref', 'unref'), 'set: no strong reference', 'refs')
    untouched(x, o.r, snap, 'set')


@contract(['C26', 'C02', 'C01'], 'weakref_unref', WM)
def c_weak_unref(x):
    o = weak(x)
    n = o.get('ref_count')
    if x.choose(2):
        x.prove_eq(x.call('gutil_weakref_ref', o.ptr), o.ptr, 'ref returns its argument')
        x.prove_eq(i32(x, o.get('ref_count')), i32(x, n + 1), 'ref: one more reference', 'refcount')
        return check(x, not calls(x, *WEAK), 'ref: nothing else', 'typestate')
    x.call('gutil_weakref_unref', o.ptr)
    e = [q for q in x.st.events if q.kind in WEAK or q.kind == 'free']
    if x.decide_eq(n - 1):
        if check(x, [q.kind for q in e] == ['g_weak_ref_clear', 'free'], 'unref: the last one clears the weak reference, then frees the memory', 'typestate'):
            x.prove_eq(e[0].a[0], o.addr('weak_ref'), 'unref: of this object', 'typestate')
            x.prove_eq(e[1].a[0], o.ptr, 'unref: this object', 'typestate')
    else:
        check(x, not e and not o.r.freed, 'unref: the object stays while it is referenced', 'typestate')
        x.prove_eq(o.get('ref_count'), n - 1, 'unref: one reference less', 'refcount')
