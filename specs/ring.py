"""GUtilRing: capacity, order, size (C07) and the free-function policy (C08)."""
from spec import *

MODS = ['gutil_ring']
SLOTS = 1 << 30     # rings of fewer than 2^30 slots (8 GiB of pointers)


class Ring(Obj):
    pass


def mk(x, name='ring', freef=False):
    """a ring in an arbitrary state reachable through the API"""
    o = obj(x, name, 'gutil_ring', alloc='g_slice')
    o.__class__ = Ring
    fill(x, o, name, freef)
    return o


def fill(x, o, name, freef=False):
    alloc, mx, st, en = o.get('alloc'), o.get('maxsiz'), o.get('start'), o.get('end')
    x.assume_ge(o.get('ref_count') - 1)
    x.assume_ge(alloc)
    x.assume_ge(K(SLOTS - 1) - alloc)
    x.assume_ge(mx + 1)
    x.assume_ge(st + 1)
    if x.decide_ge(st):
        x.assume_ge(alloc - st - 1)
        x.assume_ge(en)
        if x.choose(2):
            # the one full state with the end position not wrapped
            x.assume_eq(alloc - 1)
            x.assume_eq(en - 1)
            x.assume_eq(st)
        else:
            x.assume_ge(alloc - en - 1)
    else:
        x.assume_eq(st + 1)
        x.assume_eq(en + 1)
    if x.decide_eq(alloc):
        o.set('data', ZERO)
    else:
        d = buffer(x, name + '.data', alloc * 8, {'k': 'ptr', 'to': VOIDP}, alloc='g_malloc')
        del d.info['plain']
        own(d)
        o.set('data', d.ptr())
    f = o.get('free_func')
    if freef:
        x.assume_ne(f)
    else:
        x.assume_eq(f)
    n = size(x, o)
    if x.decide_ge(mx):
        x.assume_ge(mx - n)
    return o


def size(x, o):
    st, en, alloc = x.c(o.get('start')), x.c(o.get('end')), x.c(o.get('alloc'))
    if not x.decide_ge(st):
        return ZERO
    if x.decide_ge(en - st - 1):
        return en - st
    return alloc + en - st


def elem(x, o, j, reg=None, dreg=None):
    """element number j as the representation stores it"""
    st, alloc = o.get('start', reg), o.get('alloc', reg)
    d = o.get('data', reg)
    dr, off = x.lookup(d)
    if dreg is not None:
        dr = dreg
    i = x.c(st + j)
    if x.decide_ge(i - alloc):
        i = i - alloc
    return x.rload(dr, x.c(off + i * 8), 8, True)


class Pre:
    """the ring as it was before the call"""

    def __init__(self, x, o):
        self.x, self.o = x, o
        self.n = size(x, o)
        self.reg = snapshot(o.r)
        dr, _ = x.lookup(o.get('data'))
        self.d = snapshot(dr) if dr is not None else None

    def elem(self, j):
        return elem(self.x, self.o, j, self.reg, self.d)

    def get(self, f):
        return self.o.get(f, self.reg)


def valid(x, o, what, shrinking=False):
    """the representation invariant at exit"""
    st, en, alloc, mx = o.get('start'), o.get('end'), o.get('alloc'), o.get('maxsiz')
    x.prove_ge(alloc, what + ': allocation is not negative', 'invariant')
    x.prove_ge(mx + 1, what + ': normalised maximum size', 'invariant')
    if x.decide_ge(st):
        x.prove_ge(alloc - st - 1, what + ': first position inside of the buffer', 'invariant')
        x.prove_ge(en, what + ': end position valid', 'invariant')
        if not (x.decide_eq(alloc - 1) and x.decide_eq(en - 1)):
            x.prove_ge(alloc - en - 1, what + ': end position inside of the buffer', 'invariant')
    else:
        x.prove_eq(en, -1, what + ': an empty ring has no end position', 'invariant')
        x.prove_eq(st, -1, what + ': an empty ring has no start position', 'invariant')
    if not x.decide_eq(alloc):
        dr, off = x.lookup(o.get('data'))
        if dr is None:
            fail(x, 'invariant', what + ': ring with %s slots has no buffer' % x.c(alloc))
        else:
            check(x, not dr.freed, what + ': the buffer was freed', 'invariant')
            if dr.size is not None:
                x.prove_ge(dr.size - off - x.c(alloc) * 8, what + ': the buffer holds as many slots as the ring says', 'invariant')
    n = size(x, o)
    if not shrinking and x.decide_ge(mx):
        x.prove_ge(mx - n, what + ': the number of elements never exceeds the maximum size', 'capacity')


def content(x, o, n, elt, what):
    """the ring holds exactly n elements, number j being elt(j)"""
    m = size(x, o)
    x.prove_eq(m, n, what + ': number of elements')
    j = L(sym('ghost', 'j', (), 0, SLOTS))
    if not x.decide_ge(x.c(m) - j - 1):
        return
    want = elt(j)
    if want is None:
        return
    x.prove_eq(elem(x, o, j), want, what + ': element %s' % j, 'order')


def same(pre):
    return lambda j: pre.elem(j)


def finish(x, o, pre, n, elt, what, keep=('maxsiz', 'free_func', 'ref_count')):
    valid(x, o, what)
    for f in keep:
        x.prove_eq(o.get(f), pre.get(f), what + ': %s unchanged' % f)
    content(x, o, n, elt, what)
    check(x, not evs(x, 'cb'), what + ': no destroy callback may run here', 'callback')
    no_leaks(x, o.ptr)


def nulls(x, name, *rest, ret=None):
    r = x.call(name, ZERO, *rest)
    ok(x)
    if ret is not None:
        x.prove_eq(i32(x, r) if ret != 'ptr' else r, 0 if ret == 'ptr' else ret, '%s(NULL)' % name)


@contract(['C07', 'C02'], 'new', MODS)
def c_new(x):
    which = x.choose(3)
    mx = pint(x, 'max')
    res = pint(x, 'reserved', lo=0, hi=SLOTS - 1)
    f = pptr(x, 'free_func')
    if which == 0:
        p = x.call('gutil_ring_new')
        res, mx, f = ZERO, K(-1), ZERO
    elif which == 1:
        p = x.call('gutil_ring_sized_new', res, mx)
        f = ZERO
    else:
        p = x.call('gutil_ring_new_full', res, mx, f)
    x.prove_ne(p, 0, 'a ring is returned')
    o = obj_at(x, p, 'gutil_ring')
    o.__class__ = Ring
    valid(x, o, 'new ring')
    x.prove_eq(size(x, o), 0, 'new ring is empty')
    x.prove_eq(o.get('ref_count'), 1, 'new ring has one reference')
    want = mx if x.decide_ge(mx) else K(-1)
    x.prove_eq(o.get('maxsiz'), want, 'maximum size is stored')
    x.prove_eq(o.get('free_func'), f, 'free function is stored')
    no_leaks(x, p)


@contract(['C07', 'C02'], 'size', MODS)
def c_size(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_size', ret=0)
    o = mk(x)
    pre = Pre(x, o)
    r = x.call('gutil_ring_size', o.ptr)
    x.prove_eq(i32(x, r), pre.n, 'size')
    untouched(x, o.r, pre.reg, 'size')


@contract(['C07', 'C02'], 'max_size', MODS)
def c_max_size(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_max_size', ret=0)
    o = mk(x)
    r = x.call('gutil_ring_max_size', o.ptr)
    x.prove_eq(i32(x, r), o.get('maxsiz'), 'max_size')


@contract(['C07', 'C02'], 'can_put', MODS)
def c_can_put(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_can_put', pint(x, 'n', lo=NEGMAX), ret=0)
    o = mk(x)
    n = pint(x, 'n', lo=NEGMAX)
    pre = Pre(x, o)
    r = is_true(x, x.call('gutil_ring_can_put', o.ptr, n))
    mx = pre.get('maxsiz')
    if r:
        if x.decide_ge(mx):
            x.prove_ge(mx - pre.n - n, 'can_put says yes only when the elements fit')
    else:
        x.prove_ge(mx, 'can_put never refuses on an unlimited ring')
        x.prove_ge(pre.n + n - mx - 1, 'can_put says no only when the elements do not fit')
    untouched(x, o.r, pre.reg, 'can_put')


@contract(['C07', 'C02'], 'data_at', MODS)
def c_data_at(x):
    pos = pint(x, 'pos', lo=NEGMAX)
    if x.choose(2):
        return nulls(x, 'gutil_ring_data_at', pos, ret='ptr')
    o = mk(x)
    pre = Pre(x, o)
    r = x.call('gutil_ring_data_at', o.ptr, pos)
    if x.decide_ge(pos) and x.decide_ge(pre.n - pos - 1):
        x.prove_eq(r, pre.elem(pos), 'data_at returns the element at that position', 'order')
    else:
        x.prove_eq(r, 0, 'data_at outside of the ring is NULL')
    untouched(x, o.r, pre.reg, 'data_at')


def adder(x, fname, front):
    data = pptr(x, 'data')
    if x.choose(2):
        return nulls(x, fname, data, ret=0)
    o = mk(x, freef=x.choose(2) == 1)
    pre = Pre(x, o)
    r = is_true(x, x.call(fname, o.ptr, data))
    mx = pre.get('maxsiz')
    if r:
        if x.decide_ge(mx):
            x.prove_ge(mx - pre.n - 1, 'an element is accepted only below the maximum size', 'capacity')
        if front:
            finish(x, o, pre, pre.n + 1, lambda j: data if x.decide_eq(j) else pre.elem(x.c(j - 1)), fname)
        else:
            finish(x, o, pre, pre.n + 1, lambda j: data if x.decide_eq(j - pre.n) else pre.elem(j), fname)
    else:
        x.prove_ge(mx, 'an unlimited ring accepts every element', 'capacity')
        x.prove_ge(pre.n - mx, 'an element is refused only at the maximum size', 'capacity')
        finish(x, o, pre, pre.n, same(pre), fname)


@contract(['C07', 'C08', 'C02'], 'put', MODS)
def c_put(x):
    adder(x, 'gutil_ring_put', False)


@contract(['C07', 'C08', 'C02'], 'put_front', MODS)
def c_put_front(x):
    adder(x, 'gutil_ring_put_front', True)


@contract(['C07', 'C08', 'C02'], 'get', MODS)
def c_get(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_get', ret='ptr')
    o = mk(x, freef=x.choose(2) == 1)
    pre = Pre(x, o)
    r = x.call('gutil_ring_get', o.ptr)
    if x.decide_eq(pre.n):
        x.prove_eq(r, 0, 'get on an empty ring')
        finish(x, o, pre, ZERO, same(pre), 'get')
    else:
        x.prove_eq(r, pre.elem(ZERO), 'get returns the first element', 'order')
        finish(x, o, pre, pre.n - 1, lambda j: pre.elem(x.c(j + 1)), 'get')


@contract(['C07', 'C08', 'C02'], 'get_last', MODS)
def c_get_last(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_get_last', ret='ptr')
    o = mk(x, freef=x.choose(2) == 1)
    pre = Pre(x, o)
    r = x.call('gutil_ring_get_last', o.ptr)
    if x.decide_eq(pre.n):
        x.prove_eq(r, 0, 'get_last on an empty ring')
        finish(x, o, pre, ZERO, same(pre), 'get_last')
    else:
        x.prove_eq(r, pre.elem(x.c(pre.n - 1)), 'get_last returns the last element', 'order')
        finish(x, o, pre, pre.n - 1, same(pre), 'get_last')


@contract(['C07', 'C08', 'C02'], 'compact', MODS)
def c_compact(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_compact')
    o = mk(x, freef=x.choose(2) == 1)
    pre = Pre(x, o)
    x.call('gutil_ring_compact', o.ptr)
    finish(x, o, pre, pre.n, same(pre), 'compact')
    x.prove_eq(o.get('alloc'), pre.n, 'compact leaves no spare slots')


@contract(['C07', 'C08', 'C02'], 'reserve', MODS)
def c_reserve(x):
    want = pint(x, 'minsize', hi=SLOTS - 1)
    if x.choose(2):
        return nulls(x, 'gutil_ring_reserve', want, ret=0)
    o = mk(x, freef=x.choose(2) == 1)
    pre = Pre(x, o)
    r = is_true(x, x.call('gutil_ring_reserve', o.ptr, want))
    finish(x, o, pre, pre.n, same(pre), 'reserve')
    mx = pre.get('maxsiz')
    if x.decide_ge(mx) and not x.decide_ge(pre.get('alloc') - o.get('alloc')):
        x.prove_ge(mx - o.get('alloc'), 'reserve: the buffer does not outgrow the maximum size', 'limit')
    if r:
        if not x.decide_ge(mx):
            x.prove_ge(o.get('alloc') - want, 'reserve provides the requested number of slots')
        elif x.decide_ge(mx - want):
            x.prove_ge(o.get('alloc') - want, 'reserve provides the requested number of slots')
    else:
        x.prove_ge(mx, 'reserve fails only on a limited ring')
        x.prove_ge(want - mx - 1, 'reserve fails only beyond the maximum size')


@contract(['C07', 'C08', 'C03', 'C02'], 'flatten', MODS)
def c_flatten(x):
    if x.choose(2):
        if x.choose(2):
            nulls(x, 'gutil_ring_flatten', ZERO, ret='ptr')
        else:
            out = buffer(x, 'size', 4)
            nulls(x, 'gutil_ring_flatten', out.ptr(), ret='ptr')
            x.prove_eq(i32(x, x.rload(out, ZERO, 4)), 0, 'size of NULL')
        return
    o = mk(x, freef=x.choose(2) == 1)
    pre = Pre(x, o)
    out = buffer(x, 'size', 4)
    r = x.call('gutil_ring_flatten', o.ptr, out.ptr())
    finish(x, o, pre, pre.n, same(pre), 'flatten')
    x.prove_eq(i32(x, x.rload(out, ZERO, 4)), pre.n, 'flatten reports the number of elements')
    if x.decide_eq(pre.n):
        x.prove_eq(r, 0, 'flatten of an empty ring is NULL')
    else:
        dr, off = x.lookup(r)
        if check(x, dr is not None and not dr.freed, 'flatten returns live memory'):
            j = L(sym('ghost', 'i', (), 0, SLOTS))
            x.assume_ge(pre.n - 1 - j)
            x.prove_eq(x.rload(dr, x.c(off + j * 8), 8, True), pre.elem(j), 'flattened element', 'order')


@contract(['C07', 'C02'], 'clear', MODS)
def c_clear(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_clear')
    o = mk(x)
    pre = Pre(x, o)
    x.call('gutil_ring_clear', o.ptr)
    finish(x, o, pre, ZERO, same(pre), 'clear')


def drop(x, fname, last, freef):
    n = pint(x, 'n', lo=NEGMAX)
    if x.choose(2):
        return nulls(x, fname, n, ret=0)
    o = mk(x, freef=freef)
    pre = Pre(x, o)
    seq = None
    N = pre.n
    if not x.decide_ge(n - 1):
        k = ZERO
    elif x.decide_ge(n - N):
        k = N
    else:
        k = n
    if freef:
        fp = x.c(o.get('free_func'))
        whole = x.entails_eq(k - N)
        exp = (lambda j: pre.elem(x.c(N - 1 - j))) if last and not whole else (lambda j: pre.elem(j))
        seq = Sequence(x, lambda e: e.kind == 'cb', exp, 'elements passed to the free function', 'free-each')
    r = x.call(fname, o.ptr, n)
    x.prove_eq(i32(x, r), k, '%s returns the number of removed elements' % fname)
    if seq:
        seq.finish(k)
    valid(x, o, fname)
    for f in ('maxsiz', 'free_func', 'ref_count'):
        x.prove_eq(o.get(f), pre.get(f), '%s: %s unchanged' % (fname, f))
    content(x, o, N - k, same(pre) if last else lambda j: pre.elem(x.c(j + k)), fname)
    if not freef:
        check(x, not evs(x, 'cb'), 'no destroy callback without a free function', 'callback')


@contract(['C07', 'C02'], 'drop', MODS)
def c_drop(x):
    drop(x, 'gutil_ring_drop', False, False)


@contract(['C07', 'C02'], 'drop_last', MODS)
def c_drop_last(x):
    drop(x, 'gutil_ring_drop_last', True, False)


@contract(['C08', 'C02'], 'drop+free', MODS)
def c_drop_f(x):
    drop(x, 'gutil_ring_drop', False, True)


@contract(['C08', 'C02'], 'drop_last+free', MODS)
def c_drop_last_f(x):
    drop(x, 'gutil_ring_drop_last', True, True)


def setmax(x, freef):
    mx = pint(x, 'max')
    if x.choose(2):
        return nulls(x, 'gutil_ring_set_max_size', mx)
    o = mk(x, freef=freef)
    pre = Pre(x, o)
    want = mx if x.decide_ge(mx) else K(-1)
    k = ZERO
    if x.decide_ge(want) and x.decide_ge(pre.n - want - 1):
        k = x.c(pre.n - want)
    seq = None
    if freef:
        seq = Sequence(x, lambda e: e.kind == 'cb', lambda j: pre.elem(j), 'elements passed to the free function', 'free-each')
    x.call('gutil_ring_set_max_size', o.ptr, mx)
    if seq:
        seq.finish(k)
    valid(x, o, 'set_max_size')
    x.prove_eq(o.get('maxsiz'), want, 'the new maximum size is in force', 'capacity')
    for f in ('free_func', 'ref_count'):
        x.prove_eq(o.get(f), pre.get(f), 'set_max_size: %s unchanged' % f)
    content(x, o, pre.n - k, lambda j: pre.elem(x.c(j + k)), 'set_max_size')


@contract(['C07', 'C02'], 'set_max_size', MODS)
def c_setmax(x):
    setmax(x, False)


@contract(['C08', 'C02'], 'set_max_size+free', MODS)
def c_setmax_f(x):
    setmax(x, True)


@contract(['C08', 'C02'], 'clear+free', MODS)
def c_clear_f(x):
    o = mk(x, freef=True)
    pre = Pre(x, o)
    seq = Sequence(x, lambda e: e.kind == 'cb', lambda j: pre.elem(j), 'elements passed to the free function', 'free-each')
    x.call('gutil_ring_clear', o.ptr)
    seq.finish(pre.n)
    valid(x, o, 'clear')
    x.prove_eq(size(x, o), 0, 'clear empties the ring')


@contract(['C08', 'C01', 'C02'], 'unref', MODS)
def c_unref(x):
    if x.choose(2):
        return nulls(x, 'gutil_ring_unref')
    f = x.choose(2) == 1
    o = mk(x, freef=f)
    pre = Pre(x, o)
    rc = x.c(o.get('ref_count'))
    d = x.c(o.get('data'))
    last = x.decide_eq(rc - 1)
    seq = Sequence(x, lambda e: e.kind == 'cb', lambda j: pre.elem(j), 'elements passed to the free function', 'free-each')
    x.call('gutil_ring_unref', o.ptr)
    seq.finish(pre.n if f and last else ZERO)
    check(x, bool(o.r.freed) == last, 'the ring is freed by the last unref and only by it', 'lifetime')
    dr, _ = x.lookup(d)
    if dr is not None:
        check(x, bool(dr.freed) == last, 'the buffer is freed by the last unref and only by it', 'lifetime')
    if not last:
        x.prove_eq(o.get('ref_count'), rc - 1, 'unref drops one reference')


@contract(['C08', 'C02'], 'set_free_func', MODS)
def c_sff(x):
    f = pptr(x, 'f')
    if x.choose(2):
        return nulls(x, 'gutil_ring_set_free_func', f)
    o = mk(x, freef=x.choose(2) == 1)
    pre = Pre(x, o)
    x.call('gutil_ring_set_free_func', o.ptr, f)
    x.prove_eq(o.get('free_func'), f, 'the free function is stored')
    finish(x, o, pre, pre.n, same(pre), 'set_free_func', keep=('maxsiz', 'ref_count'))


# ----------------------------------------------- C04: callbacks use the ring
class Live:
    """a ring driven through the API together with the list it stands for"""
    OPS = ('put', 'put_front', 'get', 'get_last', 'clear', 'drop', 'drop_last', 'reserve', 'compact', 'set_max', 'unset', 'refs')

    def __init__(self, x, n, res, rot, nested):
        self.x, self.nested = x, nested
        self.fn = pptr(x, 'free_func', {'k': 'func'}, False)
        self.r = x.call('gutil_ring_new_full', K(res), K(-1), ZERO)
        for i in range(rot):
            x.call('gutil_ring_put', self.r, pptr(x, 'filler%d' % i))
            x.call('gutil_ring_get', self.r)
        self.note('list', ())
        for i in range(n):
            self.put()
        x.call('gutil_ring_set_free_func', self.r, self.fn)
        x.cb_hook = self.hook

    def note(self, k, v):
        self.x.st.notes = dict(self.x.st.notes)
        self.x.st.notes['live:' + k] = v

    def get_(self, k, d=None):
        return self.x.st.notes.get('live:' + k, d)

    def new(self):
        k = self.get_('count', 0)
        self.note('count', k + 1)
        return k

    def elt(self, k):
        return pptr(self.x, 'element%d' % k)

    def add(self, fn, front):
        x = self.x
        k = self.new()
        r = x.call(fn, self.r, self.elt(k))
        if x.decide_eq(i32(x, r)):
            return
        l = self.get_('list')
        self.note('list', (k,) + l if front else l + (k,))

    def put(self):
        self.add('gutil_ring_put', False)

    def put_front(self):
        self.add('gutil_ring_put_front', True)

    def take(self, fn, last):
        l = self.get_('list')
        r = self.x.call(fn, self.r)
        if not l:
            self.x.prove_eq(r, 0, '%s of an empty ring' % fn)
            return
        self.x.prove_eq(r, self.elt(l[-1 if last else 0]), '%s returns the element at the end it takes it from' % fn, 'once')
        self.note('list', l[:-1] if last else l[1:])

    def get(self):
        self.take('gutil_ring_get', False)

    def get_last(self):
        self.take('gutil_ring_get_last', True)

    def clear(self):
        self.x.call('gutil_ring_clear', self.r)

    def drop(self):
        self.x.call('gutil_ring_drop', self.r, K(2))

    def drop_last(self):
        self.x.call('gutil_ring_drop_last', self.r, K(2))

    def reserve(self):
        self.x.call('gutil_ring_reserve', self.r, K(5))

    def compact(self):
        self.x.call('gutil_ring_compact', self.r)

    def set_max(self):
        # the elements above the new limit are removed one by one
        self.note('shrinking', self.get_('shrinking', 0) + 1)
        self.x.call('gutil_ring_set_max_size', self.r, K(1))
        self.note('shrinking', self.get_('shrinking', 0) - 1)

    def unset(self):
        """sets the free function again"""
        self.x.call('gutil_ring_set_free_func', self.r, self.fn)

    def refs(self):
        self.x.call('gutil_ring_ref', self.r)
        self.x.call('gutil_ring_unref', self.r)

    def verify(self, what):
        x = self.x
        o = obj_at(x, self.r, 'gutil_ring')
        o.__class__ = Ring
        l = self.get_('list')
        valid(x, o, what, self.get_('shrinking', 0) > 0)
        if not check(x, x.entails_eq(size(x, o) - len(l)), '%s: the ring holds what was not destroyed or taken (%s elements, expected %d)' % (what, x.c(size(x, o)), len(l)), 'once'):
            raise absint.PathEnd()
        for i, k in enumerate(l):
            x.prove_eq(elem(x, o, K(i)), self.elt(k), '%s: element %d' % (what, i), 'once')

    def hook(self, x, fn, args, ins):
        l = self.get_('list')
        k = [i for i in l if x.entails_eq(args[0] - self.elt(i))] if args else []
        x.prove_eq(fn, self.fn, 'the destroy function is called', 'callback')
        if not check(x, k, 'what is destroyed is an element of the ring which has not been destroyed yet', 'once'):
            raise absint.PathEnd()
        self.note('list', tuple(i for i in l if i != k[0]))
        self.verify('while an element is destroyed, it is not in the ring any more')
        used = self.get_('nested', 0)
        if used >= self.nested:
            return
        c = x.choose(len(self.OPS) + 1)
        if not c:
            return
        self.note('nested', used + 1)
        getattr(self, self.OPS[c - 1])()
        self.verify('after ' + self.OPS[c - 1] + ' by the destroy function')


LMAIN = ('clear', 'drop', 'drop_last', 'set_max')


def live(n, res, rot, nested, main, thorough=False):
    @contract(['C04', 'C02', 'C08'], 'ring of %d (%d slots, turned by %d), %d calls during %s' % (n, res, rot, nested, main), MODS, thorough=thorough,
              unrollall=60, rec_depth=8, maxpaths=40000)
    def f(x):
        v = Live(x, n, res, rot, nested)
        getattr(v, main)()
        v.verify('after ' + main)
        x.cb_hook = None
        v.put()
        v.get()
        v.verify('after ' + main + ', then put and get')
        left = v.get_('list')
        k = len(evs(x, 'cb'))
        x.call('gutil_ring_unref', v.r)
        e = evs(x, 'cb')[k:]
        if check(x, len(e) == len(left), 'unref destroys what is left in the ring', 'once'):
            for i, j in zip(e, left):
                x.prove_eq(i.a[1], v.elt(j), 'unref destroys each element once', 'once')
        no_leaks(x)
    return f


for _m in LMAIN:
    live(1, 0, 0, 1, _m)
    live(2, 2, 1, 1, _m)
    live(3, 3, 2, 1, _m)
    live(3, 4, 2, 2, _m)
    live(4, 4, 3, 2, _m, True)
    live(3, 3, 1, 3, _m, True)


# ------------------------------------------------ any operations, from the start
class Life:
    """a ring made and driven through the API only, next to a list"""
    OPS = ('put', 'put_front', 'get', 'get_last', 'drop', 'drop_last', 'clear', 'compact', 'reserve', 'flatten', 'max_2', 'max_no', 'unfree')

    def __init__(self, x, res, mx, free):
        self.x, self.l, self.mx, self.n = x, [], mx, 0
        self.fn = L(sym('ghost', 'destroy function', (), 4096, PMAX, True, {'k': 'func'})) if free else ZERO
        self.r = x.call('gutil_ring_new_full', K(res), K(mx), self.fn)
        self.seen = 0
        self.what = 'a new ring'

    def elt(self, k):
        return L(sym('ghost', 'element %d' % k, (), 0, PMAX, True, VOIDP))

    def limit(self):
        return self.mx if self.mx >= 0 else 1 << 30

    def put(self, front=False):
        x, e = self.x, self.elt(self.n)
        self.n += 1
        got = x.sview(x.call('gutil_ring_put_front' if front else 'gutil_ring_put', self.r, e), 32)
        ok = len(self.l) < self.limit()
        check(x, x.entails_eq(got - (1 if ok else 0)), self.what + ': elements are refused at the limit only', 'life')
        if ok:
            self.l.insert(0 if front else len(self.l), e)
        return []

    def put_front(self):
        return self.put(True)

    def get(self, last=False):
        x = self.x
        got = x.call('gutil_ring_get_last' if last else 'gutil_ring_get', self.r)
        want = self.l.pop(-1 if last else 0) if self.l else ZERO
        x.prove_eq(got, want, self.what + ': the %s element is returned' % ('last' if last else 'first'), 'life')
        return []

    def get_last(self):
        return self.get(True)

    def drop(self):
        got = self.x.sview(self.x.call('gutil_ring_drop', self.r, K(2)), 32)
        d, self.l = self.l[:2], self.l[2:]
        self.x.prove_eq(got, len(d), self.what + ': number of elements dropped', 'life')
        return d

    def drop_last(self):
        got = self.x.sview(self.x.call('gutil_ring_drop_last', self.r, K(2)), 32)
        d = self.l[::-1][:2]
        self.l = self.l[:max(0, len(self.l) - 2)]
        self.x.prove_eq(got, len(d), self.what + ': number of elements dropped', 'life')
        return {*()} if not d else set(map(str, d)) if len(self.l) == 0 and len(d) > 1 else d

    def clear(self):
        self.x.call('gutil_ring_clear', self.r)
        d, self.l = self.l, []
        return d

    def compact(self):
        self.x.call('gutil_ring_compact', self.r)
        return []

    def reserve(self):
        x = self.x
        got = x.sview(x.call('gutil_ring_reserve', self.r, K(4)), 32)
        if self.mx < 0:
            x.prove_eq(got, 1, self.what + ': an unlimited ring can grow', 'life')
        return []

    def flatten(self):
        x = self.x
        n = obj_region_word(x)
        p = x.call('gutil_ring_flatten', self.r, n.ptr())
        x.prove_eq(x.sview(x.rload(n, ZERO, 4), 32), len(self.l), self.what + ': size of the flat contents', 'life')
        if not self.l:
            x.prove_eq(p, 0, self.what + ': nothing to flatten', 'life')
        for i, e in enumerate(self.l):
            x.prove_eq(x.load(p + i * 8, 8, True), e, self.what + ': element %d of the flat contents' % i, 'life')
        return []

    def max_2(self):
        self.x.call('gutil_ring_set_max_size', self.r, K(2))
        self.mx = 2
        k = max(0, len(self.l) - 2)
        d, self.l = self.l[:k], self.l[k:]
        return d

    def max_no(self):
        self.x.call('gutil_ring_set_max_size', self.r, K(-1))
        self.mx = -1
        return []

    def unfree(self):
        self.x.call('gutil_ring_set_free_func', self.r, ZERO)
        self.fn = ZERO
        return []

    def destroyed(self, want, fn):
        x = self.x
        e = evs(x, 'cb')[self.seen:]
        self.seen += len(e)
        if not x.entails_ne(fn):
            want = []
        if not check(x, len(e) == len(want), '%s: %d elements are destroyed, expected %d' % (self.what, len(e), len(want)), 'life'):
            raise absint.PathEnd()
        if isinstance(want, set):
            check(x, {str(x.c(q.a[1])) for q in e} == want, self.what + ': the elements removed are destroyed', 'life')
            return
        for q, w in zip(e, want):
            x.prove_eq(q.a[1], w, self.what + ': the elements removed are destroyed in order', 'life')

    def step(self, op):
        self.what += ', ' + op
        fn = self.fn
        self.destroyed(getattr(self, op)(), fn)

    def verify(self):
        x = self.x
        x.prove_eq(x.sview(x.call('gutil_ring_size', self.r), 32), len(self.l), self.what + ': size', 'life')
        x.prove_eq(x.sview(x.call('gutil_ring_max_size', self.r), 32), self.mx, self.what + ': maximum size', 'life')
        for i, e in enumerate(self.l):
            x.prove_eq(x.call('gutil_ring_data_at', self.r, K(i)), e, self.what + ': element %d' % i, 'life')
        x.prove_eq(x.call('gutil_ring_data_at', self.r, K(len(self.l))), 0, self.what + ': nothing behind the last element', 'life')
        x.prove_eq(x.call('gutil_ring_data_at', self.r, K(-1)), 0, self.what + ': nothing before the first element', 'life')
        can = self.limit() - len(self.l)
        if can < 1 << 20:
            for n in (can, can + 1):
                x.prove_eq(x.sview(x.call('gutil_ring_can_put', self.r, K(n)), 32), 1 if n <= can else 0, self.what + ': can_put', 'life')


def obj_region_word(x):
    n = x.st.notes.get('words', 0)
    x.st.notes = dict(x.st.notes, words=n + 1)
    return x.region('size%d' % n, 'ext', K(4), 'sym', {'k': 'int', 'size': 4, 'signed': True})


def life(res, mx, free, steps, puts, first=None, thorough=False):
    name = 'life of a ring (%d slots, limit %d%s), %d operations' % (res, mx, ', destroyed' if free else '', steps)
    if first:
        name += ' from ' + first

    @contract(['C07'] if not free else ['C08', 'C07', 'C02'], name, MODS, thorough=thorough, unrollall=60, maxpaths=200000, limit=1200 if thorough else 240)
    def f(x):
        v = Life(x, res, mx, free)
        turn = x.choose(2)
        for i in range(turn):
            v.step('put')
            v.step('get')
        for i in range(x.choose(puts + 1)):
            v.step('put')
        for i in range(steps):
            v.step(first if first and not i else Life.OPS[x.choose(len(Life.OPS))])
            v.verify()
        x.call('gutil_ring_unref', v.r)
        v.what += ', unref'
        v.destroyed(v.l, v.fn)
        no_leaks(x)
    return f


for _r in (0, 2, 3):
    for _m in (-1, 2, 3):
        for _f in (False, True):
            life(_r, _m, _f, 2, 3)
            for _o in Life.OPS:
                life(_r, _m, _f, 3, 4, _o, True)
