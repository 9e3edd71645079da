"""GUtilIntHistory (C24): the newest samples inside the window, and what is
computed from them."""
from spec import *

MODS = ['gutil_history']
TMAX = 1 << 62
TIMEF = {'k': 'ptr', 'to': None}


def time(name, lo=0, hi=TMAX):
    return L(sym('ghost', name, (), lo, hi))


class Hist:
    def __init__(self, x, m, name='history'):
        self.x, self.m = x, m
        o = Obj(x, x.region(name, 'ext', K(1), 'sym', struct_t('gutil_int_history')), 'gutil_int_history')
        self.off, esz, ety = o.fld('entry')
        e = x.mod.structs.get('gutil_int_history_entry')
        if not e:
            raise Anchor('structure gutil_int_history_entry is not defined')
        self.esz = e['size']
        self.ef = {n: (oo, sz) for n, oo, sz, t in e['fields']}
        o.r.size = L(max(x.mod.structs['gutil_int_history']['size'], self.off + m * self.esz))
        o.r.info = {'sep': 1}
        o.r.alloc = 'g_malloc'
        self.o = o
        o.set('max_size', K(m))

    def efld(self, i, f):
        if f not in self.ef:
            raise Anchor('gutil_int_history_entry has no member %s' % f)
        oo, sz = self.ef[f]
        return K(self.off + i * self.esz + oo), sz

    def setup(self, samples, first):
        x, o = self.x, self.o
        n = len(samples)
        o.set('first', K(first if n else -1))
        o.set('last', K((first + n - 1) % self.m if n else -1))
        for k, (t, v) in enumerate(samples):
            i = (first + k) % self.m
            for f, val in (('time', t), ('value', v)):
                a, sz = self.efld(i, f)
                x.rstore(o.r, a, L(val), sz)

    def samples(self, what):
        """the samples the object holds now, or None"""
        x, o = self.x, self.o
        f, l = [x.c(x.sview(o.get(q), 32)) for q in ('first', 'last')]
        if not f.isconst() or not l.isconst():
            fail(x, 'post', what + ': positions are unknown (%s, %s)' % (f, l), undecided=True)
            return None
        f, l = f.c, l.c
        if l < 0 or f < 0:
            check(x, l < 0, what + ': no oldest sample', 'invariant')
            return []
        if not check(x, f < self.m and l < self.m, what + ': positions are inside of the buffer', 'invariant'):
            return None
        out = []
        for k in range((l - f) % self.m + 1):
            i = (f + k) % self.m
            a, sz = self.efld(i, 'time')
            b, sb = self.efld(i, 'value')
            out.append((x.sview(x.rload(o.r, a, sz), 64), x.sview(x.rload(o.r, b, sb), 32)))
        return out

    def holds(self, want, what):
        x = self.x
        have = self.samples(what)
        if have is None:
            return
        if not check(x, len(have) == len(want), what + ': %d sample(s), expected %d' % (len(have), len(want)), 'samples'):
            return
        for k, ((t, v), (wt, wv)) in enumerate(zip(have, want)):
            x.prove_eq(t, wt, what + ': time of sample %d' % k, 'samples')
            x.prove_eq(v, wv, what + ': value of sample %d' % k, 'samples')
        x.prove_eq(x.sview(self.o.get('max_size'), 32), self.m, what + ': the capacity does not change')


def values(x, n):
    return [pint(x, 'v%d' % k) for k in range(n)]


def make(x, m, wide=True):
    """any valid history of capacity m at any rotation, any times (where the
    area under the line is computed: samples within 2^28 time units)"""
    lim = TMAX if wide else 1 << 28
    h = Hist(x, m)
    n = x.choose(m + 1)
    first = x.choose(m) if n else 0
    ts = []
    for k in range(n):
        ts.append(time('t0') if not k else x.c(ts[-1] + time('dt%d' % k, 1, lim)))
    span = time('max_interval', 1, lim)
    if n:
        x.assume_ge(K(TMAX) - ts[-1])
        x.assume_ge(span - (ts[-1] - ts[0]))
    h.o.set('max_interval', span)
    h.samples0 = list(zip(ts, values(x, n)))
    h.setup(h.samples0, first)
    h.span = span
    clock(x, h, time('now'))
    return h


def clock(x, h, now):
    fn = pptr(x, 'clock', TIMEF, False)
    h.o.set('time', fn)
    h.now = now

    def hook(x, f, args, ins):
        if x.entails_eq(f - fn):
            return now
    x.cb_hook = hook


def fresh(x, samples, now, span):
    """the samples which are not too old"""
    if not samples or x.decide_ge(now - span - samples[-1][0] - 1):
        return []
    out = list(samples)
    while x.decide_ge(now - span - out[0][0] - 1):
        out.pop(0)
    return out


def added(x, samples, now, span, m, v):
    out = fresh(x, samples, now, span)
    if not out:
        return [(now, v)]
    last = out[-1][0]
    if x.decide_ge(now - last - 1):
        return (out + [(now, v)])[-m:]
    return out[:-1] + [(last, v)]


def mean(x, what, r, samples):
    """r is the area under the line through the samples divided by its length"""
    r = x.sview(r, 32)
    if len(samples) == 1:
        x.prove_eq(r, samples[0][1], what + ': the value of the only sample', 'mean')
        return
    dt = x.c(samples[-1][0] - samples[0][0])
    if not dt.isconst():
        return
    area = ZERO
    for (t, v), (t1, v1) in zip(samples, samples[1:]):
        area = area + (L(v) + L(v1)) * x.c(t1 - t).c
    x.prove_ge(area - r * (2 * dt.c) + (2 * dt.c - 1), what + ': the mean value is not too large', 'mean')
    x.prove_ge(r * (2 * dt.c) - area + (2 * dt.c - 1), what + ': the mean value is not too small', 'mean')


def ops(m, thorough=False):
    # long sums of products are beyond the prover; shorter ones show that there is no overflow
    opts = dict(thorough=thorough, unrollall=2 * m + 4, maxpaths=60000, nsw_assume=m > 5)

    @contract(['C24', 'C02'], 'add %d' % m, MODS, **opts)
    def c_add(x):
        h = make(x, m, False)
        v = pint(x, 'value')
        r = x.call('gutil_int_history_add', h.o.ptr, v)
        want = added(x, h.samples0, h.now, h.span, m, v)
        h.holds(want, 'add')
        if len(want) == 1:
            mean(x, 'add', r, want)

    @contract(['C24', 'C02'], 'size %d' % m, MODS, **opts)
    def c_size(x):
        h = make(x, m)
        r = x.call('gutil_int_history_size', h.o.ptr)
        want = fresh(x, h.samples0, h.now, h.span)
        x.prove_eq(x.uview(r, 32), len(want), 'size: the number of samples')
        h.holds(want, 'size')

    @contract(['C24', 'C02'], 'interval %d' % m, MODS, **opts)
    def c_interval(x):
        h = make(x, m)
        r = x.call('gutil_int_history_interval', h.o.ptr)
        want = fresh(x, h.samples0, h.now, h.span)
        x.prove_eq(x.sview(r, 64), h.now - want[0][0] if want else 0, 'interval: the age of the oldest sample')
        h.holds(want, 'interval')

    @contract(['C24', 'C02'], 'median %d' % m, MODS, **opts)
    def c_median(x):
        h = make(x, m, False)
        d = pint(x, 'default')
        r = x.call('gutil_int_history_median', h.o.ptr, d)
        want = fresh(x, h.samples0, h.now, h.span)
        h.holds(want, 'median')
        if not want:
            x.prove_eq(x.sview(r, 32), d, 'median: the default value if there are no samples')
        elif len(want) == 1:
            mean(x, 'median', r, want)

    @contract(['C24', 'C02'], 'clear %d' % m, MODS, **opts)
    def c_clear(x):
        h = make(x, m)
        x.call('gutil_int_history_clear', h.o.ptr)
        h.holds([], 'clear')
        x.prove_eq(x.uview(x.call('gutil_int_history_size', h.o.ptr), 32), 0, 'clear, then size')
        v = pint(x, 'value')
        r = x.call('gutil_int_history_add', h.o.ptr, v)
        h.holds([(h.now, v)], 'clear, then add')
        mean(x, 'clear, then add', r, [(h.now, v)])


DELTAS = (6, 10, 1 << 29, 2, 1 << 28, 14)


def means(m, thorough=False):
    opts = dict(thorough=thorough, unrollall=2 * m + 4, maxpaths=60000, nsw_assume=False)

    @contract(['C24', 'C02'], 'mean %d' % m, MODS, **opts)
    def c_mean(x):
        h = Hist(x, m)
        n = 1 + x.choose(m)
        first = x.choose(m)
        d0 = x.choose(3)
        ds = (DELTAS[d0:] + DELTAS[:d0])[:n - 1]
        t0 = time('t0', 0, 1 << 60)
        ts = [t0]
        for d in ds:
            ts.append(x.c(ts[-1] + d))
        span = sum(ds) + 20 if x.choose(2) else 1 << 40
        h.o.set('max_interval', K(span))
        h.samples0 = list(zip(ts, values(x, n)))
        h.setup(h.samples0, first)
        # nothing expires, or the oldest ones, or only the last one is left
        later = [0, 26, (1 << 29) + 2][x.choose(3)]
        if n > 1 and span < 1 << 40 and x.choose(2):
            later = max(0, span - ds[-1] + 2)
        now = x.c(ts[-1] + later)
        clock(x, h, now)
        if x.choose(2):
            v = pint(x, 'value')
            r = x.call('gutil_int_history_add', h.o.ptr, v)
            want = added(x, h.samples0, now, K(span), m, v)
            mean(x, 'add', r, want)
        else:
            d = pint(x, 'default')
            r = x.call('gutil_int_history_median', h.o.ptr, d)
            want = fresh(x, h.samples0, now, K(span))
            if want:
                mean(x, 'median', r, want)
            else:
                x.prove_eq(x.sview(r, 32), d, 'median: the default value')
        h.holds(want, 'samples')


for _m in (1, 2, 3, 4):
    ops(_m)
    means(_m)
for _m in (5, 6):
    ops(_m, True)
    means(_m, True)


@contract(['C24', 'C02', 'C03'], 'new', MODS)
def c_new(x):
    m = pint(x, 'max_size')
    span = L(sym('param', 'max_interval', (), -(1 << 63), (1 << 63) - 1))
    k = x.choose(3)
    fn = ZERO
    if k == 0:
        p = x.call('gutil_int_history_new', m, span)
    else:
        fn = pptr(x, 'clock', TIMEF, False) if k == 1 else ZERO
        p = x.call('gutil_int_history_new_full', m, span, fn)
    if not x.decide_ge(m - 1) or not x.decide_ge(span - 1):
        x.prove_eq(p, 0, 'new: invalid parameters are refused')
        no_leaks(x)
        return
    x.prove_ne(p, 0, 'new: an object')
    o = obj_at(x, p, 'gutil_int_history')
    e = x.mod.structs.get('gutil_int_history_entry')
    r = o.r
    x.prove_ge(r.size - (o.fld('entry')[0] + m * e['size']), 'new: room for all the samples', 'invariant')
    x.prove_eq(x.sview(o.get('ref_count'), 32), 1, 'new: one reference')
    x.prove_eq(x.sview(o.get('max_size'), 32), m, 'new: capacity')
    x.prove_eq(x.sview(o.get('max_interval'), 64), span, 'new: interval')
    x.prove_ge(-1 - x.sview(o.get('last'), 32), 'new: no samples', 'samples')
    x.prove_eq(o.get('time'), x.funcptr('g_get_monotonic_time') if k != 1 else fn, 'new: the clock')
    no_leaks(x, p)


@contract(['C24', 'C01', 'C02', 'C03'], 'references', MODS)
def c_refs(x):
    h = Hist(x, 2)
    n = pint(x, 'ref_count', 4, True, 1, (1 << 30))
    h.o.set('ref_count', n)
    h.o.set('max_interval', time('max_interval', 1))
    if x.choose(2):
        r = x.call('gutil_int_history_ref', h.o.ptr)
        x.prove_eq(r, h.o.ptr, 'ref: returns its argument')
        x.prove_eq(x.sview(h.o.get('ref_count'), 32), n + 1, 'ref: one more reference')
    else:
        x.call('gutil_int_history_unref', h.o.ptr)
        last = x.decide_eq(n - 1)
        check(x, bool(h.o.r.freed) == last, 'unref: %s' % ('the last reference frees the object' if last else 'not the last reference'), 'once')
        if not last:
            x.prove_eq(x.sview(h.o.get('ref_count'), 32), n - 1, 'unref: one reference less')


@contract(['C24', 'C03'], 'null', MODS)
def c_null(x):
    d = pint(x, 'default')
    x.prove_eq(x.call('gutil_int_history_ref', ZERO), 0, 'ref of NULL')
    x.call('gutil_int_history_unref', ZERO)
    x.call('gutil_int_history_clear', ZERO)
    x.prove_eq(x.uview(x.call('gutil_int_history_size', ZERO), 32), 0, 'size of NULL')
    x.prove_eq(x.sview(x.call('gutil_int_history_interval', ZERO), 64), 0, 'interval of NULL')
    x.prove_eq(x.sview(x.call('gutil_int_history_median', ZERO, d), 32), d, 'median of NULL')
    x.prove_eq(x.sview(x.call('gutil_int_history_add', ZERO, d), 32), 0, 'add to NULL')


# ------------------------------------------------ any operations, from the start
STEPS = (0, 1, 4, 10, 11, -3)


def life(m, n, thorough=False, steps=STEPS):
    """driven through the API only, next to a list of samples"""
    @contract(['C24'], 'life of a history of %d, %d operations' % (m, n), MODS, thorough=thorough, unrollall=4 * m + 8, maxpaths=100000, limit=900 if thorough else 240)
    def f(x):
        fn = pptr(x, 'clock', TIMEF, False)
        h = x.call('gutil_int_history_new_full', K(m), K(10), fn)
        now = [time('t0', 0, 1 << 60)]
        back = [0]

        def hook(x, f, args, ins):
            if x.entails_eq(f - fn):
                return now[0]
        x.cb_hook = hook
        l = []
        what = 'new'
        for k in range(n):
            op = x.choose(len(steps) + (1 if k > 1 else 0))
            if op == len(steps):
                what += ', clear'
                x.call('gutil_int_history_clear', h)
                l = []
            else:
                what += ', add after %d' % steps[op]
                now[0] = x.c(now[0] + steps[op])
                v = pint(x, 'v%d' % k)
                r = x.call('gutil_int_history_add', h, v)
                l = added(x, l, now[0], K(10), m, v)
                mean(x, what, r, l)
            d = pint(x, 'default')
            if k & 1 or k == n - 1:
                r = x.call('gutil_int_history_median', h, d)
                l = fresh(x, l, now[0], K(10))
                if l:
                    mean(x, what + ', median', r, l)
                else:
                    x.prove_eq(x.sview(r, 32), d, what + ', median: the default value')
            if k != 1:
                x.prove_eq(x.sview(x.call('gutil_int_history_interval', h), 64), now[0] - l[0][0] if l else 0, what + ': the age of the oldest sample', 'samples')
                x.prove_eq(x.uview(x.call('gutil_int_history_size', h), 32), len(l), what + ': the number of samples', 'samples')
        x.call('gutil_int_history_unref', h)
        no_leaks(x)
    return f


for _m in (1, 2, 3):
    life(_m, 3)
    life(_m, 4, True)
life(4, 5, True, (0, 4, 11, -3))
