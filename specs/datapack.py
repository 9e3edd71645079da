"""Multi-byte integers and TLV entries (C09, C10, C11)."""
from spec import *

MODS = ['gutil_datapack']
MAXN = 10       # bytes needed for 64 bits
I64 = (1 << 63)


def value(x, sign):
    return pint(x, 'value', 8, sign)


def fn(sign, what):
    return 'gutil_%s_mbn_%s' % ('signed' if sign else 'unsigned', what)


def fits(x, v, n, sign):
    """v is representable by n groups of 7 bits: list of expressions >= 0"""
    if sign:
        return [v + (1 << (7 * n - 1)), K((1 << (7 * n - 1)) - 1) - v]
    return [K((1 << (7 * n)) - 1) - v]


def minimal(x, v, n, sign, what):
    n = x.c(n)
    for k in range(1, MAXN + 1):
        if x.decide_eq(n - k):
            for e in fits(x, v, k, sign):
                x.prove_ge(e, '%s: the value fits into %d groups' % (what, k), 'size')
            if k > 1:
                no = fits(x, v, k - 1, sign)
                # one of them must fail
                good = False
                for e in no:
                    good = good or x.entails_ge(K(-1) - e)
                if not good and sign:
                    # decide by the sign of the value
                    if x.decide_ge(v):
                        good = x.entails_ge(K(-1) - no[1])
                    else:
                        good = x.entails_ge(K(-1) - no[0])
                check(x, good, '%s: the value %s does not need %d groups' % (what, v, k), 'size', undecided=x.c(v).imprecise())
            return k
    fail(x, 'size', '%s: %s groups, a 64-bit value takes 1 to %d' % (what, n, MAXN))


def digits(x, v, n):
    out = []
    q = L(v)
    for _ in range(n):
        q, r = x.divmod_const(q, 128)
        out.append(r)
    return out


def encoded(x, b, v, n, what):
    """bytes of b are the n groups of v, most significant first"""
    d = digits(x, v, n)
    for i in range(n):
        got = x.uview(x.rload(b, K(i), 1), 8)
        want = d[n - 1 - i] + (128 if i < n - 1 else 0)
        x.prove_eq(got, want, '%s: byte %d of %d' % (what, i, n), 'encoding')


def mk_encode(sign):
    @contract(['C10', 'C02'], fn(sign, 'size'), MODS)
    def c_size(x):
        v = value(x, sign)
        n = u32(x, x.call(fn(sign, 'size'), v))
        minimal(x, v, n, sign, fn(sign, 'size'))

    @contract(['C10', 'C02'], fn(sign, 'encode2'), MODS)
    def c_encode2(x):
        v = value(x, sign)
        n = x.choose(MAXN + 1)
        b = buffer(x, 'buf', K(n))
        snap = snapshot(b)
        r = x.call(fn(sign, 'encode2'), b.ptr(), v, K(n))
        x.prove_eq(u32(x, r), n, 'encode2 returns the size')
        if n == 0:
            untouched(x, b, snap, 'zero size')
        else:
            encoded(x, b, v, n, 'encode2')

    @contract(['C10', 'C02'], fn(sign, 'encode'), MODS)
    def c_encode(x):
        v = value(x, sign)
        size = L(sym('ghost', 'size', (), 0, MAXN))
        n = u32(x, x.call(fn(sign, 'size'), v))
        b = buffer(x, 'buf', n)
        r = x.call(fn(sign, 'encode'), b.ptr(), v)
        x.prove_eq(u32(x, r), n, 'encode returns what size predicts')
        for k in range(1, MAXN + 1):
            if x.decide_eq(n - k):
                encoded(x, b, v, k, 'encode')
                return

    @contract('C10', fn(sign, 'roundtrip'), MODS, unroll=16)
    def c_round(x):
        v = value(x, sign)
        k = 1 + x.choose(MAXN)
        b = buffer(x, 'buf', K(k))
        if k < MAXN:
            for e in fits(x, v, k, sign):
                x.assume_ge(e)
        x.call(fn(sign, 'encode2'), b.ptr(), v, K(k))
        rng = obj(x, 'range', 'gutil_range')
        rng.set('ptr', b.ptr())
        rng.set('end', b.ptr(K(k)))
        out = buffer(x, 'out', K(8))
        r = x.call(fn(sign, 'decode'), rng.ptr, out.ptr())
        if not is_true(x, r):
            fail(x, 'roundtrip', 'decoding %d encoded bytes fails' % k, undecided=x.c(r).imprecise())
            return
        got = x.rload(out, ZERO, 8)
        got = x.sview(got, 64) if sign else x.uview(got, 64)
        x.prove_eq(got, v, 'decoding %d encoded bytes gives the value back' % k, 'roundtrip')
        x.prove_eq(rng.get('ptr'), b.ptr(K(k)), 'all %d encoded bytes are consumed' % k, 'roundtrip')


mk_encode(True)
mk_encode(False)


def parse(x, b, snap, off, n, sign):
    """what the n bytes at off in b stand for: (number of bytes, value) or None"""
    ds = []
    i = 0
    while True:
        if not x.decide_ge(x.c(n - i - 1)):
            return None
        by = x.uview(x.rload(snap, x.c(off + i), 1), 8)
        i += 1
        if x.decide_ge(by - 128):
            ds.append(by - 128)
            if i >= MAXN:
                return None
        else:
            ds.append(by)
            break
    if i == MAXN:
        if sign:
            if not (x.decide_eq(ds[0]) or x.decide_eq(ds[0] - 127)):
                return None
        elif x.decide_ge(ds[0] - 2):
            return None
    v = ZERO
    for d in ds:
        v = v * 128 + d
    if sign and x.decide_ge(ds[0] - 64):
        v = v - (1 << (7 * i))
    return i, x.c(v)


def mkrange(x, name='range'):
    n = L(sym('ghost', 'n', (), 0, 1 << 62))
    b = buffer(x, 'bytes', n, readonly=True)
    o = obj(x, name, 'gutil_range')
    o.set('ptr', b.ptr())
    o.set('end', b.ptr(n))
    return o, b, n


def mk_decode(sign):
    D = fn(sign, 'decode')

    @contract(['C09', 'C10', 'C02'], D, MODS, unroll=16)
    def c_decode(x):
        o, b, n = mkrange(x)
        out = buffer(x, 'out', K(8)) if x.choose(2) else None
        s_out = snapshot(out) if out else None
        s_rng, s_b = snapshot(o.r), snapshot(b)
        r = is_true(x, x.call(D, o.ptr, out.ptr() if out else ZERO))
        want = parse(x, b, s_b, ZERO, n, sign)
        if r:
            if want is None:
                fail(x, 'decoding', '%s accepts a malformed or unrepresentable sequence' % D)
                return
            x.prove_eq(o.get('ptr'), b.ptr(K(want[0])), '%s consumes exactly the encoded bytes' % D, 'decoding')
            x.prove_eq(o.get('end'), b.ptr(n), '%s leaves the end of the range alone' % D, 'decoding')
            if out:
                got = x.rload(out, ZERO, 8)
                got = x.sview(got, 64) if sign else x.uview(got, 64)
                x.prove_eq(got, want[1], '%s: the decoded value' % D, 'decoding')
        else:
            if want is not None:
                fail(x, 'decoding', '%s rejects a well formed sequence of %d bytes' % (D, want[0]))
                return
            untouched(x, o.r, s_rng, '%s failed' % D)
            if out:
                untouched(x, out, s_out, '%s failed' % D)

    @contract(['C09', 'C10', 'C02', 'C03'], D + '2', MODS, unroll=16)
    def c_decode2(x):
        out = buffer(x, 'out', K(8)) if x.choose(2) else None
        s_out = snapshot(out) if out else None
        po = out.ptr() if out else ZERO
        if x.choose(2):
            r = is_true(x, x.call(D + '2', ZERO, po))
            check(x, not r, D + '2(NULL) fails')
            if out:
                untouched(x, out, s_out, D + '2 failed')
            return
        n = L(sym('ghost', 'n', (), 0, 1 << 62))
        d = obj(x, 'data', 'gutil_data')
        b = buffer(x, 'bytes', n, readonly=True)
        d.set('bytes', b.ptr())
        d.set('size', n)
        s_d, s_b = snapshot(d.r), snapshot(b)
        r = is_true(x, x.call(D + '2', d.ptr, po))
        want = parse(x, b, s_b, ZERO, n, sign)
        whole = want is not None and x.decide_eq(n - want[0])
        untouched(x, d.r, s_d, D + '2')
        if r:
            if not whole:
                fail(x, 'decoding', D + '2 accepts data which is not exactly one encoded number')
                return
            if out:
                got = x.rload(out, ZERO, 8)
                got = x.sview(got, 64) if sign else x.uview(got, 64)
                x.prove_eq(got, want[1], D + '2: the decoded value', 'decoding')
        else:
            if whole:
                fail(x, 'decoding', D + '2 rejects a well formed number')
                return
            if out:
                untouched(x, out, s_out, D + '2 failed')


mk_decode(True)
mk_decode(False)


# ------------------------------------------------------------------ TLV entries
MAXENTRY = (1 << 32) - 32


def data(x, name, n):
    d = obj(x, name, 'gutil_data')
    b = buffer(x, name + '.bytes', n, readonly=True)
    d.set('bytes', b.ptr())
    d.set('size', L(n))
    return d, b


@contract('C11', 'tlv_size', MODS)
def c_tlv_size(x):
    tag = pint(x, 'tag', 4, False, 1, INT_MAX)
    n = pint(x, 'len', 8, False, 0, MAXENTRY)
    t = u32(x, x.call(fn(False, 'size'), tag))
    l = u32(x, x.call(fn(False, 'size'), n))
    minimal(x, tag, t, False, 'tag')
    r = u32(x, x.call('gutil_tlv_size', tag, n))
    x.prove_eq(r, t + l + n, 'size of the entry', 'size')


@contract(['C11', 'C02', 'C03'], 'tlv_encode', MODS)
def c_tlv_encode(x):
    tag = pint(x, 'tag', 4, False, 1, INT_MAX)
    n = pint(x, 'len', 8, False, 0, MAXENTRY)
    has = x.choose(2)
    if has:
        d, src = data(x, 'val', n)
        s_src = snapshot(src)
    else:
        n = ZERO
    r = u32(x, x.call('gutil_tlv_size', tag, n))
    b = buffer(x, 'buf', r)
    w = x.uview(x.call('gutil_tlv_encode', b.ptr(), tag, d.ptr if has else ZERO), 64)
    x.prove_eq(w, r, 'gutil_tlv_encode writes what gutil_tlv_size predicts', 'size')
    t = None
    for i in range(1, 6):
        if i == 5 or x.decide_ge(K((1 << (7 * i)) - 1) - tag):
            t = i
            break
    l = None
    for i in range(1, 6):
        if i == 5 or x.decide_ge(K((1 << (7 * i)) - 1) - n):
            l = i
            break
    dt, dl = digits(x, tag, t), digits(x, n, l)
    for i in range(t):
        x.prove_eq(x.uview(x.rload(b, K(i), 1), 8), dt[t - 1 - i] + (128 if i < t - 1 else 0), 'byte %d of the tag' % i, 'encoding')
    for i in range(l):
        x.prove_eq(x.uview(x.rload(b, K(t + i), 1), 8), dl[l - 1 - i] + (128 if i < l - 1 else 0), 'byte %d of the length' % i, 'encoding')
    j = L(sym('ghost', 'j', (), 0, MAXENTRY))
    if x.decide_ge(n - j - 1):
        x.prove_eq(x.uview(x.rload(b, x.c(j + t + l), 1), 8), x.uview(x.rload(s_src, j, 1), 8), 'data byte %s' % j, 'encoding')


def parse_entry(x, b, snap, off, n):
    """(tag, value offset, length, next offset) of the entry at off or None"""
    t = parse(x, b, snap, off, x.c(n - off), False)
    if t is None or x.decide_eq(t[1]) or x.decide_ge(t[1] - INT_MAX - 1):
        return None
    o = x.c(off + t[0])
    l = parse(x, b, snap, o, x.c(n - o), False)
    if l is None:
        return None
    o = x.c(o + l[0])
    if not x.decide_ge(x.c(n - o - l[1])):
        return None
    return t[1], o, l[1], x.c(o + l[1])


@contract(['C09', 'C11', 'C02'], 'tlv_decode', MODS, unroll=16, maxpaths=20000)
def c_tlv_decode(x):
    o, b, n = mkrange(x)
    out = obj(x, 'val', 'gutil_data') if x.choose(2) else None
    s_out = snapshot(out.r) if out else None
    s_rng, s_b = snapshot(o.r), snapshot(b)
    r = u32(x, x.call('gutil_tlv_decode', o.ptr, out.ptr if out else ZERO))
    want = parse_entry(x, b, s_b, ZERO, n)
    if x.decide_eq(r):
        if want is not None:
            fail(x, 'decoding', 'gutil_tlv_decode rejects a well formed entry')
            return
        untouched(x, o.r, s_rng, 'gutil_tlv_decode failed')
        if out:
            untouched(x, out.r, s_out, 'gutil_tlv_decode failed')
        return
    if want is None:
        fail(x, 'decoding', 'gutil_tlv_decode accepts a malformed entry')
        return
    x.prove_eq(r, want[0], 'the tag is returned', 'decoding')
    x.prove_eq(o.get('ptr'), b.ptr(want[3]), 'the range moves to the end of the entry', 'decoding')
    x.prove_eq(o.get('end'), b.ptr(n), 'the end of the range stays', 'decoding')
    if out:
        x.prove_eq(out.get('bytes'), b.ptr(want[1]), 'the value points to the data of the entry', 'decoding')
        x.prove_eq(out.get('size'), want[2], 'the value has the length of the entry', 'decoding')


CODES = {'error': -1, 'duplicate': -2, 'unknown': -3}


def tlvs_check(x, d, b, n, ntags):
    tb = buffer(x, 'tags', K(4 * (ntags + 1)))
    tags = []
    for i in range(ntags):
        t = x.uview(x.rload(tb, K(4 * i), 4), 32)
        x.assume_ne(t)
        tags.append(x.c(t))
    x.rstore(tb, K(4 * ntags), ZERO, 4)
    tb.readonly = True
    skip = x.choose(2)
    vals = buffer(x, 'vals', K(16 * ntags)) if x.choose(2) else None
    s_b = snapshot(b)
    # without repeated tags in the list of the expected ones
    for i in range(ntags):
        for j in range(i):
            x.assume_ne(tags[i] - tags[j])
    flags = pint(x, 'flags', 4, False)
    q, low = x.divmod_const(flags, 2)
    x.assume_eq(low - (1 if skip else 0))
    r = i32(x, x.call('gutil_tlvs_decode', d.ptr, tb.ptr(), vals.ptr() if vals else ZERO, flags))
    off = ZERO
    found = {}
    code = None
    while True:
        off = x.c(off)
        if x.decide_eq(off - n):
            break
        e = parse_entry(x, b, s_b, off, K(n))
        if e is None:
            code = 'error'
            break
        idx = None
        for i in range(ntags):
            if x.decide_eq(e[0] - tags[i]):
                idx = i
                break
        if idx is None or idx >= 31:
            if not skip:
                code = 'unknown'
                break
        elif idx in found:
            code = 'duplicate'
            break
        else:
            found[idx] = e
        off = e[3]
    if code:
        x.prove_eq(r, CODES[code], 'the result is the code for %s' % code, 'decoding')
        return
    x.prove_eq(r, sum(1 << i for i in found), 'a bit for each tag found', 'decoding')
    if vals:
        for i in range(ntags):
            p, s = x.rload(vals, K(16 * i), 8, True), x.uview(x.rload(vals, K(16 * i + 8), 8), 64)
            if i in found:
                x.prove_eq(p, b.ptr(found[i][1]), 'value %d' % i, 'decoding')
                x.prove_eq(s, found[i][2], 'size of value %d' % i, 'decoding')
            else:
                x.prove_eq(p, 0, 'value %d is empty' % i, 'decoding')
                x.prove_eq(s, 0, 'size of value %d is zero' % i, 'decoding')


def tlvs_bytes(n, tags, th=False):
    @contract(['C11', 'C09', 'C02'], 'tlvs_decode %d bytes %d tags' % (n, tags), MODS, thorough=th, trial=3000)
    def f(x):
        d, b = data(x, 'in', K(n))
        tlvs_check(x, d, b, n, tags)


def tlvs_entries(m, tags, th=False):
    @contract(['C11', 'C09', 'C02'], 'tlvs_decode %d entries %d tags' % (m, tags), MODS, thorough=th, trial=5000, maxpaths=40000)
    def f(x):
        lens = [x.choose(2) for _ in range(m)]
        tail = x.choose(4)
        n = sum(2 + l for l in lens) + (0, 1, 1, 2)[tail]
        d, b = data(x, 'in', K(n))
        b.readonly = False
        o = 0
        for i, l in enumerate(lens):
            x.rstore(b, K(o), pint(x, 'tag%d' % i, 4, False, 1, 127), 1)
            x.rstore(b, K(o + 1), K(l), 1)
            o += 2 + l
        if tail == 1:
            x.rstore(b, K(o), ZERO, 1)
        elif tail == 2:
            x.rstore(b, K(o), pint(x, 'last', 4, False, 0, 255), 1)
        elif tail == 3:
            x.rstore(b, K(o), ONE, 1)
            x.rstore(b, K(o + 1), pint(x, 'last', 4, False, 1, 255), 1)
        b.readonly = True
        tlvs_check(x, d, b, n, tags)


for n in range(4):
    for t in range(3):
        tlvs_bytes(n, t)
tlvs_bytes(4, 1, True)
tlvs_bytes(5, 1, True)
for t in range(1, 3):
    tlvs_entries(2, t)
tlvs_entries(2, 3, True)
tlvs_entries(3, 2, True)
tlvs_entries(3, 3, True)


@contract(['C11', 'C02'], 'tlvs_decode 33 tags', MODS, unroll=36)
def c_tlvs_many(x):
    d, b = data(x, 'in', K(2))
    k = 30 + x.choose(4)
    x.rstore(b, K(0), K(k), 1)
    x.rstore(b, K(1), K(0), 1)
    tb = buffer(x, 'tags', K(4 * 34))
    for i in range(34):
        x.rstore(tb, K(4 * i), K(i + 1 if i < 33 else 0), 4)
    skip = x.choose(2)
    vals = buffer(x, 'vals', K(16 * 33))
    r = i32(x, x.call('gutil_tlvs_decode', d.ptr, tb.ptr(), vals.ptr(), K(skip)))
    if k <= 31:
        x.prove_eq(r, 1 << (k - 1), 'the bit of tag %d' % k, 'decoding')
        x.prove_eq(x.rload(vals, K(16 * (k - 1)), 8, True), b.ptr(K(2)), 'value %d' % k, 'decoding')
    else:
        x.prove_eq(r, 0 if skip else -3, 'only the first 31 tags are considered', 'decoding')
    if k <= 31 or skip:
        for i in range(33):
            if i != k - 1 or k > 31:
                x.prove_eq(x.rload(vals, K(16 * i), 8, True), 0, 'value %d of 33 is empty' % i, 'decoding')
                x.prove_eq(x.uview(x.rload(vals, K(16 * i + 8), 8), 64), 0, 'size of value %d of 33 is zero' % i, 'decoding')


@contract(['C09', 'C02', 'C11'], 'tlvs_decode any length', MODS, unroll=16, maxpaths=20000)
def c_tlvs_any(x):
    def tlv(x, args, ins):
        """what the contract of gutil_tlv_decode establishes"""
        o = obj_at(x, args[0], 'gutil_range')
        p, e = o.get('ptr'), o.get('end')
        if not x.choose(2):
            return ZERO
        head, n = x.fresh('head', 2, 2 * MAXN), x.fresh('len', 0, 1 << 62)
        x.assume_ge(e - p - head - n)
        o.set('ptr', x.c(p + head + n))
        if not x.decide_eq(args[1]):
            x.store(args[1], x.c(p + head), 8, True)
            x.store(args[1] + 8, n, 8)
        return x.fresh('tag', 1, INT_MAX)
    x.stub['gutil_tlv_decode'] = tlv
    n = L(sym('ghost', 'n', (), 0, 1 << 62))
    d, b = data(x, 'in', n)
    m = L(sym('ghost', 'count(tags)', (), 0, 1 << 20))
    tb = x.region('tags', 'ext', (m + 1) * 4, 'sym', {'k': 'int', 'size': 4, 'signed': False})
    tb.nulterm = (4, m, {'k': 'int', 'size': 4, 'signed': False})
    tb.info = {'sep': 1}
    tb.readonly = True
    vals = buffer(x, 'vals', m * 16) if x.choose(2) else None
    r = i32(x, x.call('gutil_tlvs_decode', d.ptr, tb.ptr(), vals.ptr() if vals else ZERO, pint(x, 'flags', 4, False)))
    x.prove_ge(r + 3, 'the result is a mask or one of the error codes', 'decoding')
