"""Hex (C12), numbers (C13), data comparison (C21), ids (C27), byte arrays (C28)."""
from spec import *
import models

MODS = ['gutil_misc']
CH_T = CHAR_T
BIG = 1 << 60
HEX = ((48, 57, 0), (65, 70, 10), (97, 102, 10))


def ghost(name, hi=BIG):
    return L(sym('ghost', name, (), 0, hi))


def block(x, name, n, **kw):
    """n readable bytes; no memory at all (any pointer, even NULL) if n is zero"""
    if x.decide_eq(n):
        return pptr(x, name, VOIDP), None
    r = buffer(x, name, n, **kw)
    return r.ptr(), r


def byte(x, r, off):
    return x.uview(x.rload(r, x.c(off), 1), 8)


def digit(x, c):
    """value of a hex digit or None"""
    c = x.uview(c, 8)
    for lo, hi, b in HEX:
        if not x.decide_ge(c - lo):
            return None
        if x.decide_ge(K(hi) - c):
            return x.c(c - lo + b)
    return None


def alldigits(x, r, off, size, isptr=False):
    """initial contents: hex digits only"""
    if size != 1:
        return None
    c = L(sym('init', r.uid + ':d', (off,), 0, 127))
    i = x.choose(3)
    x.assume_ge(c - HEX[i][0])
    x.assume_ge(K(HEX[i][1]) - c)
    return x.c(c)


def hexchar(x, v, upper):
    if x.decide_ge(K(9) - v):
        return v + 48
    return v - 10 + (65 if upper else 97)


# --------------------------------------------------------------------- C12
@contract(['C12', 'C02'], 'hex2bin', MODS)
def c_hex2bin(x):
    n = pint(x, 'len', 8)
    good = x.choose(2)
    if x.decide_ge(n - 1):
        s = buffer(x, 'str', n, CH_T)
        if good:
            s.init = alldigits
        out = buffer(x, 'data', x.divmod_const(n, 2)[0] + 8)
        r = x.call('gutil_hex2bin', s.ptr(), n, out.ptr())
    else:
        s = buffer(x, 'str', K(16), CH_T)
        out = buffer(x, 'data', K(16))
        x.prove_eq(x.call('gutil_hex2bin', s.ptr(), n, out.ptr()), 0, 'hex2bin: nothing to convert')
        check(x, out.head is None, 'hex2bin: nothing is written if there is nothing to convert')
        return
    if not x.decide_eq(r):
        x.prove_eq(r, out.ptr(), 'hex2bin returns the buffer')
        half, odd = x.divmod_const(n, 2)
        x.prove_eq(odd, 0, 'hex2bin: odd length is refused')
        j = ghost('j')
        if x.decide_ge(half - j - 1):
            every(x, j)
            a, b = digit(x, byte(x, s, j * 2)), digit(x, byte(x, s, j * 2 + 1))
            if check(x, a is not None and b is not None, 'hex2bin: only hex digits are accepted'):
                x.prove_eq(byte(x, out, j), a * 16 + b, 'hex2bin: value of a byte')
        # and nothing behind the output
        k = ghost('k', 8)
        check(x, all(w_inside(x, w, half) for w in writes(out)), 'hex2bin: only len/2 bytes are written')
    elif good:
        half, odd = x.divmod_const(n, 2)
        x.prove_eq(odd, 1, 'hex2bin: an even number of hex digits is accepted')


def writes(r):
    w = r.head
    while w is not None:
        yield w
        w = w.prev


def w_inside(x, w, n):
    if w.k == 'cell':
        return x.entails_ge(w.off) and x.entails_ge(n - w.off - w.size)
    return True


@contract(['C12', 'C03', 'C02'], 'hex2bin NULL', MODS)
def c_hex2bin_null(x):
    n = pint(x, 'len', 8)
    if x.choose(2):
        b = buffer(x, 'data', x.fresh('size', 0, BIG))
        x.prove_eq(x.call('gutil_hex2bin', ZERO, n, b.ptr()), 0, 'hex2bin(NULL)')
        check(x, b.head is None, 'hex2bin(NULL) writes nothing')
    else:
        b = buffer(x, 'str', x.fresh('size', 0, BIG))
        x.prove_eq(x.call('gutil_hex2bin', b.ptr(), n, ZERO), 0, 'hex2bin without a buffer')


def hexout(x, q, d, n, upper, what):
    r, off = x.lookup(q)
    if r is None:
        return fail(x, 'post', what + ': result is unknown', undecided=x.c(L(q)).imprecise())
    check(x, r.kind == 'alloc' and r.alloc == 'g_malloc' and not r.freed, what + ': a new string')
    x.prove_ge(r.size - n * 2 - 1, what + ': room for the string', 'bounds')
    x.prove_eq(byte(x, r, n * 2), 0, what + ': terminated')
    j = ghost('j')
    if d is not None and x.decide_ge(n - j - 1):
        every(x, j)
        hi, lo = x.divmod_const(byte(x, d, j), 16)
        x.prove_eq(byte(x, r, j * 2), hexchar(x, hi, upper), what + ': high digit')
        x.prove_eq(byte(x, r, j * 2 + 1), hexchar(x, lo, upper), what + ': low digit')
    no_leaks(x, q)


@contract(['C12', 'C02'], 'bin2hex', MODS)
def c_bin2hex(x):
    n = pint(x, 'len', 8, False, hi=BIG)
    p, d = block(x, 'bin', n)
    up = x.choose(2)
    q = x.call('gutil_bin2hex', p, n, K(up))
    hexout(x, q, d, n, up, 'bin2hex')


def data(x, name, null=False, sep=True):
    """(GUtilData pointer, bytes region or None, size)"""
    if null and x.choose(2):
        return ZERO, None, None, None
    o = obj(x, name, 'gutil_data', sep)
    n = x.uview(o.get('size'), 64)
    x.assume_ge(K(BIG) - n)
    if x.decide_eq(n):
        b = None
    else:
        b = buffer(x, name + '.bytes', n, readonly=True)
        o.set('bytes', b.ptr())
    return o.ptr, b, n, o


@contract(['C12', 'C03', 'C02'], 'data2hex', MODS)
def c_data2hex(x):
    p, d, n, o = data(x, 'data', True)
    up = x.choose(2)
    q = x.call('gutil_data2hex', p, K(up))
    if o is None:
        return x.prove_eq(q, 0, 'data2hex(NULL)')
    hexout(x, q, d, n, up, 'data2hex')


@contract(['C12', 'C03', 'C02'], 'hex2bytes', MODS)
def c_hex2bytes(x):
    n = pint(x, 'len', 8)
    good = x.choose(3)
    if good == 2:
        return x.prove_eq(x.call('gutil_hex2bytes', ZERO, n), 0, 'hex2bytes(NULL)')
    if x.decide_ge(n):
        if x.decide_eq(n):
            s = buffer(x, 'str', K(8), CH_T)
        else:
            s = buffer(x, 'str', n, CH_T)
        m = n
    else:
        s, m = cstring(x, 'str')
        x.assume_ge(K(BIG) - m)
        s.nulterm = (1, m, CH_T)
    if good:
        if s.nulterm:
            def ini(x, r, off, size, isptr=False):
                if size == 1 and x.decide_ge(m - off - 1):
                    return alldigits(x, r, off, size)
                return None
            s.init = ini
        else:
            s.init = alldigits
    q = x.call('gutil_hex2bytes', s.ptr(), n)
    half, odd = x.divmod_const(m, 2)
    if x.decide_eq(q):
        if good:
            if not x.decide_eq(m):
                x.prove_eq(odd, 1, 'hex2bytes: an even number of hex digits is accepted')
    else:
        x.prove_ge(m - 1, 'hex2bytes: empty string is refused')
        x.prove_eq(odd, 0, 'hex2bytes: odd length is refused')
        e = [e for e in evs(x, 'bytes_take', 'bytes_new') if x.entails_eq(e.a[0] - q)]
        if check(x, len(e) == 1, 'hex2bytes: a new byte array'):
            x.prove_eq(e[0].a[2], half, 'hex2bytes: half as many bytes')
            r, off = x.lookup(e[0].a[1])
            j = ghost('j')
            if r is not None and x.decide_ge(half - j - 1):
                every(x, j)
                a, b = digit(x, byte(x, s, j * 2)), digit(x, byte(x, s, j * 2 + 1))
                if check(x, a is not None and b is not None, 'hex2bytes: only hex digits are accepted'):
                    x.prove_eq(byte(x, r, off + j), a * 16 + b, 'hex2bytes: value of a byte')
    no_leaks(x, q)


def layout(k):
    """what stands at each position of a line of k bytes"""
    txt = []
    for i in range(16):
        if i:
            txt.append(' ')
        if i == 8:
            txt.append(' ')
        txt += [('h', i), ('l', i)] if i < k else [' ', ' ']
    txt += [' '] * 4
    for i in range(k):
        if i == 8:
            txt.append(' ')
        txt.append(('c', i))
    return txt + ['\0']


def hexdump(ks):
    @contract(['C12', 'C02'], 'hexdump %s' % '-'.join(map(str, ks)), MODS, unroll=40, trial=3000)
    def f(x):
        """a line of any length in which one byte has any value"""
        buf = buffer(x, 'buf', K(70), CH_T)
        n = pint(x, 'len', 4, False)
        k = ks[x.choose(len(ks))]
        if k == 17:
            x.assume_ge(n - 17)
        else:
            x.assume_eq(n - k)
        p, d = block(x, 'bytes', n)
        k = min(k, 16)
        i = x.choose(k) if k else 0
        if d is not None:
            others(x, d, i)
        r = x.uview(x.call('gutil_hexdump', buf.ptr(), p, n), 32)
        x.prove_eq(r, k, 'hexdump: number of bytes in the line')
        for q, t in enumerate(layout(k)):
            g = byte(x, buf, K(q))
            if isinstance(t, str):
                x.prove_eq(g, ord(t), 'hexdump: character %d of a line of %d' % (q, k))
                continue
            b = byte(x, d, K(t[1]))
            hi, lo = x.divmod_const(b, 16)
            if t[0] == 'h':
                x.prove_eq(g, hexchar(x, hi, False), 'hexdump: high digit')
            elif t[0] == 'l':
                x.prove_eq(g, hexchar(x, lo, False), 'hexdump: low digit')
            elif x.decide_ge(b - 32) and x.decide_ge(K(126) - b):
                x.prove_eq(g, b, 'hexdump: printable characters are shown')
            else:
                x.prove_eq(g, 46, 'hexdump: dots stand for all other characters')
    return f


for _k in ([0, 1, 2, 3, 4], [5, 6, 7], [8, 9], [10, 11], [12, 13], [14, 15], [16], [17]):
    hexdump(_k)


def others(x, d, i):
    def ini(x, r, off, size, isptr=False):
        if size == 1 and off.isconst() and off.c != i:
            return K(65)
        return None
    d.init = ini


# --------------------------------------------------------------------- C13
PARSE = {'gutil_parse_int': (4, True), 'gutil_parse_uint': (4, False), 'gutil_parse_int64': (8, True), 'gutil_parse_uint64': (8, False)}


def parse(fn, size, signed):
    @contract(['C13', 'C03', 'C02'], fn, MODS)
    def f(x):
        s, n = cstring(x, 'str', readonly=True)
        null = x.choose(2) == 1
        base = pint(x, 'base')
        vn = x.choose(2)
        v = None if vn else buffer(x, 'value', K(size), {'k': 'int', 'size': size, 'signed': signed})
        r = is_true(x, x.call(fn, ZERO if null else s.ptr(), base, v.ptr() if v is not None else ZERO))
        e = evs(x, 'strtoll', 'strtoull')
        if v is not None and not r:
            check(x, v.head is None, fn + ': the result is untouched on failure')
        if null or x.decide_eq(n):
            check(x, not r, fn + ': NULL and the empty string are not numbers')
            return
        x.st.notes['parse'] = 1
        if r:
            if not check(x, len(e) == 1, fn + ': the string is parsed once', undecided=True):
                return
            p, _, b, res, j, which, ln = e[0].a[:7]
            check(x, e[0].kind == ('strtoll' if signed else 'strtoull'), fn + ': parser of the right signedness')
            x.prove_eq(which, 0, fn + ': only accepted if the conversion succeeded')
            x.prove_eq(j, ln, fn + ': all of the string is a number')
            x.prove_eq(i32(x, b), base, fn + ': the given base')
            whole(x, p, s, n, fn)
            check(x, not evs(x, 'negative'), fn + ': negative numbers are not accepted as unsigned')
            lo, hi = irange(size, signed)
            x.prove_ge(res - lo, fn + ': the number fits')
            x.prove_ge(K(hi) - res, fn + ': the number fits')
            if v is not None:
                g = x.rload(v, ZERO, size)
                x.prove_eq(x.sview(g, 8 * size) if signed else x.uview(g, 8 * size), res, fn + ': the number is stored')
        else:
            # refused: for one of the good reasons
            check(x, len(e) <= 1, fn + ': the string is parsed once', undecided=True)
            if e:
                p, _, b, res, j, which, ln = e[0].a[:7]
                whole(x, p, s, n, fn)
                lo, hi = irange(size, signed)
                good = not evs(x, 'negative') and x.decide_eq(which) and x.decide_eq(ln - j) and x.decide_ge(res - lo) and x.decide_ge(K(hi) - res)
                check(x, not good, fn + ': a representable number is accepted')
            else:
                # without parsing: only because of a minus
                c = x.sview(x.rload(s, ZERO, 1), 8)
                m = any(q.kind == 'strchr' and x.entails_eq(q.a[1] - 45) and q.a[2] != ZERO for q in x.st.events)
                sg = any(q.kind in ('strchug', 'strchomp') for q in x.st.events)
                if not m and not x.entails_eq(c - 45):
                    rr = [q for q in evs(x, 'strchug')]
                    ok_ = False
                    for q in rr:
                        rg, of = x.lookup(q.a[0])
                        if rg is not None and x.entails_eq(x.sview(x.rload(rg, of, 1), 8) - 45):
                            ok_ = True
                    check(x, ok_ and not signed, fn + ': a representable number is accepted')
                else:
                    check(x, not signed, fn + ': a minus is allowed in signed numbers')
        no_leaks(x)
    return f


def whole(x, p, s, n, fn):
    """what is parsed is the string without white space around it"""
    r, off = x.lookup(p)
    if r is s:
        return x.prove_eq(off, 0, fn + ': the string is parsed from the beginning')
    chain = [e.kind for e in x.st.events if e.kind in ('strchug', 'strchomp') and x.lookup(e.a[0])[0] is r]
    if r is None or not check(x, 'strchug' in chain and 'strchomp' in chain, fn + ': white space on both sides is ignored', undecided=r is None):
        return
    x.prove_eq(off, 0, fn + ': the stripped string is parsed from the beginning')
    # it was a copy of all of the string
    w = r.head
    while w is not None and w.k != 'copy':
        w = w.prev
    ok_ = w is not None and w.x[0].uid == s.uid and x.entails_eq(w.x[1]) and x.entails_eq(w.off) and x.entails_eq(w.size - n - 1)
    check(x, ok_, fn + ': all of the string is parsed', undecided=w is None)


for _f, (_s, _g) in PARSE.items():
    parse(_f, _s, _g)


# --------------------------------------------------------------------- C21
def same_bytes(x, a, ao, b, bo, n):
    """comparison result of two blocks of n bytes as a branch"""
    if a is None or b is None or x.decide_eq(n):
        return True
    return x.decide_eq(models._cmp(x, 'memcmp', x.c(L(a.base) + ao), x.c(L(b.base) + bo), (x.c(n),)))


@contract(['C21', 'C03', 'C02'], 'data_equal', MODS)
def c_data_equal(x):
    p, a, n, o = data(x, 'd1', True)
    if x.choose(2):
        q, b, m = p, a, n
    else:
        q, b, m, _ = data(x, 'd2', True)
    v = is_true(x, x.call('gutil_data_equal', p, q))
    if n is None or m is None:
        return check(x, v == (n is None and m is None), 'data_equal: NULL equals NULL only')
    if p == q:
        return check(x, v, 'data_equal: equal to itself')
    want = bool(x.decide_eq(n - m)) and same_bytes(x, a, 0, b, 0, n)
    check(x, v == want, 'data_equal: exactly if the bytes are the same')


def fixes(fn, suffix):
    @contract(['C21', 'C03', 'C02'], fn, MODS)
    def f(x):
        p, a, n, _ = data(x, 'd1', True)
        q, b, m, _ = data(x, 'd2', True)
        v = is_true(x, x.call(fn, p, q))
        if n is None or m is None:
            return check(x, v == (n is None and m is None), fn + ': NULL')
        want = bool(x.decide_ge(n - m)) and (bool(x.decide_eq(m)) or same_bytes(x, a, x.c(n - m) if suffix else ZERO, b, ZERO, m))
        check(x, v == want, fn + ': exactly if the bytes are there')


fixes('gutil_data_has_prefix', False)
fixes('gutil_data_has_suffix', True)


def gbytes(x, name, null=True):
    """(GBytes*, size)"""
    if null and x.choose(2):
        return ZERO, None, None
    b = L(sym('param', name, (), 4096, PMAX, True, VOIDP))
    n = models.bytes_size(x, b)
    x.assume_ge(K(BIG) - n)
    d = models.bytes_data(x, b)
    r = x.lookup(d)[0] if x.entails_ge(x.c(n) - 1) else None
    return b, x.c(n), r


def bcmp(x, r, ro, d, do, n):
    return x.decide_eq(models._cmp(x, 'memcmp', x.c(L(r.base) + ro), x.c(L(d.base) + do), (x.c(n),)))


@contract(['C21', 'C03', 'C02'], 'bytes_equal', MODS)
def c_bytes_equal(x):
    b, n, r = gbytes(x, 'bytes')
    if x.choose(2):
        q, d, m, _ = data(x, 'data', True)
        v = is_true(x, x.call('gutil_bytes_equal_data', b, q))
        fn = 'bytes_equal_data'
        isnull = m is None
    else:
        m = pint(x, 'size', 8, False, hi=BIG)
        fn = 'bytes_equal'
        if x.choose(2):
            q, d, isnull = ZERO, None, True
        else:
            d = buffer(x, 'data', x.c(m) if not x.decide_eq(m) else K(8), readonly=True)
            q, isnull = d.ptr(), False
        v = is_true(x, x.call('gutil_bytes_equal', b, q, m))
    if n is None or isnull:
        return check(x, v == (n is None and isnull), fn + ': NULL equals NULL only')
    want = bool(x.decide_eq(n - m)) and (bool(x.decide_eq(n)) or bcmp(x, r, 0, d, 0, n))
    check(x, v == want, fn + ': exactly if the bytes are the same')


def bfixes(fn, suffix):
    @contract(['C21', 'C03', 'C02'], fn, MODS)
    def f(x):
        b, n, r = gbytes(x, 'bytes')
        m = pint(x, 'size', 8, False, hi=BIG)
        p, d = block(x, 'data', m, readonly=True)
        v = is_true(x, x.call(fn, b, p, m))
        if n is None:
            return check(x, not v, fn + ': NULL has none')
        if x.decide_eq(m):
            return check(x, v, fn + ': everything has an empty one')
        want = bool(x.decide_ge(n - m)) and (r is not None) and bcmp(x, r, x.c(n - m) if suffix else ZERO, d, 0, m)
        check(x, v == want, fn + ': exactly if the bytes are there')


bfixes('gutil_bytes_has_prefix', False)
bfixes('gutil_bytes_has_suffix', True)


@contract(['C21', 'C03', 'C02'], 'range prefix', MODS)
def c_range_prefix(x):
    q, d, m, _ = data(x, 'prefix', True)
    skip = x.choose(2)
    fn = 'gutil_range_skip_prefix' if skip else 'gutil_range_has_prefix'
    k = x.choose(3)
    if k == 0:
        v = is_true(x, x.call(fn, ZERO, q))
        return check(x, not v, fn + '(NULL)')
    o = obj(x, 'range', 'gutil_range')
    if k == 1:
        o.set('ptr', ZERO)
        o.set('end', ZERO)
        snap = snapshot(o.r)
        v = is_true(x, x.call(fn, o.ptr, q))
        check(x, not v, fn + ' of a NULL range')
        return untouched(x, o.r, snap, fn)
    size = L(sym('ghost', 'size', (), 1, BIG))
    b = buffer(x, 'buf', size, readonly=True)
    s = L(sym('ghost', 'start', (), 0, BIG))
    e = L(sym('ghost', 'end', (), 0, BIG))
    x.assume_ge(size - s)
    x.assume_ge(size - e)
    # the end before the start is an empty range as well
    o.set('ptr', x.c(L(b.base) + s))
    o.set('end', x.c(L(b.base) + e))
    snap = snapshot(o.r)
    v = is_true(x, x.call(fn, o.ptr, q))
    if m is None:
        want = False
    elif x.decide_ge(e - s - 1):
        want = bool(x.decide_ge(e - s - m)) and (bool(x.decide_eq(m)) or bcmp(x, b, s, d, 0, m))
    else:
        want = bool(x.decide_eq(m))
    check(x, v == want, fn + ': exactly if the bytes are there')
    x.prove_eq(o.get('end'), L(b.base) + e, fn + ': the end stays')
    x.prove_eq(o.get('ptr'), L(b.base) + s + (m if skip and v else 0), fn + ': moved by the length of the prefix or not at all')


@contract(['C21', 'C03', 'C02'], 'views', MODS)
def c_views(x):
    o = obj(x, 'data', 'gutil_data') if x.choose(2) else None
    p = o.ptr if o is not None else ZERO
    k = x.choose(3)
    if k == 0:
        r, n = cstring(x, 's')
        null = x.choose(2)
        q = x.call('gutil_data_from_string', p, ZERO if null else r.ptr())
        want = (ZERO, ZERO) if null else (r.ptr(), n)
    elif k == 1:
        b, n, r = gbytes(x, 'bytes')
        q = x.call('gutil_data_from_bytes', p, b)
        want = (ZERO, ZERO) if n is None else (models.bytes_data(x, b), n)
    else:
        b, n, r = gbytes(x, 'bytes')
        g = obj(x, 'range', 'gutil_range') if x.choose(2) else None
        v = x.uview(x.call('gutil_range_init_with_bytes', g.ptr if g is not None else ZERO, b), 64)
        if g is None or n is None:
            x.prove_eq(v, 0, 'range_init_with_bytes: NULL')
            if g is not None:
                x.prove_eq(g.get('ptr'), 0, 'range_init_with_bytes(NULL): empty range')
                x.prove_eq(g.get('end'), 0, 'range_init_with_bytes(NULL): empty range')
            return
        x.prove_eq(v, n, 'range_init_with_bytes: the number of bytes')
        x.prove_eq(g.get('ptr'), models.bytes_data(x, b), 'range_init_with_bytes: the start of the bytes')
        x.prove_eq(g.get('end') - g.get('ptr'), n, 'range_init_with_bytes: the end of the bytes')
        return
    x.prove_eq(q, p, 'view: returns its argument')
    if o is not None:
        x.prove_eq(o.get('bytes'), want[0], 'view: start of the bytes')
        x.prove_eq(x.uview(o.get('size'), 64), want[1], 'view: number of bytes')
    check(x, not evs(x, 'ref', 'alloc', 'free'), 'view: nothing is copied or referenced')


@contract(['C21', 'C03', 'C02'], 'copies', MODS)
def c_copies(x):
    k = x.choose(2)
    if k:
        p, d, n, o = data(x, 'data', True)
        if o is not None and d is None:
            if x.choose(2):
                o.set('bytes', ZERO)
            else:
                o.set('bytes', buffer(x, 'some', K(4)).ptr())
        q = x.call('gutil_data_copy', p)
        if o is None:
            return x.prove_eq(q, 0, 'data_copy(NULL)')
        fn = 'data_copy'
    else:
        fn = 'data_new'
        n = pint(x, 'len', 4, False)
        if x.choose(2):
            d = buffer(x, 'bytes', x.c(n) if not x.decide_eq(n) else K(4), readonly=True)
            q = x.call('gutil_data_new', d.ptr(), n)
        else:
            d = None
            q = x.call('gutil_data_new', ZERO, n)
            n = ZERO
    r, off = x.lookup(q)
    if not check(x, r is not None and r.alloc == 'g_malloc' and not r.freed and r.kind == 'alloc' and x.entails_eq(off), fn + ': a single block for g_free', undecided=r is None):
        return
    g = Obj(x, r, 'gutil_data')
    x.prove_eq(x.uview(g.get('size'), 64), n, fn + ': as many bytes')
    if d is not None and x.decide_ge(n - 1):
        j = ghost('j')
        b, bo = x.lookup(g.get('bytes'))
        if check(x, b is not None and not b.readonly and b is not d, fn + ': bytes of its own', undecided=b is None) and x.decide_ge(n - j - 1):
            x.prove_eq(byte(x, b, bo + j), byte(x, d, j), fn + ': the same bytes')
            x.prove_ge(b.size - bo - n, fn + ': the bytes are in the block', 'bounds')
            check(x, b is r or b.kind == 'alloc', fn + ': independent memory')
    no_leaks(x, q)


@contract(['C21', 'C03', 'C02'], 'copy_as_variant', MODS)
def c_variant(x):
    p, d, n, o = data(x, 'data', True)
    q = x.call('gutil_data_copy_as_variant', p)
    if o is None:
        return x.prove_eq(q, 0, 'copy_as_variant(NULL)')
    x.prove_ne(q, 0, 'copy_as_variant: a variant')
    e = evs(x, 'variant_fixed')
    if x.decide_eq(n):
        e2 = evs(x, 'variant_fixed', 'variant_data')
        check(x, len(e2) == 1 and x.entails_eq(e2[0].a[0] - q), 'copy_as_variant: an empty array')
        if e2 and e2[0].kind == 'variant_data':
            x.prove_eq(e2[0].a[3], 0, 'copy_as_variant: an empty array')
        return
    if check(x, len(e) == 1 and x.entails_eq(e[0].a[0] - q), 'copy_as_variant: a copy of the bytes', undecided=not e):
        x.prove_eq(e[0].a[2], d.ptr(), 'copy_as_variant: of these bytes')
        x.prove_eq(e[0].a[3], n, 'copy_as_variant: of all bytes')
        x.prove_eq(e[0].a[4], 1, 'copy_as_variant: of bytes')


@contract(['C21', 'C03', 'C02'], 'memdup', MODS)
def c_memdup(x):
    n = pint(x, 'size', 8, False, hi=BIG)
    if x.choose(2):
        return x.prove_eq(x.call('gutil_memdup', ZERO, n), 0, 'memdup(NULL)')
    if x.decide_eq(n):
        return x.prove_eq(x.call('gutil_memdup', buffer(x, 'p', K(4)).ptr(), n), 0, 'memdup of nothing')
    b = buffer(x, 'p', n, readonly=True)
    q = x.call('gutil_memdup', b.ptr(), n)
    r, off = x.lookup(q)
    if not check(x, r is not None and r.kind == 'alloc' and r.alloc == 'g_malloc', 'memdup: a new block'):
        return
    x.prove_ge(r.size - n, 'memdup: all bytes', 'bounds')
    j = ghost('j')
    if x.decide_ge(n - j - 1):
        x.prove_eq(byte(x, r, j), byte(x, b, j), 'memdup: the same bytes')
    no_leaks(x, q)


@contract(['C21', 'C03', 'C02'], 'strlen0', MODS)
def c_strlen0(x):
    r, n = cstring(x, 's')
    x.prove_eq(x.uview(x.call('gutil_strlen0', r.ptr()), 64), n, 'strlen0')
    x.prove_eq(x.uview(x.call('gutil_strlen0', ZERO), 64), 0, 'strlen0(NULL)')


# --------------------------------------------------------------------- C27
@contract(['C27', 'C03', 'C02'], 'disconnect', MODS)
def c_disconnect(x):
    inst = pptr(x, 'instance', VOIDP)
    n = pint(x, 'count', lo=NEGMAX)
    if x.choose(2):
        x.call('gutil_disconnect_handlers', inst, ZERO, n)
        return check(x, not evs(x, 'g_signal_handler_disconnect'), 'disconnect without ids')
    if x.decide_ge(n - 1):
        ids = buffer(x, 'ids', n * 8, {'k': 'int', 'size': 8, 'signed': False})
    else:
        ids = buffer(x, 'ids', K(8), {'k': 'int', 'size': 8, 'signed': False})
    reg = snapshot(ids)
    x.call('gutil_disconnect_handlers', inst, ids.ptr(), n)
    if x.decide_eq(inst) or not x.decide_ge(n - 1):
        check(x, not evs(x, 'g_signal_handler_disconnect', 'foreach'), 'disconnect: nothing to do')
        return untouched(x, ids, reg, 'disconnect')
    j = ghost('j', 1 << 31)
    if x.decide_ge(n - j - 1):
        every(x, j)
        x.prove_eq(x.rload(ids, j * 8, 8), 0, 'disconnect: the id is cleared')


def disc(n, th=False):
    @contract(['C27', 'C02'], 'disconnect %d' % n, MODS, unroll=20)
    def f(x):
        inst = pptr(x, 'instance', VOIDP, False)
        ids = buffer(x, 'ids', K(8 * n), {'k': 'int', 'size': 8, 'signed': False})
        old = [x.rload(ids, K(8 * i), 8) for i in range(n)]
        calls = []

        def stub(x, a, i):
            # destroy notifications of the handler run now
            x.event('g_signal_handler_disconnect', a[0], a[1])
            x.count('reentry')
            calls.append(1)
            gone = sum(1 for k in range(n) if not x.decide_eq(old[k]) and x.entails_eq(x.rload(ids, K(8 * k), 8)))
            check(x, gone >= len(calls), 'disconnect: the id is cleared before the handler goes away', 'reentry')
        x.stub['g_signal_handler_disconnect'] = stub
        x.call('gutil_disconnect_handlers', inst, ids.ptr(), K(n))
        want = [o for o in old if not x.decide_eq(o)]
        e = evs(x, 'g_signal_handler_disconnect')
        if check(x, len(e) == len(want), 'disconnect: once for every non-zero id'):
            left = list(want)
            for q in e:
                x.prove_eq(q.a[0], inst, 'disconnect: from the instance')
                m = [w for w in left if x.entails_eq(q.a[1] - w)]
                if check(x, m, 'disconnect: a stored id'):
                    left.remove(m[0])
        for i in range(n):
            x.prove_eq(x.rload(ids, K(8 * i), 8), 0, 'disconnect: the id is cleared')
    return f


for _n in (1, 2, 3):
    disc(_n)


def at_removal(x, r, size, what):
    """the id is cleared by the time the (re-entrant) removal is called"""
    def stub(x, a, i):
        x.event('g_source_remove', a[0])
        x.count('reentry')
        x.prove_eq(x.rload(r, ZERO, size), 0, what, 'reentry')
        return x.fresh('removed', 0, 1)
    x.stub['g_source_remove'] = stub


@contract(['C27', 'C03', 'C02'], 'source', MODS)
def c_source(x):
    if x.choose(2):
        i = pint(x, 'id', 4, False)
        v = is_true(x, x.call('gutil_source_remove', i))
        e = evs(x, 'g_source_remove')
        if x.decide_eq(i):
            check(x, not v and not e, 'source_remove(0)')
        else:
            check(x, v and len(e) == 1 and x.entails_eq(e[0].a[0] - i), 'source_remove: removes the source once')
        return
    if x.choose(2):
        v = is_true(x, x.call('gutil_source_clear', ZERO))
        return check(x, not v and not evs(x, 'g_source_remove'), 'source_clear(NULL)')
    r = buffer(x, 'id', K(4), {'k': 'int', 'size': 4, 'signed': False})
    i = x.uview(x.rload(r, ZERO, 4), 32)
    at_removal(x, r, 4, 'source_clear: the id is zero before the source is removed')
    v = is_true(x, x.call('gutil_source_clear', r.ptr()))
    e = evs(x, 'g_source_remove')
    if x.decide_eq(i):
        check(x, not v and not e, 'source_clear: nothing to remove')
    else:
        check(x, v and len(e) == 1 and x.entails_eq(e[0].a[0] - i), 'source_clear: removes the source once')
    x.prove_eq(x.uview(x.rload(r, ZERO, 4), 32), 0, 'source_clear: the id is zero')


@contract(['C27', 'C03', 'C02'], 'object ref', MODS)
def c_objref(x):
    o = pptr(x, 'object', VOIDP)
    if x.choose(2):
        x.prove_eq(x.call('gutil_object_ref', o), o, 'object_ref returns its argument')
        k = 'ref'
    else:
        x.call('gutil_object_unref', o)
        k = 'unref'
    e = evs(x, 'ref', 'unref')
    if x.decide_eq(o):
        check(x, not e, 'object_%s(NULL)' % k)
    else:
        check(x, len(e) == 1 and e[0].kind == k and x.entails_eq(e[0].a[0] - o), 'object_%s: one reference' % k)


# --------------------------------------------------------------------- C28
def concat(k):
    @contract(['C28', 'C02'], 'concat %d' % k, MODS, unroll=20)
    def f(x):
        bs = [gbytes(x, 'bytes%d' % i, False) for i in range(k)]
        fn = x.mod.fns.get('gutil_bytes_concat')
        if fn is None:
            raise Anchor('gutil_bytes_concat is not defined')
        x.last_call = fn
        q = x.c(x.invoke(fn, [b[0] for b in bs] + [ZERO]))
        tot = x.c(sum((b[1] for b in bs), ZERO))
        full = [b for b in bs if b[2] is not None]
        x.prove_ne(q, 0, 'concat: a result')
        un = evs(x, 'unref')
        check(x, not un, 'concat: arguments are not released')
        nw = [e for e in evs(x, 'bytes_take', 'bytes_new') if x.entails_eq(e.a[0] - q)]
        rf = evs(x, 'ref')
        if nw:
            check(x, not rf, 'concat: no reference is taken to what is copied')
            x.prove_eq(nw[0].a[2], tot, 'concat: the total length')
            r, off = x.lookup(nw[0].a[1])
            if r is None:
                return x.prove_eq(tot, 0, 'concat: contents')
            j = ghost('j')
            start = ZERO
            for b, n, d in full:
                if x.decide_ge(j - start) and x.decide_ge(x.c(start + n) - j - 1):
                    x.prove_eq(byte(x, r, off + j), byte(x, d, j - start), 'concat: bytes in order')
                    break
                start = x.c(start + n)
        else:
            check(x, len(rf) == 1 and x.entails_eq(rf[0].a[0] - q), 'concat: a new reference to the result', undecided=not rf)
            x.prove_eq(models.bytes_size(x, q), tot, 'concat: the total length')
            if full:
                check(x, len(full) == 1 and x.entails_eq(q - full[0][0]), 'concat: the only non-empty one')
            else:
                check(x, any(x.entails_eq(q - b[0]) for b in bs), 'concat: an empty one')
        no_leaks(x, q)


for _k in (1, 2, 3, 4):
    concat(_k)


@contract(['C28', 'C02'], 'concat many', MODS, unrollall=100, limit=150)
def c_concat_many(x):
    """more arrays than any constant in the code"""
    k = wide(x, ['gutil_misc'], 9, 40)
    bs = []
    for i in range(k):
        b = L(sym('param', 'bytes%d' % i, (), 4096, PMAX, True, VOIDP))
        n = models.bytes_size(x, b)
        x.assume_ge(K(1 << 20) - n)
        x.assume_ge(n - 1)
        d = models.bytes_data(x, b)
        bs.append((b, x.c(n), x.lookup(d)[0]))
    x.last_call = x.mod.fns.get('gutil_bytes_concat')
    if x.last_call is None:
        raise Anchor('gutil_bytes_concat is not defined')
    q = x.invoke(x.last_call, [b for b, _, _ in bs] + [ZERO])
    nw = [e for e in evs(x, 'bytes_take', 'bytes_new') if x.entails_eq(e.a[0] - q)]
    if not check(x, len(nw) == 1, 'concat of %d: a new array' % k):
        return
    x.prove_eq(nw[0].a[2], x.c(sum((b[1] for b in bs), ZERO)), 'concat of %d: the total length' % k)
    r, off = x.lookup(nw[0].a[1])
    if r is None:
        return fail(x, 'post', 'concat of %d: unknown contents' % k, undecided=True)
    i = (0, 1, k // 2, k - 2, k - 1)[x.choose(5)]
    start = x.c(sum((b[1] for b in bs[:i]), ZERO))
    x.prove_eq(byte(x, r, x.c(off + start)), byte(x, bs[i][2], ZERO), 'concat of %d: bytes in order' % k)
    no_leaks(x, q)


@contract(['C28', 'C03', 'C02'], 'concat NULL', MODS)
def c_concat_null(x):
    fn = x.mod.fns.get('gutil_bytes_concat')
    if fn is None:
        raise Anchor('gutil_bytes_concat is not defined')
    x.last_call = fn
    x.prove_eq(x.invoke(fn, [ZERO]), 0, 'concat(NULL)')


@contract(['C28', 'C03', 'C02'], 'xor', MODS)
def c_xor(x):
    a, n, d1 = gbytes(x, 'bytes1')
    same = x.choose(2)
    b, m, d2 = (a, n, d1) if same else gbytes(x, 'bytes2')
    q = x.c(x.call('gutil_bytes_xor', a, b))
    check(x, not evs(x, 'unref'), 'xor: arguments are not released')
    if n is None or m is None:
        return x.prove_eq(q, 0, 'xor with NULL')
    x.prove_ne(q, 0, 'xor: a result')
    size = n if x.decide_ge(m - n) else m
    nw = [e for e in evs(x, 'bytes_take', 'bytes_new') if x.entails_eq(e.a[0] - q)]
    if not nw:
        rf = evs(x, 'ref')
        check(x, len(rf) == 1 and x.entails_eq(rf[0].a[0] - q), 'xor: a new reference to the result', undecided=not rf)
        x.prove_eq(models.bytes_size(x, q), 0, 'xor: an empty array for an empty common part')
        x.prove_eq(size, 0, 'xor: an empty array for an empty common part')
        return
    x.prove_eq(nw[0].a[2], size, 'xor: length of the common part')
    r, off = x.lookup(nw[0].a[1])
    j = ghost('j')
    if x.decide_ge(size - j - 1):
        u, v = byte(x, d1, j), byte(x, d2, j)
        x.prove_eq(byte(x, r, off + j), x.bitop('xor', u, v, 8), 'xor: the bytes combined')
    no_leaks(x, q)
