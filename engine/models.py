"""Specifications of the external functions (GLib, libc) the library calls."""
from lin import *
from absint import irange, PMAX, VOIDP, CHAR_T, PathEnd, W, Broken

I32 = irange(4, True)
U32 = irange(4, False)
I64 = irange(8, True)
U64 = irange(8, False)
STR_T = {'k': 'ptr', 'to': CHAR_T}


def intrinsic(x, name, args, ins, fr):
    b = name.split('.')[1]
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        x.copy(args[0], args[1], x.uview(args[2], 64), move='memmove' in name)
        x.event('memcpy', args[0], args[1], args[2])
        return None
    if name.startswith('llvm.memset'):
        x.fill(args[0], args[1], x.uview(args[2], 64))
        return None
    if name.startswith('llvm.is.constant'):
        return ONE if x.c(args[0]).isconst() else ZERO
    if name.startswith('llvm.expect'):
        return args[0]
    if name.startswith('llvm.va_start'):
        r, off = x.resolve(args[0])
        va = getattr(fr, 'varargs', None)
        if va is None:
            h = getattr(x, 'va_hook', None)
            # what was not passed must not be read
            va = x.region('varargs#%d:%s' % (len(x.frames), fr.fn.name), 'ext', None if h else K(8 * len(fr.extra)), 'sym', None)
            va.info = {}
            if fr.extra:
                for i, a in enumerate(fr.extra):
                    x.rstore(va, K(8 * i), a, 8)
            elif h:
                h(x, fr, va)
            fr.varargs = va
        va_mark(x, r, False)
        x.rstore(r, off, K(48), 4)
        x.rstore(r, off + 4, K(176), 4)
        x.rstore(r, off + 8, va.ptr(), 8)
        x.rstore(r, off + 16, va.ptr(), 8)
        return None
    if name.startswith('llvm.va_copy'):
        va_use(x, args[1], False)
        x.copy(args[0], args[1], K(24))
        va_mark(x, x.resolve(args[0])[0], False)
        return None
    if name.startswith('llvm.va_end') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume') or name.startswith('llvm.dbg'):
        return None
    if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
        w = ins['w']
        v = x.sview if b[0] == 's' else x.uview
        a, c = v(args[0], w), v(args[1], w)
        ge = x.decide_ge(a - c)
        return (a if ge else c) if b.endswith('max') else (c if ge else a)
    if name.startswith('llvm.abs'):
        a = x.sview(args[0], ins['w'])
        return a if x.decide_ge(a) else -a
    if 'with.overflow' in name:
        w = ins['ws'][0]
        sg = b[0] == 's'
        v = x.sview if sg else x.uview
        a, c = v(args[0], w), v(args[1], w)
        lo, hi = irange(w // 8, sg)
        if b.endswith('mul'):
            r = x.c(a) * x.c(c).c if x.c(c).isconst() else x.c(c) * x.c(a).c if x.c(a).isconst() else x.app('mul', (a, c), 0, INF)
        else:
            r = a + c if 'add' in b else a - c
        ok = x.decide_ge(r - lo) and x.decide_ge(K(hi) - r)
        return (r, ZERO if ok else ONE)
    return unknown(x, name, args, ins)


def va_mark(x, r, used):
    k = ('va_used', r.base.id)
    if x.st.notes.get(k, False) != used:
        x.st.notes = dict(x.st.notes)
        x.st.notes[k] = used


def va_use(x, p, consume=True):
    """a va_list can be walked only once"""
    r, off = x.resolve(p, 'va_list')
    x.count('va_list')
    if x.st.notes.get(('va_used', r.base.id)):
        x.fail('va_list', 'va_list %s is used again after its arguments were fetched' % r.uid)
    elif consume:
        va_mark(x, r, True)


def unknown(x, name, args, ins):
    x.event('ext', name, *[a for a in args if a is not None])
    x.taint('unmodelled external function ' + name)
    if ins.get('w'):
        if ins['ty'] == 'ptr':
            return x.fresh(name, 0, PMAX, True, VOIDP, imp=True)
        return x.fresh(name, *irange(max(ins['w'] // 8, 1), True), imp=True)
    return None


# ------------------------------------------------------------------ allocation
def _alloc(x, what, size, init, ty=None):
    size = x.uview(size, 64)
    if not x.entails_ge(size - 1):
        if x.decide_eq(size):
            return ZERO
    r = x.alloc(what, size, init, ty)
    x.event('alloc', r.ptr(), size)
    return r.ptr()


def m_g_malloc(x, a, i): return _alloc(x, 'g_malloc', a[0], 'undef')
def m_g_malloc0(x, a, i): return _alloc(x, 'g_malloc', a[0], 'zero')
def m_malloc(x, a, i): return _alloc(x, 'malloc', a[0], 'undef')
def m_calloc(x, a, i): return _alloc(x, 'malloc', _mul(x, a[0], a[1]), 'zero')
def m_g_try_malloc(x, a, i): return _try(x, a[0], 'undef')
def m_g_try_malloc0(x, a, i): return _try(x, a[0], 'zero')


def _try(x, n, init):
    if x.choose(2):
        return ZERO
    return _alloc(x, 'g_malloc', n, init)


def _mul(x, a, b):
    a, b = x.uview(a, 64), x.uview(b, 64)
    if b.isconst():
        return a * b.c
    if a.isconst():
        return b * a.c
    return x.app('mul', (a, b), 0, INF)


def m_g_malloc_n(x, a, i): return _alloc(x, 'g_malloc', _nmul(x, a), 'undef')
def m_g_malloc0_n(x, a, i): return _alloc(x, 'g_malloc', _nmul(x, a), 'zero')


def _nmul(x, a):
    n = _mul(x, a[0], a[1])
    x.assume_ge(K(PMAX) - n, False)   # g_malloc_n aborts on overflow
    return n


def m_g_slice_alloc(x, a, i): return _alloc(x, 'g_slice', a[0], 'undef')
def m_g_slice_alloc0(x, a, i): return _alloc(x, 'g_slice', a[0], 'zero')


def m_g_slice_copy(x, a, i):
    p = _alloc(x, 'g_slice', a[0], 'undef')
    x.copy(p, a[1], x.uview(a[0], 64))
    return p


def do_free(x, p, how, size=None):
    p = x.c(p)
    if p.isconst():
        if p.c == 0:
            return
    s, off = x.ptrsym(p)
    if s is None:
        x.fail('bad-free', 'free of %s' % p, undecided=True)
        raise PathEnd()
    x.count('free')
    if not (off.isconst() and off.c == 0):
        if not x.entails_eq(off):
            x.fail('bad-free', 'free of an interior pointer %s' % p)
            raise PathEnd()
    if s.kind == 'undef':
        x.fail('uninit', 'free of an uninitialised pointer')
        raise PathEnd()
    if s.kind == 'func':
        x.fail('bad-free', 'free of a function')
        raise PathEnd()
    r = x.st.regof.get(s.id)
    if r is None:
        if not x.entails_ne(p):
            # free(NULL) is a no-op: the object exists only when non-null
            x.event('free', p, how)
            if x.entails_eq(p):
                return
            r = x.materialise(s)
            r.freed = '%s:%d' % (x.where()[0], x.where()[2])
            return
        r = x.materialise(s)
    if r.alloc and r.alloc != how and not (r.alloc in ('g_malloc', 'malloc') and how in ('g_malloc', 'malloc')):
        x.fail('bad-free', '%s memory (%s) released with %s' % (r.alloc, r.uid, how))
    x.event('free', p, how)
    x.free_region(r)


def m_g_free(x, a, i): do_free(x, a[0], 'g_malloc')
def m_free(x, a, i): do_free(x, a[0], 'malloc')


def m_g_free_sized(x, a, i): do_free(x, a[0], 'g_malloc')


def m_g_slice_free1(x, a, i):
    p = x.c(a[1])
    r, _ = x.lookup(p)
    if r is not None and r.alloc == 'g_slice' and r.size is not None:
        x.count('slice-size')
        if not x.entails_eq(r.size - a[0]):
            x.fail('bad-free', 'g_slice_free1 size %s for a block of %s' % (x.c(a[0]), r.size))
    if r is not None and r.kind == 'ext' and r.ty and r.ty.get('k') == 'struct':
        st = x.mod.structs.get(r.ty['name'])
        if st and st['size'] and x.c(a[0]).isconst() and x.c(a[0]).c != st['size']:
            x.count('slice-size')
            x.fail('bad-free', 'g_slice_free1 size %s for %s of %d bytes' % (x.c(a[0]), r.ty['name'], st['size']))
    do_free(x, p, 'g_slice')


def m_g_slice_free_chain_with_offset(x, a, i):
    x.event('free_chain', a[1], a[2], a[0])
    p = x.c(a[1])
    off = x.c(a[2]).c
    for _ in range(12):
        r, o = x.lookup(p)
        if r is None:
            break
        if r.freed:
            x.fail('double-free', 'chain node %s already freed at %s' % (r.uid, r.freed))
            raise PathEnd()
        nx = None
        w = r.head
        while w is not None:
            if w.k == 'cell' and w.off.isconst() and w.off.c == off:
                nx = x.c(w.val)
                break
            w = w.prev
        x.free_region(r)
        if nx is None:
            break
        p = nx
    return None


def m_g_realloc(x, a, i): return _realloc(x, a[0], a[1])


def m_g_realloc_n(x, a, i): return _realloc(x, a[0], _nmul(x, a[1:]))


def m_realloc(x, a, i): return _realloc(x, a[0], a[1])


def _realloc(x, p, n):
    p = x.c(p)
    n = x.uview(n, 64)
    if x.decide_eq(p):
        return _alloc(x, 'g_malloc', n, 'undef')
    if not x.entails_ge(n - 1) and x.decide_eq(n):
        do_free(x, p, 'g_malloc')
        return ZERO
    r, off = x.resolve(p, 'realloc')
    nr = x.alloc('g_malloc', n, 'undef', r.ty)
    old = r.size
    if old is None and r.nulterm:
        old = (x.c(r.nulterm[1]) + 1) * r.nulterm[0]
    if old is None:
        cn = n
    else:
        cn = n if x.decide_ge(old - n) else old
    snap = r.copy()
    nr.head = W('copy', ZERO, cn, None, (snap, off, r.head), None)
    nr.info['realloc_of'] = p
    x.event('alloc', nr.ptr(), n)
    x.event('free', p, 'realloc')
    if r.alloc and r.alloc not in ('g_malloc', 'malloc'):
        x.fail('bad-free', '%s memory reallocated' % r.alloc)
    x.free_region(r)
    return nr.ptr()


# --------------------------------------------------------------------- strings
def cstr(x, p, what):
    """check p is a readable NUL-terminated string; returns its length"""
    x.count('cstring')
    r, off = x.resolve(p, what)
    if 'cstr' in r.info and r.info['cstr'][0] is r.head:
        return x.c(r.info['cstr'][1]) - off
    if r.head is not None:
        if 'cstr' in r.info or r.head.k == 'cell' and r.head.size == 1:
            v = x.rload(r, off, 1)
            if v.isconst() and v.c == 0:
                return ZERO
        if r.head.k == 'copy':
            sr, so, sh = r.head.x
            if sr.nulterm and sh is None and x.entails_eq(r.head.off - off):
                ln = x.c(sr.nulterm[1]) - so
                if x.entails_ge(x.c(r.head.size) - ln - 1):
                    return ln
        if off.isconst():
            # a terminator that was written explicitly
            sure = True
            for k in range(300):
                v = x.rload(r, off + k, 1)
                if v.isconst() and v.c == 0:
                    return K(k) if sure else x.fresh('len', 0, k)
                if any(SYMS[i].kind == 'undef' for i, _ in v.t) or r.size is not None and not x.entails_ge(r.size - off - k - 2):
                    break
                sure = sure and x.entails_ne(v)
        if r.init in ('undef',):
            x.fail('unterminated', '%s: %s is not known to hold a NUL-terminated string' % (what, r.uid))
            raise PathEnd()
        return x.fresh('len', 0, PMAX, imp=True)
    if r.nulterm is None and r.init == 'sym' and r.kind in ('ext', 'alloc'):
        if r.info.get('plain'):
            x.fail('unterminated', '%s: %s need not be NUL-terminated' % (what, r.uid))
            raise PathEnd()
        n = L(sym('ghost', 'len(%s)' % r.uid, (), 0, 1 << 62))
        r.nulterm = (1, n, CHAR_T)
    if r.nulterm and r.nulterm[0] == 1:
        n = x.c(r.nulterm[1])
        x.oblige('bounds', lambda: x.entails_ge(off) and x.entails_ge(n - off), lambda: (x.assume_ge(off), x.assume_ge(n - off)),
                 '%s: pointer outside of the string %s' % (what, r.uid))
        return n - off
    if r.readonly and r.kind == 'global':
        # constant string: search the terminator
        if off.isconst():
            k = 0
            while True:
                v = x.rload(r, off + k, 1)
                if v.isconst() and v.c == 0:
                    return K(k)
                k += 1
                if k > 4096:
                    break
        return r.size - 1 - off
    if r.init == 'undef' or r.init == 'zero':
        v = x.rload(r, off, 1)
        if v.isconst() and v.c == 0:
            return ZERO
        x.fail('unterminated', '%s: %s is not known to hold a NUL-terminated string' % (what, r.uid))
        raise PathEnd()
    return x.fresh('len', 0, PMAX, imp=True)


def m_strlen(x, a, i): return cstr(x, a[0], 'strlen')


def _cmp(x, name, a, b, extra=()):
    a, b = x.c(a), x.c(b)
    if a == b:
        return ZERO
    if str(a) <= str(b):
        return x.app(name, (a, b) + tuple(extra), -255, 255)
    return -x.app(name, (b, a) + tuple(extra), -255, 255)


def _charat(x, p, n, k):
    """character k of a string of length n (the terminator behind it)"""
    if not x.decide_ge(n - k - 1):
        return ZERO
    r, off = x.resolve(p)
    c = x.uview(x.rload(r, x.c(off + k), 1), 8)
    if not c.isconst():
        x.assume_ne(c, False)
    return x.c(c)


def _lower(x, c):
    if c.isconst():
        return K(ord(chr(c.c).lower())) if 65 <= c.c <= 90 else c
    return c + 32 if x.decide_ge(c - 65) and x.decide_ge(K(90) - c) else c


def same_fold(x, c, k):
    """is the character c the letter k in either case (any other k: exactly k)"""
    c = x.c(c)
    up, lo = ord(chr(k).upper()), ord(chr(k).lower())
    if c.isconst() or up == lo or k > 127:
        return x.decide_eq(c - k) if up == lo or k > 127 else c.c in (up, lo)
    # one decision for both spellings
    t = x.c(L(sym('app', 'tolower', (c,), 0, 255)))
    if t.isconst():
        return t.c == lo
    if x.decide_eq(t - lo):
        x.assume_ge(c - up, False)
        x.assume_ge(K(lo) - c, False)
        return True
    x.assume_ne(c - up, False)
    x.assume_ne(c - lo, False)
    return False


def _scmp(x, name, a, b, na, nb, limit=None, fold=False):
    """string comparison: exact, character by character, if one of the strings
    has a known short length; otherwise a symbol"""
    na, nb = x.c(na), x.c(nb)
    m = min([v.c for v in (na, nb) if v.isconst()] or [99])
    if m > 24 or x.c(a) == x.c(b):
        return _cmp(x, name, a, b, () if limit is None else (limit,))
    for k in range(m + 1):
        if limit is not None and not x.decide_ge(limit - k - 1):
            return ZERO
        ca, cb = _charat(x, a, na, k), _charat(x, b, nb, k)
        if fold:
            if cb.isconst():
                ca, cb = cb, ca
            if ca.isconst() and not cb.isconst():
                if same_fold(x, cb, ca.c):
                    continue
                r = x.fresh(name, -255, 255)
                x.assume_ne(r, False)
                return r
            ca, cb = _lower(x, ca), _lower(x, cb)
        if not x.decide_eq(ca - cb):
            return ca - cb
        if ca.isconst() and ca.c == 0 or cb.isconst() and cb.c == 0:
            return ZERO
    return ZERO


def m_strcmp(x, a, i):
    na, nb = cstr(x, a[0], 'strcmp'), cstr(x, a[1], 'strcmp')
    return _scmp(x, 'strcmp', a[0], a[1], na, nb)


def m_strcasecmp(x, a, i):
    na, nb = cstr(x, a[0], 'strcasecmp'), cstr(x, a[1], 'strcasecmp')
    return _scmp(x, 'casecmp', a[0], a[1], na, nb, fold=True)


def m_g_ascii_strcasecmp(x, a, i):
    # NULL arguments only raise a critical warning and compare as 0
    for p in a[:2]:
        if x.decide_eq(p):
            x.event('critical', 'g_ascii_strcasecmp')
            return ZERO
    return m_strcasecmp(x, a, i)


def m_strncmp(x, a, i):
    na, nb = cstr(x, a[0], 'strncmp'), cstr(x, a[1], 'strncmp')
    return _scmp(x, 'strncmp', a[0], a[1], na, nb, x.uview(a[2], 64))


def m_g_ascii_strncasecmp(x, a, i):
    na, nb = cstr(x, a[0], 'strncasecmp'), cstr(x, a[1], 'strncasecmp')
    return _scmp(x, 'strncasecmp', a[0], a[1], na, nb, x.uview(a[2], 64), True)


def m_g_str_has_prefix(x, a, i):
    na, nb = cstr(x, a[0], 'g_str_has_prefix'), cstr(x, a[1], 'g_str_has_prefix')
    return ONE if x.decide_eq(_scmp(x, 'strncmp', a[0], a[1], na, nb, x.c(nb))) else ZERO


m_strncasecmp = m_g_ascii_strncasecmp


def m_g_strcmp0(x, a, i):
    if x.decide_eq(a[0]):
        if x.decide_eq(a[1]):
            return ZERO
        return K(-1)
    if x.decide_eq(a[1]):
        return ONE
    return m_strcmp(x, a, i)


def m_strchr(x, a, i):
    n = cstr(x, a[0], 'strchr')
    r, off = x.resolve(a[0])
    ch = x.sview(a[1], 8)
    uch = x.uview(ch, 8)
    if r.readonly and n.isconst() and off.isconst():
        for k in range(n.c + 1):
            v = x.rload(r, off + k, 1)
            if x.decide_eq(x.uview(v, 8) - uch):
                return x.c(a[0]) + k
        return ZERO
    if n.isconst() and n.c <= 24:
        # short string: look at every character
        for k in range(n.c):
            if x.decide_eq(_charat(x, a[0], n, k) - uch):
                return x.c(a[0]) + k
        return x.c(a[0]) + n if ch.isconst() and ch.c == 0 else ZERO
    if x.choose(2, 'strchr'):
        x.event('strchr', a[0], ch, ZERO)
        return ZERO
    j = L(sym('app', 'chr', (x.c(a[0]), x.c(ch)), 0, 1 << 62))
    x.assume_ge(n - j - (0 if ch.isconst() and ch.c == 0 else 1))
    p = x.c(a[0]) + j
    x.event('strchr', a[0], ch, p)
    return p


def m_strrchr(x, a, i):
    n = cstr(x, a[0], 'strrchr')
    x.resolve(a[0])
    uch = x.uview(a[1], 8)
    if n.isconst() and n.c <= 24:
        if uch.isconst() and uch.c == 0:
            return x.c(a[0]) + n
        for k in reversed(range(n.c)):
            if x.decide_eq(_charat(x, a[0], n, k) - uch):
                return x.c(a[0]) + k
        return ZERO
    if x.choose(2, 'strrchr'):
        return ZERO
    j = L(sym('app', 'rchr', (x.c(a[0]), x.c(uch)), 0, 1 << 62))
    x.assume_ge(n - j - (0 if uch.isconst() and uch.c == 0 else 1))
    return x.c(a[0]) + j


def m_memcmp(x, a, i):
    n = x.uview(a[2], 64)
    if not x.entails_ge(n - 1):
        if x.decide_eq(n):
            return ZERO
    for p in a[:2]:
        r, off = x.resolve(p, 'memcmp')
        x.bounds_check(r, off, n, 'memcmp read')
    if x.words and n.isconst() and n.c <= 16 and n.c % 4 == 0:
        # word by word; how two words compare is a total order of the words
        for k in range(0, n.c, 4):
            v, w = [x.c(x.rload(*(lambda r, o: (r, x.c(o + k)))(*x.resolve(p)), 4)) for p in a[:2]]
            v, w = x.uview(v, 32), x.uview(w, 32)
            if not x.decide_eq(v - w):
                ranks = [x.app('rank', (u,), 0, (1 << 32) - 1) for u in (v, w)]
                x.assume_ne(ranks[0] - ranks[1])
                return ONE if x.decide_ge(ranks[0] - ranks[1]) else K(-1)
        return ZERO
    return _cmp(x, 'memcmp', a[0], a[1], (n,))


def m_bcmp(x, a, i): return m_memcmp(x, a, i)


def m_g_strdup(x, a, i):
    p = x.c(a[0])
    if x.decide_eq(p):
        return ZERO
    n = cstr(x, p, 'g_strdup')
    sr, so = x.resolve(p)
    r = x.alloc('g_malloc', n + 1, 'undef', CHAR_T)
    r.head = W('copy', ZERO, n + 1, None, (sr.copy(), so, sr.head), None)
    r.info['cstr'] = (r.head, n)
    r.info['dup_of'] = p
    x.event('alloc', r.ptr(), n + 1)
    x.event('strdup', r.ptr(), p)
    return r.ptr()


def _strip(which):
    def f(x, a, i):
        n = cstr(x, a[0], which)
        r, off = x.resolve(a[0])
        if r.readonly:
            x.fail('readonly', 'in-place strip of constant string')
        x.event(which, a[0])
        h = x.fresh('striplen', 0, 1 << 62)
        x.assume_ge(n - h, False)
        if r.size is not None:
            x.assume_ge(r.size - off - h - 1, False)
        gen = 'strip%d' % x.st.ctr
        if x.entails_eq(off):
            r.head = W('base', ZERO, n + 1, None, gen, r.head)
            r.info = dict(r.info)
            r.info['nt'] = dict(r.info.get('nt', {}))
            r.info['nt'][gen] = h
            r.info['stripped'] = dict(r.info.get('stripped', {}))
            r.info['stripped'][which] = r.head
            if which == 'strchomp' and 'strchug' in r.info['stripped']:
                r.info['stripped']['strchug'] = r.head
        else:
            r.head = W('hv', off, n + 1, None, gen, r.head)
        r.info['cstr'] = (r.head, off + h)
        return x.c(a[0])
    return f


m_g_strchug = _strip('strchug')
m_g_strchomp = _strip('strchomp')


def m_g_str_equal(x, a, i):
    return ONE if x.decide_eq(m_strcmp(x, a, i)) else ZERO


def m_bsearch(x, a, i):
    """(key, base, n, size, cmp) -> element or NULL"""
    n, es = x.uview(a[2], 64), x.c(a[3])
    x.event('bsearch', a[0], a[1], n, es, a[4])
    if x.choose(2):
        x.st.notes = dict(x.st.notes, bsearch=None)
        return ZERO
    j = x.fresh('found', 0, 1 << 62)
    x.assume_ge(n - j - 1)
    if es.isconst() and not x.entails_eq(n):
        r, off = x.resolve(a[1], 'bsearch')
        x.bounds_check(r, off, n * es.c, 'bsearch')
    x.st.notes = dict(x.st.notes, bsearch=j)
    return x.c(L(a[1]) + (j * es.c if es.isconst() else j))


def m_g_strfreev(x, a, i):
    if x.decide_eq(a[0]):
        return None
    x.event('strfreev', a[0])
    r, off = x.resolve(a[0], 'g_strfreev')
    x.free_region(r)


def m_g_strv_length(x, a, i):
    r, off = x.resolve(a[0], 'g_strv_length')
    if r.nulterm and r.nulterm[0] == 8 and r.head is None:
        return r.nulterm[1]
    return x.fresh('svlen', 0, U32[1], imp=True)


def minus(x, p, j, hi):
    """strtoul takes negative numbers: there may be a minus, after white space only"""
    if hi <= I64[1] or not x.choose(2):
        return
    r, off = x.resolve(p)
    k = x.fresh('minus', 0, 1 << 62)
    x.assume_ge(j - k - 2, False)
    for e in x.st.events:
        if e.kind == 'strchr' and e.a[2] == ZERO and x.entails_eq(e.a[1] - 45):
            r2, o2 = x.lookup(e.a[0])
            if r2 is r and x.entails_ge(off + k - o2):
                x.infeasible()
    if x.decide_eq(k):
        x.assume_eq(x.sview(x.rload(r, off, 1), 8) - 45)
    else:
        # then the string starts with white space
        c = x.sview(x.rload(r, off, 1), 8)
        st = r.info.get('stripped', {}).get('strchug') is r.head and r.head is not None and x.entails_eq(off)
        w = ((11, 11),) if st else ((9, 10), (11, 11), (12, 13), (32, 32))
        lo, up = w[x.choose(len(w))]
        x.assume_ge(c - lo)
        x.assume_ge(K(up) - c)
    x.event('negative', p)


def _strto(x, a, i, lo, hi, name):
    n = cstr(x, a[0], name)
    err = m___errno_location(x, [], i)
    res = x.fresh('num', lo, hi)
    j = x.fresh('parsed', 0, 1 << 62)
    x.assume_ge(n - j, False)
    if not x.decide_eq(a[1]):
        x.store(a[1], x.c(a[0]) + j, 8, True)
    which = x.choose(3, name)
    if which == 1:
        # out of range: saturated value, errno = ERANGE
        if lo < 0:
            if x.choose(2):
                x.assume_eq(res - lo)
            else:
                x.assume_eq(res - hi)
        else:
            x.assume_eq(res - hi)
        x.assume_ge(j - 1)
        x.store(err, K(34), 4)
        minus(x, a[0], j, hi)
    elif which == 2:
        # nothing parsed: 0; errno may be EINVAL (bad base) or untouched
        x.assume_eq(res)
        if x.choose(2):
            x.store(err, K(22), 4)
        x.assume_eq(j)
    else:
        x.assume_ge(j - 1)
        minus(x, a[0], j, hi)
    x.event(name, a[0], a[1], a[2], res, j, K(which), n)
    return x.c(res)


def m_g_ascii_strtoll(x, a, i): return _strto(x, a, i, I64[0], I64[1], 'strtoll')
def m_g_ascii_strtoull(x, a, i): return _strto(x, a, i, 0, U64[1], 'strtoull')


m_strtoll = m_strtol = m_g_ascii_strtoll
m_strtoull = m_strtoul = m_g_ascii_strtoull


def m___errno_location(x, a, i):
    r = x.gregion('errno', {})
    if r.size is None:
        r.size = K(4)
        r.ty = {'k': 'int', 'size': 4, 'signed': True}
    return r.ptr()


def m___ctype_b_loc(x, a, i):
    b = sym('base', '@ctype_loc', (), 4096, PMAX, True)
    r = x.st.regof.get(b.id)
    if r is None:
        r = x.region('@ctype_loc', 'global', 8, 'sym', None, base=b)
        t = x.region('@ctype_tab', 'global', 2 * 384, ctype_init, None)
        x.rstore(r, ZERO, t.ptr(256), 8)
    return r.ptr()


CTYPE = []
for _ch in range(128):
    import string as _st
    _c = chr(_ch)
    _v = 0
    if _c.isupper(): _v |= 1 << 8
    if _c.islower(): _v |= 1 << 9
    if _c.isalpha(): _v |= 1 << 10
    if _c.isdigit(): _v |= 1 << 11
    if _c in _st.hexdigits: _v |= 1 << 12
    if _c in ' \t\n\v\f\r': _v |= 1 << 13
    if 32 <= _ch < 127: _v |= 1 << 14
    if 33 <= _ch < 127: _v |= 1 << 15
    if _c in ' \t': _v |= 1 << 0
    if _ch < 32 or _ch == 127: _v |= 1 << 1
    if 33 <= _ch < 127 and not _c.isalnum(): _v |= 1 << 2
    if _c.isalnum(): _v |= 1 << 3
    CTYPE.append(_v)


def ctype_init(x, r, off, size, isptr):
    """character class bits (outside ASCII they depend on the locale)"""
    idx, rem = x.divmod_const(off - 256, 2)
    return x.app('ctype', (idx,), 0, 65535)


def table_mask(x, s, m):
    """class table entry & mask: partition the index on where the result changes"""
    idx = x.c(s.args[0])
    tab = CTYPE + [0] * 128 if s.tag == 'ctype' else ASCII
    if s.tag == 'ctype' and (not x.decide_ge(idx) or x.decide_ge(idx - 128)):
        return x.fresh('locale', 0, m)
    runs = []
    for ch, v in enumerate(tab):
        if runs and runs[-1][1] == v & m: runs[-1][0] = ch
        else: runs.append([ch, v & m])
    if not x.decide_ge(idx):
        return ZERO
    lo, hi = 0, len(runs) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if x.decide_ge(K(runs[mid][0]) - idx): hi = mid
        else: lo = mid + 1
    return K(runs[lo][1])


def _ascii_table():
    import string
    t = []
    for ch in range(256):
        v = 0
        if ch < 128:
            c = chr(ch)
            if c.isalnum(): v |= 1
            if c.isalpha(): v |= 2
            if ch < 32 or ch == 127: v |= 4
            if c.isdigit(): v |= 8
            if 33 <= ch < 127: v |= 16
            if c.islower(): v |= 32
            if 32 <= ch < 127: v |= 64
            if 33 <= ch < 127 and not c.isalnum(): v |= 128
            if c in ' \t\n\f\r': v |= 256        # not the vertical tab
            if c.isupper(): v |= 512
            if c in string.hexdigits: v |= 1024
        t.append(v)
    return t


ASCII = _ascii_table()


def ascii_init(x, r, off, size, isptr):
    idx, rem = x.divmod_const(off, 2)
    return x.app('ascii', (idx,), 0, 65535)


def g_ascii(x, r):
    r.size = K(8)
    t = x.region('@ascii_tab', 'global', 512, ascii_init, None)
    r.init = 'sym'
    x.rstore(r, ZERO, t.ptr(), 8)


GLOBALS = {'g_ascii_table': g_ascii}


def m_g_ascii_xdigit_value(x, a, i):
    c = x.sview(a[0], 8)
    for lo, hi, b in ((48, 57, 0), (65, 70, 10), (97, 102, 10)):
        if not x.decide_ge(c - lo): return K(-1)
        if x.decide_ge(K(hi) - c): return c - lo + b
    return K(-1)


# ------------------------------------------------------------------- memory fns
def m_memcpy(x, a, i):
    x.copy(a[0], a[1], x.uview(a[2], 64))
    return a[0]


def m_memmove(x, a, i):
    x.copy(a[0], a[1], x.uview(a[2], 64), move=True)
    return a[0]


def m_memset(x, a, i):
    x.fill(a[0], a[1], x.uview(a[2], 64))
    return a[0]


def m_g_memdup2(x, a, i):
    if x.decide_eq(a[0]): return ZERO
    n = x.uview(a[1], 64)
    p = _alloc(x, 'g_malloc', n, 'undef')
    if not (p.isconst() and p.c == 0):
        x.copy(p, a[0], n)
    return p


def m_g_memdup(x, a, i):
    return m_g_memdup2(x, [a[0], x.uview(a[1], 32)], i)


# ------------------------------------------------------------------ GLib objects
def nonnull(x, p, what):
    p = x.c(p)
    if p.isconst() and p.c == 0:
        x.count('nonnull')
        x.fail('null', '%s(NULL)' % what)
        raise PathEnd()
    s, off = x.ptrsym(p)
    if s is not None and s.lo > 0:
        x.count('nonnull')
        r = x.st.regof.get(s.id)
        if r is not None and r.freed:
            x.fail('uaf', '%s on freed %s' % (what, r.uid))
            raise PathEnd()
        return
    x.oblige('nonnull', lambda: x.entails_ne(p), lambda: x.assume_ne(p), '%s on a pointer that may be NULL (%s)' % (what, p))
    r, _ = x.lookup(p)
    if r is not None and r.freed:
        x.fail('uaf', '%s on freed %s' % (what, r.uid))
        raise PathEnd()


def _ref(kind):
    def f(x, a, i):
        nonnull(x, a[0], kind + '_ref')
        x.event('ref', a[0], kind)
        return x.c(a[0])
    return f


def _unref(kind):
    def f(x, a, i):
        nonnull(x, a[0], kind + '_unref')
        x.event('unref', a[0], kind)
        if x.cb_hook:
            x.cb_hook(x, 'unref', a, i)
        return None
    return f


m_g_object_ref = _ref('object')


def m_g_object_ref_sink(x, a, i):
    # takes over the floating reference of an object which has one
    nonnull(x, a[0], 'object_ref_sink')
    p = x.c(a[0])
    k = ('sunk', str(p))
    if k not in x.st.notes:
        x.st.notes[k] = True
        if x.decide_ge(x.app('floating', (p,), 0, 1) - 1):
            x.event('sink', p)
            return p
    x.event('ref', p, 'object')
    return p


m_g_object_unref = _unref('object')
m_g_bytes_ref = _ref('bytes')
m_g_bytes_unref = _unref('bytes')
m_g_variant_ref = _ref('variant')
m_g_variant_ref_sink = _ref('variant')
m_g_variant_unref = _unref('variant')
m_g_ptr_array_ref = _ref('ptr_array')
m_g_ptr_array_unref = _unref('ptr_array')
m_g_io_channel_ref = _ref('io_channel')
m_g_io_channel_unref = _unref('io_channel')
m_g_source_ref = _ref('source')
m_g_source_unref = _unref('source')


def m_g_type_check_instance_cast(x, a, i): return x.c(a[0])
def m_g_type_check_class_cast(x, a, i): return x.c(a[0])


def m_g_type_check_instance_is_a(x, a, i):
    return ONE


def bytes_size(x, b):
    return x.app('bytes_size', (b,), 0, 1 << 61)


def bytes_data(x, b):
    n = bytes_size(x, b)
    d = x.app('bytes_data', (b,), 0, PMAX, True, VOIDP)
    s = x.c(d).single()
    if s is not None and s.id not in x.st.regof and x.decide_ge(n - 1):
        x.assume_ne(d, False)
        r = x.materialise(x.c(d).single())
        r.size = x.c(n)
        r.readonly = True
        r.info['plain'] = True
        x.st.ges.append(K(PMAX) - L(r.base) - r.size)
        x._changed()
    return x.c(d)


def m_g_bytes_get_size(x, a, i):
    nonnull(x, a[0], 'g_bytes_get_size')
    return bytes_size(x, a[0])


def m_g_bytes_get_data(x, a, i):
    nonnull(x, a[0], 'g_bytes_get_data')
    d = bytes_data(x, a[0])
    if not x.decide_eq(a[1]):
        x.store(a[1], bytes_size(x, a[0]), 8)
    return x.c(d)


def m_g_bytes_new_take(x, a, i):
    p = x.c(a[0])
    n = x.uview(a[1], 64)
    r, off = x.lookup(p)
    b = x.fresh('bytes', 4096, PMAX, True, VOIDP)
    if r is not None:
        x.event('bytes_take', b, p, n)
        if r.size is not None:
            x.oblige('bounds', lambda: x.entails_ge(r.size - n), lambda: x.assume_ge(r.size - n), 'g_bytes_new_take of %s bytes from %s' % (n, r.uid))
        r.info['taken'] = b
    else:
        x.event('bytes_take', b, p, n)
    return b


def m_g_bytes_new(x, a, i):
    n = x.uview(a[1], 64)
    if not x.entails_eq(n):
        r, off = x.resolve(a[0], 'g_bytes_new')
        x.bounds_check(r, off, n, 'g_bytes_new')
    b = x.fresh('bytes', 4096, PMAX, True, VOIDP)
    x.event('bytes_new', b, a[0], n)
    return b


def m_g_variant_new_fixed_array(x, a, i):
    v = x.fresh('variant', 4096, PMAX, True, VOIDP)
    n = x.uview(a[2], 64)
    es = x.c(a[3])
    if not x.entails_eq(n):
        r, off = x.resolve(a[1], 'g_variant_new_fixed_array')
        x.bounds_check(r, off, n * es.c if es.isconst() else n, 'g_variant_new_fixed_array')
    x.event('variant_fixed', v, a[0], a[1], n, es)
    return v


def m_g_variant_new_from_data(x, a, i):
    v = x.fresh('variant', 4096, PMAX, True, VOIDP)
    x.event('variant_data', v, *a)
    return v


# generic effect-only models: event + typed result
def _eff(name, ret=None, nn=None, **kw):
    def f(x, a, i):
        if nn is not None:
            nonnull(x, a[nn], name)
        r = None
        if ret == 'ptr':
            r = x.fresh(name, 4096, PMAX, True, VOIDP)
        elif ret == 'ptr0':
            r = x.fresh(name, 0, PMAX, True, VOIDP)
        elif ret == 'str0':
            r = x.fresh(name, 0, PMAX, True, CHAR_T)
        elif ret == 'str':
            r = x.fresh(name, 4096, PMAX, True, CHAR_T)
        elif ret == 'id':
            r = x.fresh(name, 1, U32[1])
        elif ret == 'lid':
            r = x.fresh(name, 1, (1 << 63) - 1)
        elif ret == 'bool':
            r = x.fresh(name, 0, 1)
        elif ret == 'int':
            r = x.fresh(name, *I32)
        elif ret == 'u64':
            r = x.fresh(name, *U64)
        x.event(name, *([y for y in a if y is not None] + ([r] if r is not None else [])))
        if name in ('g_signal_emit', 'g_hash_table_destroy') and x.cb_hook:
            x.cb_hook(x, name, a, i)
        return r
    return f


_EFF = {
    'g_source_remove': 'bool', 'g_idle_add': 'id', 'g_idle_source_new': 'ptr', 'g_source_attach': 'id',
    'g_source_set_callback': None, 'g_source_set_priority': None,
    'g_main_context_default': 'ptr', 'g_main_context_get_thread_default': 'ptr0',
    'g_signal_connect_data': 'lid', 'g_signal_handler_disconnect': None, 'g_signal_emit': None, 'g_signal_new': 'id',
    'g_object_new': 'ptr', 'g_object_add_weak_pointer': None, 'g_object_remove_weak_pointer': None,
    'g_weak_ref_init': None, 'g_weak_ref_set': None, 'g_weak_ref_clear': None, 'g_weak_ref_get': 'ptr0',
    'g_thread_self': None, 'g_private_get': 'ptr0', 'g_private_set': None, 'g_private_replace': None,
    'g_hash_table_new_full': 'ptr', 'g_hash_table_insert': 'bool', 'g_hash_table_lookup': 'ptr0', 'g_hash_table_remove': 'bool',
    'g_hash_table_destroy': None, 'g_hash_table_size': 'id', 'g_hash_table_unref': None,
    'g_io_add_watch': 'id', 'g_io_channel_unix_new': 'ptr', 'g_io_channel_set_buffered': None,
    'g_io_channel_set_close_on_unref': None, 'g_io_channel_set_encoding': 'int', 'g_io_channel_shutdown': 'int',
    'inotify_init': 'int', 'inotify_init1': 'int', 'inotify_add_watch': 'int', 'inotify_rm_watch': 'int', 'close': 'int',
    'timerfd_create': 'int', 'timerfd_settime': 'int', 'strerror': 'str', 'g_strerror': 'str', 'getenv': 'str0', 'g_getenv': 'str0',
    'g_type_register_static_simple': 'u64', 'g_type_class_peek_parent': 'ptr', 'g_type_class_adjust_private_offset': None,
    'g_intern_static_string': 'str', 'g_once_init_leave': None,
    'openlog': None, 'closelog': None, 'g_option_error_quark': 'id', 'g_quark_from_static_string': 'id',
    'g_error_free': None, 'g_get_monotonic_time': 'u64', 'time': 'u64', 'syscall': 'int', 'gettid': 'int', 'getpid': 'int',
    'g_timeout_add': 'id', 'g_timeout_add_full': 'id', 'g_idle_add_full': 'id',
    'fflush': 'int', 'usleep': 'int', 'g_thread_yield': None,
}
for _n, _r in _EFF.items():
    globals()['m_' + _n] = _eff(_n, _r)
_nn = {'g_object_add_weak_pointer': 0, 'g_weak_ref_get': 0, 'g_hash_table_insert': 0, 'g_hash_table_lookup': 0, 'g_hash_table_remove': 0,
       'g_io_channel_set_encoding': 0, 'g_io_channel_shutdown': 0, 'g_io_add_watch': 0, 'g_signal_emit': 0, 'g_error_free': 0,
       'g_signal_connect_data': 0, 'g_signal_handler_disconnect': 0, 'g_source_set_callback': 0, 'g_source_attach': 0}
for _n, _k in _nn.items():
    globals()['m_' + _n] = _eff(_n, _EFF[_n], _k)


def m_g_thread_self(x, a, i):
    r = L(sym('app', 'current_thread', (), 4096, PMAX, True))
    x.event('g_thread_self', r)
    return r


# GArray: a header {data, len} with an exactly sized data block; the element
# size and the reference count are ghost state
def garray(x, p, what):
    nonnull(x, p, what)
    r, off = x.resolve(p, what)
    g = r.info.get('garray')
    if g is None:
        g = r.info['garray'] = dict(elt=r.info.get('elt', 4), refs=L(sym('ghost', 'refs(%s)' % r.uid, (), 1, U32[1])))
    return r, off, g


def _ga_get(x, r, off):
    return x.rload(r, off, 8, True), x.uview(x.rload(r, off + 8, 4), 32)


def _ga_data(x, p):
    if x.decide_eq(p): return None
    return x.resolve(p, 'array data')


def m_g_array_sized_new(x, a, i):
    r = x.alloc('garray', 16, 'zero', {'k': 'struct', 'name': 'gutil_int_array'})
    es = x.c(a[2])
    if not es.isconst():
        x.taint('array of unknown element size')
        es = K(4)
    r.info['garray'] = dict(elt=es.c, refs=ONE)
    zt, clr = x.c(a[0]), x.c(a[1])
    r.info['ga_flags'] = (zt, clr)
    x.event('g_array_sized_new', r.ptr(), a[0], a[1], a[2], a[3])
    return r.ptr()


def m_g_array_new(x, a, i): return m_g_array_sized_new(x, a + [ZERO], i)


def _ga_resize(x, r, off, g, n):
    """exactly n elements in a new block: the caller fills it in"""
    es = g['elt']
    d, old = _ga_get(x, r, off)
    x.assume_ge(K(U32[1]) - n, False)       # GLib aborts when the size overflows
    dd = _ga_data(x, d)
    if not x.entails_ge(n - 1) and x.decide_eq(n):
        nr = None
    else:
        nr = x.alloc('g_malloc', n * es, 'undef', {'k': 'int', 'size': 4, 'signed': True} if es == 4 else None)
    x.rstore(r, off, nr.ptr() if nr else ZERO, 8)
    x.rstore(r, off + 8, x.c(n), 4)
    if dd:
        x.free_region(dd[0])
    return nr, (dd[0].copy(), dd[1], dd[0].head) if dd else None


def _ga_copy(x, nr, to, src, frm, n):
    """n bytes of a snapshot (region, offset, head)"""
    n = x.c(n)
    if nr is None or src is None or not x.decide_ge(n - 1):
        return
    nr.head = W('copy', x.c(to), n, None, (src[0], x.c(src[1] + frm), src[2]), nr.head)


def _ga_insert(x, a, what, pos, vals, cnt):
    r, off, g = garray(x, a, what)
    es = g['elt']
    d, n = _ga_get(x, r, off)
    cnt = x.uview(cnt, 32)
    x.event(what, a, pos if pos is not None else n, vals, cnt)
    if x.decide_eq(cnt):
        if pos is not None and what == 'g_array_insert_vals':
            pass
        return x.c(a)
    sr, so = x.resolve(vals, what)
    x.bounds_check(sr, so, cnt * es, what)
    if sr.freed is None and not x.decide_eq(d):
        dr, _ = x.resolve(d, 'array data')
        if dr is sr:
            x.fail('uaf', '%s of the elements of the array itself' % what)
    src = (sr.copy(), so, sr.head)
    if pos is None:
        pos = n
    gap = ZERO
    if not x.decide_ge(n - pos):
        gap = x.c(pos - n)
    nr, old = _ga_resize(x, r, off, g, n + gap + cnt)
    if gap is ZERO:
        _ga_copy(x, nr, ZERO, old, ZERO, pos * es)
        _ga_copy(x, nr, pos * es, src, ZERO, cnt * es)
        _ga_copy(x, nr, (pos + cnt) * es, old, pos * es, (n - pos) * es)
    else:
        _ga_copy(x, nr, ZERO, old, ZERO, n * es)
        _ga_copy(x, nr, pos * es, src, ZERO, cnt * es)
    return x.c(a)


def m_g_array_append_vals(x, a, i): return _ga_insert(x, a[0], 'g_array_append_vals', None, a[1], a[2])
def m_g_array_prepend_vals(x, a, i): return _ga_insert(x, a[0], 'g_array_prepend_vals', ZERO, a[1], a[2])
def m_g_array_insert_vals(x, a, i): return _ga_insert(x, a[0], 'g_array_insert_vals', x.uview(a[1], 32), a[2], a[3])


def _ga_remove(x, p, what, pos, cnt, fast=False):
    r, off, g = garray(x, p, what)
    es = g['elt']
    d, n = _ga_get(x, r, off)
    pos, cnt = x.uview(pos, 32), x.uview(cnt, 32)
    x.event(what, p, pos, cnt)
    x.oblige('bounds', lambda: x.entails_ge(n - pos - cnt), lambda: x.assume_ge(n - pos - cnt),
             '%s: %s element(s) at %s of an array of %s' % (what, cnt, pos, n))
    if x.decide_eq(cnt):
        return x.c(p)
    # the block stays where it is
    x.rstore(r, off + 8, x.c(n - cnt), 4)
    dr, do = x.resolve(d, 'array data')
    src = (dr.copy(), do, dr.head)
    if fast:
        if x.decide_ge(n - 2 - pos):
            _ga_copy(x, dr, do + pos * es, src, (n - 1) * es, K(es))
    else:
        _ga_copy(x, dr, do + pos * es, src, (pos + cnt) * es, (n - pos - cnt) * es)
    return x.c(p)


def m_g_array_remove_index(x, a, i): return _ga_remove(x, a[0], 'g_array_remove_index', a[1], ONE)
def m_g_array_remove_index_fast(x, a, i): return _ga_remove(x, a[0], 'g_array_remove_index_fast', a[1], ONE, True)
def m_g_array_remove_range(x, a, i): return _ga_remove(x, a[0], 'g_array_remove_range', a[1], a[2])


def m_g_array_set_size(x, a, i):
    r, off, g = garray(x, a[0], 'g_array_set_size')
    es = g['elt']
    d, n = _ga_get(x, r, off)
    m = x.uview(a[1], 32)
    x.event('g_array_set_size', a[0], m)
    if x.decide_ge(n - m):
        x.rstore(r, off + 8, m, 4)
        return x.c(a[0])
    k = n
    nr, old = _ga_resize(x, r, off, g, m)
    clr = r.info.get('ga_flags', (ZERO, ZERO))[1]
    if nr is not None and clr.isconst() and clr.c:
        nr.head = W('fill', ZERO, m * es, ZERO, None, nr.head)
    _ga_copy(x, nr, ZERO, old, ZERO, k * es)
    return x.c(a[0])


def m_g_array_sort(x, a, i):
    r, off, g = garray(x, a[0], 'g_array_sort')
    d, n = _ga_get(x, r, off)
    x.event('sort', d, n, K(g['elt']), a[1])
    _permute(x, d, n * g['elt'])


def _permute(x, d, size):
    if not x.decide_eq(size):
        r, off = x.resolve(d, 'sort')
        x.bounds_check(r, off, size, 'sort')
        r.head = W('hv', off, x.c(size), None, 'sort%d' % x.st.ctr, r.head)
        r.info.pop('cstr', None)


def m_qsort(x, a, i):
    es, n = x.c(a[2]), x.uview(a[1], 64)
    x.event('sort', a[0], n, es, a[3])
    if es.isconst():
        _permute(x, x.c(a[0]), n * es.c)


m_g_qsort_with_data = m_qsort


def m_g_array_ref(x, a, i):
    r, off, g = garray(x, a[0], 'g_array_ref')
    r.info['garray'] = dict(g, refs=g['refs'] + 1)
    x.event('ref', a[0], 'array')
    return x.c(a[0])


def m_g_array_unref(x, a, i):
    r, off, g = garray(x, a[0], 'g_array_unref')
    x.event('unref', a[0], 'array')
    r.info['garray'] = g = dict(g, refs=x.c(g['refs'] - 1))
    if x.decide_eq(g['refs']):
        dd = _ga_data(x, _ga_get(x, r, off)[0])
        if dd:
            x.free_region(dd[0])
        x.free_region(r)


def m_g_array_free(x, a, i):
    r, off, g = garray(x, a[0], 'g_array_free')
    d, n = _ga_get(x, r, off)
    x.event('g_array_free', a[0], a[1])
    r.info['garray'] = g = dict(g, refs=x.c(g['refs'] - 1))
    if not x.decide_eq(x.sview(a[1], 32)):
        dd = _ga_data(x, d)
        if dd:
            x.free_region(dd[0])
        d = ZERO
    if x.decide_eq(g['refs']):
        x.free_region(r)
    else:
        # others still hold the (now empty) array
        x.rstore(r, off, ZERO, 8)
        x.rstore(r, off + 8, ZERO, 4)
    return d


def m_g_once_init_enter(x, a, i):
    return ONE if x.choose(2) == 0 else ZERO


def m_g_io_channel_read_chars(x, a, i):
    """(channel, buf, count, &bytes_read, &error) -> status"""
    nonnull(x, a[0], 'g_io_channel_read_chars')
    cnt = x.uview(a[2], 64)
    r, off = x.resolve(a[1], 'read buffer')
    x.bounds_check(r, off, cnt, 'g_io_channel_read_chars buffer')
    n = x.fresh('nread', 0, 1 << 62)
    x.assume_ge(cnt - n, False)
    src = x.region('input%d' % x.st.ctr, 'ext', n, 'sym', CHAR_T)
    r.head = W('copy', x.c(off), n, None, (src, ZERO, None), r.head)
    if not x.decide_eq(a[3]):
        x.store(a[3], n, 8)
    st = x.fresh('status', 0, 3)
    x.event('read_chars', a[0], a[1], n, st)
    if not x.decide_eq(a[4]):
        if x.choose(2):
            e = x.fresh('gerror', 4096, PMAX, True, {'k': 'struct', 'name': '_GError'})
            x.store(a[4], e, 8, True)
            x.event('gerror', e)
            x.assume_eq(n)
            x.st.notes = dict(x.st.notes, ioerror=e)
    return st


def m_g_error_new(x, a, i):
    nonnull(x, a[2], 'g_error_new')
    fmtcheck(x, a, 2)
    r = x.fresh('gerror', 4096, PMAX, True, {'k': 'struct', 'name': '_GError'})
    x.event('g_error_new', a[0], a[1], a[2], r)
    return r


# ---------------------------------------------------------------------- output
def conststr(x, p):
    r, off = x.lookup(p)
    if r is None or not r.readonly or not off.isconst():
        return None
    out = []
    k = off.c
    while True:
        if not x.entails_ge(r.size - k - 1):
            return None
        v = x.rload(r, K(k), 1)
        if not v.isconst():
            return None
        if v.c == 0:
            return ''.join(out)
        out.append(chr(v.c & 255))
        k += 1


def fmtcheck(x, a, fi):
    """a printf-style call: literal format, one valid argument per conversion"""
    import re
    x.count('format')
    f = conststr(x, a[fi])
    if f is None:
        return None
    convs = re.findall(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|q)?([a-zA-Z%])', f)
    args = list(a[fi + 1:])
    items = []
    for fl, wd, pr, ln, cv in convs:
        if cv == '%':
            continue
        if wd == '*':
            args.pop(0) if args else None
        prec = None
        if pr == '*':
            prec = args.pop(0) if args else None
        if not args:
            x.fail('format', 'format "%s" has more conversions than arguments' % f.replace('\n', '\\n'))
            return f
        v = args.pop(0)
        items.append((cv, x.c(v)))
        if cv == 's':
            pv = x.c(v)
            if pv.isconst() and pv.c == 0:
                # glibc, which GLib uses for this, prints (null)
                pass
            elif prec is None:
                if not x.entails_ne(pv):
                    x.event('maybe-null-str', pv)
                else:
                    cstr(x, pv, '%s argument')
    return f, items


def _printer(name, fi):
    def f(x, a, i):
        r = fmtcheck(x, a, fi)
        x.event('print', name, *[y for y in a if y is not None])
        if i.get('w'):
            return x.fresh(name, *I32)
        return None
    return f


m_fprintf = _printer('fprintf', 1)
m_printf = _printer('printf', 0)
m_syslog = _printer('syslog', 1)


# GString: always full, so that GLib's inline functions call the library
def _gs_new(x):
    r = x.alloc('gstring', 24, 'zero', None)
    x.event('alloc', r.ptr(), K(24))
    _gs_put(x, r)
    return r.ptr()


def _gs_put(x, r):
    n = x.fresh('gstrlen', 0, 1 << 40)
    d = x.alloc('g_malloc', x.c(n + 1), 'undef', CHAR_T)
    d.head = W('hv', ZERO, x.c(n + 1), None, 'gs%d' % x.st.ctr, d.head)
    d.info['cstr'] = (d.head, n)
    x.rstore(r, ZERO, d.ptr(), 8)
    x.rstore(r, K(8), n, 8)
    x.rstore(r, K(16), n + 1, 8)


def _gs_change(x, p, what, *text):
    nonnull(x, p, what)
    r, off = x.resolve(p, what)
    # what the string consists of
    r.info = dict(r.info, text=r.info.get('text', ()) + (text or ('?',),))
    d, _ = x.resolve(x.rload(r, off, 8, True), what)
    x.free_region(d)
    _gs_put(x, r)
    return x.c(p)


def m_g_string_sized_new(x, a, i): return _gs_new(x)


def m_g_string_new(x, a, i):
    if not x.decide_eq(a[0]):
        cstr(x, a[0], 'g_string_new')
        p = _gs_new(x)
        r, _ = x.resolve(p)
        r.info = dict(r.info, text=(('str', x.c(a[0])),))
        return p
    return _gs_new(x)


def m_g_string_append_printf(x, a, i):
    fmtcheck(x, a, 1)
    x.event('append', *[y for y in a if y is not None])
    _gs_change(x, a[0], 'g_string_append_printf', 'fmt', *[x.c(y) for y in a[1:] if y is not None])


def m_g_string_printf(x, a, i):
    fmtcheck(x, a, 1)
    x.event('append', *[y for y in a if y is not None])
    _gs_change(x, a[0], 'g_string_printf')
m_fputs = _eff('fputs', 'int')
m_fputc = _eff('fputc', 'int')
m_puts = _eff('puts', 'int')


def m_vsyslog(x, a, i):
    x.event('vprint', 'vsyslog', *a)
    va_use(x, a[2])


def m_g_logv(x, a, i):
    x.event('vprint', 'g_logv', *a)
    va_use(x, a[3])


def m_vfprintf(x, a, i):
    x.event('vprint', 'vfprintf', *a)
    va_use(x, a[2])
    return x.fresh('vfprintf', *I32)


def m_g_vsnprintf(x, a, i):
    """returns the length the full output needs (excluding NUL); formats are valid"""
    n = x.uview(a[1], 64)
    need = x.fresh("needed", 0, I32[1] - 1)
    key = 'fmtlen'
    old = x.st.notes.get(('fmt', x.c(a[2])))
    if old is not None:
        need = old
    else:
        x.st.notes = dict(x.st.notes)
        x.st.notes[('fmt', x.c(a[2]))] = need
    if not x.decide_eq(n):
        r, off = x.resolve(a[0], 'vsnprintf buffer')
        x.bounds_check(r, off, n, 'vsnprintf buffer')
        r.head = W('hv', off, n, None, 'fmt%d' % x.st.ctr, r.head)
        r.info['cstr'] = (r.head, off + x.fresh('fmtlen', 0, 1 << 31))
        r.info['fmt_need'] = (r.head, need, n, x.c(a[2]))
    x.event('vsnprintf', a[0], n, a[2], need)
    va_use(x, a[3])
    return x.c(need)


m_vsnprintf = m_g_vsnprintf


def m_g_strdup_vprintf(x, a, i):
    need = x.fresh('needed', 0, I32[1] - 1)
    r = x.alloc('g_malloc', x.c(need + 1), 'undef', CHAR_T)
    r.head = W('hv', ZERO, x.c(need + 1), None, 'fmt%d' % x.st.ctr, r.head)
    r.info['cstr'] = (r.head, need)
    r.info['fmt_need'] = (r.head, need, x.c(need + 1), x.c(a[0]))
    x.event('alloc', r.ptr(), need + 1)
    x.event('vsnprintf', r.ptr(), need + 1, a[0], need)
    va_use(x, a[1])
    return r.ptr()


def m_g_strdup_printf(x, a, i):
    f = fmtcheck(x, a, 0)
    n = x.fresh('printed', 0, I32[1] - 1)
    r = x.alloc('g_malloc', x.c(n + 1), 'undef', CHAR_T)
    r.head = W('hv', ZERO, x.c(n + 1), None, 'fmt%d' % x.st.ctr, r.head)
    r.info['cstr'] = (r.head, n)
    r.info['printed'] = (r.head, [x.c(y) for y in a if y is not None])
    x.event('alloc', r.ptr(), n + 1)
    return r.ptr()


def m_g_strconcat(x, a, i):
    """the parts are known to render(); their lengths are not"""
    parts = []
    for y in a:
        y = x.c(y) if y is not None else ZERO
        if x.decide_eq(y):
            break
        cstr(x, y, 'g_strconcat argument')
        parts.append(y)
    if not parts:
        return ZERO
    n = x.fresh('concat', 0, 1 << 40)
    r = x.alloc('g_malloc', x.c(n + 1), 'undef', CHAR_T)
    r.head = W('hv', ZERO, x.c(n + 1), None, 'cc%d' % x.st.ctr, r.head)
    r.info['cstr'] = (r.head, n)
    r.info['concat'] = (r.head, parts)
    x.event('alloc', r.ptr(), n + 1)
    return r.ptr()


def _static_time(name):
    def f(x, a, i):
        r = x.region('result of ' + name, 'ext', K(56), 'sym', None)
        x.event('static', name, r.ptr())
        x.event('localtime_r', a[0], r.ptr(), x.load(a[0], 8))
        return r.ptr()
    return f


m_localtime = _static_time('localtime')
m_gmtime = _static_time('gmtime')


def m_strftime(x, a, i):
    n = x.uview(a[1], 64)
    r, off = x.resolve(a[0], 'strftime buffer')
    x.bounds_check(r, off, n, 'strftime buffer')
    cstr(x, a[2], 'strftime format')
    ret = x.fresh('strftime', 0, 1 << 31)
    r.head = W('hv', off, n, None, 'tm%d' % x.st.ctr, r.head)
    if x.decide_ge(ret - 1):
        x.assume_ge(n - ret - 1, False)
        r.info['cstr'] = (r.head, off + ret)
        r.info['tmend'] = (r.head, off + ret)
    else:
        r.info.pop('cstr', None)
        r.info['strftime0'] = True
    x.event('strftime', a[0], n, a[2], ret, a[3])
    return x.c(ret)


def m_localtime_r(x, a, i):
    x.event('localtime_r', a[0], a[1], x.load(a[0], 8))
    r, off = x.resolve(a[1], 'localtime_r')
    r.head = W('hv', off, K(56), None, 'lt%d' % x.st.ctr, r.head)
    return x.c(a[1])


def m_time(x, a, i):
    t = x.fresh('time', 0, 1 << 62)
    x.event('time', t)
    if not x.decide_eq(a[0]):
        x.store(a[0], t, 8)
    return t


def m_g_string_append(x, a, i):
    cstr(x, a[1], 'g_string_append')
    x.event('append', *a)
    return _gs_change(x, a[0], 'g_string_append', 'str', x.c(a[1]))


def m_g_string_append_c(x, a, i):
    x.event('append', *a)
    return _gs_change(x, a[0], 'g_string_append_c', 'chr', x.c(a[1]))


def m_g_string_insert_c(x, a, i):
    x.event('append', *a)
    return _gs_change(x, a[0], 'g_string_insert_c', *(('chr', x.c(a[2])) if x.entails_eq(x.sview(a[1], 64) + 1) else ('?',)))


def m_g_string_append_len(x, a, i, k=1):
    n = x.sview(a[k + 1], 64)
    if not x.decide_ge(n):
        cstr(x, a[k], 'g_string_append_len')
    elif not x.decide_eq(n):
        r, off = x.resolve(a[k], 'g_string_append_len')
        x.bounds_check(r, off, n, 'g_string_append_len')
    x.event('append', *a)
    return _gs_change(x, a[0], 'g_string_append_len', *(('len', x.c(a[k]), x.c(n)) if k == 1 or x.entails_eq(x.sview(a[1], 64) + 1) else ('?',)))


def m_g_string_insert_len(x, a, i):
    return m_g_string_append_len(x, a, i, 2)


def m_g_string_free(x, a, i):
    nonnull(x, a[0], 'g_string_free')
    r, off = x.resolve(a[0], 'g_string_free')
    p = x.rload(r, off, 8, True)
    d, _ = x.resolve(p)
    x.event('g_string_free', a[0], a[1], p)
    d.info = dict(d.info, text=r.info.get('text', ()))
    x.free_region(r)
    if x.decide_eq(x.sview(a[1], 32)):
        return x.c(p)
    x.free_region(d)
    return ZERO


def m_g_string_free_and_steal(x, a, i):
    return m_g_string_free(x, [a[0], ZERO], i)


def m_gutil_log_assert(x, a, i):
    x.event('assert-failed')


def m_llvm_trap(x, a, i):
    raise PathEnd()


def m_abort(x, a, i):
    raise PathEnd()


m_g_assertion_message_expr = m_g_abort = m_exit = m___assert_fail = m_abort


def m_g_log(x, a, i):
    x.event('critical', 'g_log')


m_g_return_if_fail_warning = m_g_log


# the logging entry points as seen from the other modules
def _logger(name, fi):
    def f(x, a, i):
        x.count('format')
        fmtcheck(x, a, fi)
        x.event('log', name, *[y for y in a if y is not None])
    return f


m_gutil_log = _logger('gutil_log', 2)
m_gutil_log2 = _logger('gutil_log2', 2)
m_gutil_log_enabled = _eff('gutil_log_enabled', 'bool')
m_gutil_log_dump = _eff('gutil_log_dump')
m_gutil_log_dump_bytes = _eff('gutil_log_dump_bytes')


# ------------------------------------------------------------- GLib shorthands
def m_g_clear_error(x, a, i):
    if x.decide_eq(a[0]):
        return None
    e = x.load(a[0], 8, True)
    if not x.decide_eq(e):
        x.dispatch('g_error_free', [e], i, None)
        x.store(a[0], ZERO, 8)
    return None


def m_g_clear_pointer(x, a, i):
    p = x.load(a[0], 8, True)
    if not x.decide_eq(p):
        x.store(a[0], ZERO, 8)
        f = x.c(a[1]).single()
        if f is not None and f.kind == 'func':
            x.dispatch(f.tag, [p], i, None)
        else:
            x.callback(x.c(a[1]), [p], i)
    return None


def m_g_ascii_digit_value(x, a, i):
    c = x.sview(a[0], 8)
    return c - 48 if x.decide_ge(c - 48) and x.decide_ge(K(57) - c) else K(-1)


def _case(lo, hi, d):
    def f(x, a, i):
        c = x.sview(a[0], 8)
        return c + d if x.decide_ge(c - lo) and x.decide_ge(K(hi) - c) else c
    return f


m_g_ascii_tolower = _case(65, 90, 32)
m_g_ascii_toupper = _case(97, 122, -32)


def m_g_strndup(x, a, i):
    if x.decide_eq(a[0]):
        return ZERO
    n = x.uview(a[1], 64)
    r = x.alloc('g_malloc', n + 1, 'zero', CHAR_T)
    l = cstr(x, a[0], 'g_strndup')
    m = l if x.decide_ge(n - l) else n
    sr, so = x.resolve(a[0])
    if m is l:
        r.head = W('copy', ZERO, l + 1, None, (sr.copy(), so, sr.head), r.head)
        r.info['cstr'] = (r.head, l)
        r.info['dup_of'] = x.c(a[0])
        x.event('alloc', r.ptr(), n + 1)
        x.event('strdup', r.ptr(), x.c(a[0]))
        return r.ptr()
    r.head = W('copy', ZERO, m, None, (sr.copy(), so, sr.head), r.head)
    r.info['cstr'] = (r.head, m)
    x.event('alloc', r.ptr(), n + 1)
    return r.ptr()
