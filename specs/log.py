"""Logging: the gate (C14), the back ends (C15), the configuration (C16)."""
from spec import *
import models
from misc import ghost, gbytes, block

MODS = ['gutil_log', 'gutil_misc']
NONE, ALWAYS, INHERIT = 0, -2, -1
DISABLE, HIDE = 2, 1
FUNC = {'k': 'ptr', 'to': {'k': 'func'}}


def gvar(x, name):
    if name not in x.mod.globals:
        raise Anchor('variable %s is not defined' % name)
    return x.gregion(name, {})


def deflt(x):
    return Obj(x, gvar(x, 'gutil_log_default'), 'glog_module')


def bit(x, v, mask):
    return x.decide_eq(x.bitop('and', x.uview(v, 32), K(mask), 32))


def fnparam(x, name, null=True):
    return pptr(x, name, VOIDP, null)


def mkmod(x, i, parent, logproc):
    m = obj(x, 'module%d' % i, 'glog_module')
    m.set('parent', parent)
    if logproc is not None:
        m.set('log_proc', logproc)
    return m


def setup(x, depth, proc=True):
    """a chain of modules, NULL for depth 0; returns (pointer, chain, default proc, log_proc)"""
    f2 = fnparam(x, 'log_func2')
    x.rstore(gvar(x, 'gutil_log_func2'), ZERO, f2, 8)
    d = deflt(x)
    d.set('parent', ZERO)
    lp = fnparam(x, 'log_proc') if proc else ZERO
    if depth == 0:
        d.set('log_proc', lp)
        return ZERO, [d], f2, lp
    chain = []
    p = d.ptr if x.choose(2) else ZERO
    if p != ZERO:
        chain.append(d)
    for i in range(depth):
        m = mkmod(x, depth - 1 - i, p, lp if i == depth - 1 else None)
        chain.insert(0, m)
        p = m.ptr
    return p, chain, f2, lp


def gate(x, chain, f2, level):
    """is a message of this level to be logged?"""
    if x.decide_eq(level):
        return False
    if x.decide_eq(f2):
        return False
    d = deflt(x)
    for i, m in enumerate(chain):
        if not bit(x, m.get('flags'), DISABLE):
            return False
        lv = x.sview(m.get('level'), 32)
        if x.decide_eq(lv + 1):
            if i + 1 < len(chain):
                continue
            lv = x.sview(d.get('level'), 32)
        break
    if x.decide_eq(level + 2):
        return True
    return x.decide_ge(level - 1) and x.decide_ge(lv - level)


def backend(x, what, want, mp, f2, lp, level, fmt, va=None):
    """the back end is called once if want, otherwise nothing happens at all"""
    cb = evs(x, 'cb')
    if not want:
        check(x, not cb, what + ': nothing is logged if it is not enabled', 'gate')
        check(x, not evs(x, 'vsnprintf', 'print', 'vprint', 'alloc', 'foreach'), what + ': nothing is formatted', 'gate')
        return None
    if not check(x, len(cb) == 1, what + ': an enabled message reaches the back end once', 'gate'):
        return None
    e = cb[0]
    x.prove_eq(e.a[0], f2 if x.decide_eq(lp) else lp, what + ': the back end of the module or the default one')
    m = deflt(x).ptr if mp == ZERO else mp
    x.prove_eq(e.a[1], m, what + ': the module it was called with')
    x.prove_eq(x.sview(e.a[2], 32), level, what + ': the level')
    if fmt is not None:
        x.prove_eq(e.a[3], fmt, what + ': the format')
    if va is not None:
        x.prove_eq(e.a[4], va, what + ': the arguments')
    return e


def nowrites(x, what):
    d = gvar(x, 'gutil_log_default')
    for name in ('gutil_log_default', 'gutil_log_func', 'gutil_log_func2', 'gutil_log_tid', 'gutil_log_timestamp'):
        pass


def gates(depth, thorough=False):
    @contract(['C14', 'C02'] if depth < 3 else 'C14', 'gate %d' % depth, MODS, rec_depth=8, thorough=thorough)
    def f(x):
        mp, chain, f2, lp = setup(x, depth)
        level = pint(x, 'level')
        want = gate(x, chain, f2, level)
        r = x.call('gutil_log_enabled', mp, level)
        check(x, is_true(x, r) == want, 'log_enabled: tells if a message would be logged', 'gate')
        check(x, not evs(x, 'cb', 'alloc', 'print', 'vprint', 'vsnprintf'), 'log_enabled: has no effect')
        fm, _ = cstring(x, 'format')
        if x.choose(2):
            va = buffer(x, 'va', K(24))
            x.call('gutil_logv', mp, level, fm.ptr(), va.ptr())
            backend(x, 'logv', want, mp, f2, lp, level, fm.ptr(), va.ptr())
        else:
            a1, a2 = pptr(x, 'arg1'), pptr(x, 'arg2')
            fn = x.mod.fns.get('gutil_log')
            if fn is None:
                raise Anchor('gutil_log is not defined')
            x.last_call = fn
            seen = []

            def hook(x, fnv, args, i):
                r, off = x.lookup(args[3])
                if r is None:
                    return
                ap, o = x.lookup(x.rload(r, off + 8, 8, True))
                if ap is not None:
                    seen.append((x.rload(ap, o, 8), x.rload(ap, o + 8, 8)))
            x.cb_hook = hook
            x.invoke(fn, [mp, level, fm.ptr(), a1, a2])
            x.cb_hook = None
            if backend(x, 'log', want, mp, f2, lp, level, fm.ptr()) is not None:
                if check(x, len(seen) == 1, 'log: the arguments are passed on'):
                    x.prove_eq(seen[0][0], a1, 'log: first argument')
                    x.prove_eq(seen[0][1], a2, 'log: second argument')
        for m in chain:
            check(x, m.r.head is None or m.r.head.k == 'cell', 'logging does not change modules')


for _d in range(5):
    gates(_d, _d > 3)


@contract(['C14', 'C03', 'C02'], 'default back end', MODS)
def c_default_proc(x):
    """the initial value of gutil_log_func2 forwards to gutil_log_func"""
    x.ginit = True
    f = x.mod.globals.get('gutil_log_func2', {}).get('init')
    if not f or f[0] != 'f':
        raise Anchor('gutil_log_func2 has no initial function')
    check(x, x.mod.globals['gutil_log_func'].get('init', [''])[:1] == ['f'], 'gutil_log_func has an initial function')
    fn = fnparam(x, 'log_func')
    x.rstore(gvar(x, 'gutil_log_func'), ZERO, fn, 8)
    level = pint(x, 'level')
    x.assume_ge(level - 1)
    isnull = x.choose(2)
    if isnull:
        m = deflt(x)
        nm, fl = pptr(x, 'name', CHAR_T), pint(x, 'flags')
        m.set('name', nm)
        m.set('flags', fl)
        m.set('level', level)
        m.set('log_proc', ZERO)
        mp = ZERO
    else:
        deflt(x).set('name', pptr(x, 'default name', CHAR_T))
        deflt(x).set('flags', pint(x, 'default flags'))
        m = mkmod(x, 0, ZERO, ZERO)
        mp = m.ptr
        x.assume_ge(x.sview(m.get('level'), 32) - level)
    if not bit(x, m.get('flags'), DISABLE):
        raise PathEnd()
    hide = not bit(x, m.get('flags'), HIDE)
    fm, _ = cstring(x, 'format')
    va = buffer(x, 'va', K(24))
    x.call('gutil_logv', mp, level, fm.ptr(), va.ptr())
    cb = evs(x, 'cb')
    if x.decide_eq(fn):
        check(x, not cb, 'no back end: nothing is called')
        return
    if check(x, len(cb) == 1, 'default back end: one call', 'gate'):
        e = cb[0]
        x.prove_eq(e.a[0], fn, 'default back end: calls gutil_log_func')
        x.prove_eq(e.a[1], ZERO if hide else m.get('name'), 'default back end: the name of the module unless it is hidden')
        x.prove_eq(x.sview(e.a[2], 32), level, 'default back end: level')
        x.prove_eq(e.a[3], fm.ptr(), 'default back end: format')
        x.prove_eq(e.a[4], va.ptr(), 'default back end: arguments')


@contract(['C14', 'C02'], 'assert', MODS, rec_depth=8)
def c_assert(x):
    mp, chain, f2, lp = setup(x, x.choose(2))
    level = pint(x, 'level')
    want = gate(x, chain, f2, level)
    ex, _ = cstring(x, 'expr')
    fl, _ = cstring(x, 'file')
    x.call('gutil_log_assert', mp, level, ex.ptr(), fl.ptr(), pint(x, 'line'))
    backend(x, 'log_assert', want, mp, f2, lp, level, None)


def dumps(kind, depth, lines, thorough=False):
    @contract(['C14', 'C02', 'C03'], 'dump %s %d' % (kind, depth), MODS, rec_depth=8, unrollall=lines + 2, thorough=thorough, maxpaths=20000)
    def f(x):
        mp, chain, f2, lp = setup(x, depth)
        level = pint(x, 'level')
        want = gate(x, chain, f2, level)
        st = dict(n=0)
        prefix = x.choose(2) if kind == 'data' else 0
        if kind == 'data':
            n = pint(x, 'size', 8, False, 0, 1 << 62)
            p, d = block(x, 'data', n)
            pr = cstring(x, 'prefix')[0].ptr() if prefix else ZERO
            args = ['gutil_log_dump', mp, level, pr, p, n]
        else:
            b, n, d = gbytes(x, 'bytes')
            args = ['gutil_log_dump_bytes', mp, level, ZERO, b]
        base = d.ptr() if d is not None else ZERO

        def hexdump(x, a, i):
            """what gutil_hexdump does (C12): up to 16 bytes per call; only the
            first lines are looked at, the rest of a longer block is cut off"""
            k = len(evs(x, 'hexdump'))
            r, off = x.resolve(a[0], 'hexdump buffer')
            x.bounds_check(r, off, K(HEXBUF), 'hexdump buffer')
            cnt = x.uview(a[2], 32)
            x.prove_eq(a[1], base + 16 * k, 'dump: lines cover the data in order', 'sequence')
            left = x.c(n - 16 * k)
            if x.decide_ge(left - 16):
                x.prove_ge(cnt - 16, 'dump: full lines', 'sequence')
                x.prove_ge(left - cnt, 'dump: nothing behind the data', 'sequence')
                c = K(16)
                if k + 1 >= lines:
                    raise PathEnd()
            else:
                x.prove_eq(cnt, left, 'dump: the last line', 'sequence')
                c = left
            r.head = absint.W('hv', off, K(HEXBUF), None, 'hex%d' % x.st.ctr, r.head)
            r.info['cstr'] = (r.head, off + x.fresh('hexlen', 0, HEXBUF - 1))
            x.event('hexdump', a[1], c, a[0])
            return c
        x.stub['gutil_hexdump'] = hexdump
        x.call(*args)
        if not want or n is None:
            check(x, not evs(x, 'hexdump'), 'dump: nothing is formatted', 'gate')
            return backend(x, 'dump', False, mp, f2, lp, level, None)
        hd, cb = evs(x, 'hexdump'), evs(x, 'cb')
        x.prove_ge(K(16 * len(hd)) - n, 'dump: all of the data')
        x.prove_ge(n - 16 * len(hd) + 15, 'dump: no extra lines')
        check(x, len(cb) == len(hd), 'dump: every line goes to the back end once', 'gate')
        seq = [e.kind for e in evs(x, 'hexdump', 'cb')]
        check(x, seq == ['hexdump', 'cb'] * len(hd), 'dump: each line is logged before the next one is formatted', 'sequence')
        back = f2 if x.decide_eq(lp) else lp
        m = deflt(x).ptr if mp == ZERO else mp
        for e in cb:
            x.prove_eq(e.a[0], back, 'dump: the back end of the module or the default one')
            x.prove_eq(e.a[1], m, 'dump: the module')
            x.prove_eq(x.sview(e.a[2], 32), level, 'dump: the level')
        no_leaks(x)


HEXBUF = 70
for _k in ('data', 'bytes'):
    dumps(_k, 0, 3)
    dumps(_k, 1, 3)
    dumps(_k, 2, 5, True)


# --------------------------------------------------------------------- C15
def fmtparts(f):
    """literal text and conversions of a format"""
    import re
    out, pos = [], 0
    for m in re.finditer(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(?:hh|h|ll|l|z|j|t|q)?([a-zA-Z%])', f):
        if m.start() > pos:
            out.append(f[pos:m.start()])
        out.append('%' if m.group(4) == '%' else (m.group(4), m.group(1), m.group(2), m.group(3)))
        pos = m.end()
    if pos < len(f):
        out.append(f[pos:])
    return out


def render(x, fmt, args, depth=0):
    """what a printf call prints: literal text, strings and numbers"""
    f = models.conststr(x, fmt)
    if f is None:
        # a format put together at run time: fine only without text of the message
        k = rstring(x, x.c(fmt), depth + 1)
        if any(t[0] in ('msg', 'cut') for t in k):
            return [('used as a format:', x.c(fmt))]
        return [('?', x.c(fmt))]
    out = []
    args = list(args)
    for p in fmtparts(f):
        if isinstance(p, str):
            out.append(('lit', p))
            continue
        cv, fl, wd, pr = p
        if wd == '*' and args:
            wd = args.pop(0)
        if pr == '*' and args:
            pr = args.pop(0)
        v = x.c(args.pop(0)) if args else ZERO
        plain = not wd and not pr
        if cv == 's':
            out += rstring(x, v, depth) if plain else [('fmt%s.%s' % (wd, pr), v)]
        else:
            out.append(('num', x.sview(v, 32) if cv in 'di' else v))
    return out


def rstring(x, p, depth=0):
    s = models.conststr(x, p)
    if s is not None:
        return [('lit', s)]
    r, off = x.lookup(p)
    if r is not None and depth < 4:
        h = r.info.get('fmt_need')
        if h and h[0] is r.head and off == ZERO:
            need, n, f = h[1], h[2], h[3]
            if x.entails_ge(need) and x.entails_ge(n - need - 1):
                return [('msg', f)]
            return [('cut', f)]
        h = r.info.get('concat')
        if h and h[0] is r.head and off == ZERO:
            return [t for q in h[1] for t in rstring(x, q, depth + 1)]
        h = r.info.get('printed')
        if h and h[0] is r.head and off == ZERO:
            return render(x, h[1][0], h[1][1:], depth + 1)
        v = x.rload(r, off, 1)
        if v.isconst() and v.c == 0:
            return []
        c = r.info.get('cstr')
        if c and c[0] is r.head and off == ZERO and x.entails_eq(c[1]):
            return []
        t = r.info.get('tmend')
        if t and t[0] is not r.head and off == ZERO and r.head.k == 'cell' and r.head.prev is t[0] and r.head.size == 1 and \
                x.entails_eq(L(r.head.off) - t[1]) and L(r.head.val) == ZERO:
            return [('time', p)]   # terminated where it ends
        if r.head is not None and r.head.k == 'hv' and str(r.head.x).startswith('tm'):
            return [('time', p)]
    return [('str', x.c(p))]


def merge(toks):
    out = []
    for t in toks:
        if t[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + t[1])
        elif t != ('lit', ''):
            out.append(t)
    return out


def private(x, what):
    """messages of different threads do not share memory"""
    for r in x.st.regof.values():
        if r.kind == 'global' and not r.readonly:
            h = r.head
            while h is not None:
                if h.k == 'hv':
                    fail(x, 'text', '%s: text is formatted in static memory (%s), which other threads use, too' % (what, r.base))
                    break
                h = h.prev
    for e in evs(x, 'static'):
        fail(x, 'text', '%s: %s() returns static memory, which other threads use, too' % (what, e.a[0]))


def same(x, what, got, want):
    got, want = merge(got), merge(want)
    def show(ts):
        return ' '.join('"%s"' % t[1].replace('\n', '\\n') if t[0] == 'lit' else '<%s %s>' % (t[0], t[1]) for t in ts)
    okk = len(got) == len(want)
    if okk:
        for g, w in zip(got, want):
            if g[0] != w[0] or (g[1] != w[1] if g[0] == 'lit' else not x.entails_eq(L(g[1]) - w[1])):
                okk = False
    check(x, okk, '%s: prints %s, expected %s' % (what, show(got), show(want)), 'text')


TID = 186


def tidtok(x, what):
    """the thread id, if it is asked for"""
    if x.decide_eq(x.sview(x.rload(gvar(x, 'gutil_log_tid'), ZERO, 4), 32)):
        return []
    e = [q for q in evs(x, 'syscall') if x.entails_eq(q.a[0] - TID)] + evs(x, 'gettid')
    if not check(x, len(e) >= 1, what + ': the thread id is obtained'):
        return []
    return [('lit', '['), ('num', x.sview(e[-1].a[-1], 32)), ('lit', '] ')]


def timetok(x, what, empty):
    """the time stamp, if there is one"""
    e = evs(x, 'strftime')
    if x.decide_eq(x.sview(x.rload(gvar(x, 'gutil_log_timestamp'), ZERO, 4), 32)) or empty:
        check(x, not e, what + ': no time stamp')
        return []
    if not check(x, len(e) == 1, what + ': time stamp'):
        return []
    x.st.notes = dict(x.st.notes, tmfmt=e[0].a[2])
    now = [q for q in evs(x, 'localtime_r') if x.entails_eq(q.a[1] - e[0].a[4])]
    if now:
        check(x, any(x.entails_eq(now[-1].a[2] - q.a[0]) for q in evs(x, 'time')), what + ': the time stamp is the current time')
    if x.entails_eq(e[0].a[3]):
        return []
    return [('time', e[0].a[0])]


def name_param(x, null=True):
    """NULL, empty or not"""
    k = x.choose(3 if null else 2)
    if k == 2:
        return ZERO, False
    r, n = cstring(x, 'name')
    if k == 1:
        x.assume_eq(n)
        return r.ptr(), False
    x.assume_ge(n - 1)
    return r.ptr(), True


def stdio(fnname, stream, two, tf):
    """tf: 0 default time format, 1 a custom one, 2 reset to the default, 3 empty"""
    @contract(['C15', 'C02'], '%s %d' % (fnname, tf), MODS, maxpaths=20000, unrollall=16)
    def f(x):
        x.ginit = True
        for g in ('gutil_log_tid', 'gutil_log_timestamp'):
            gvar(x, g).init = 'sym'
        tr = None
        if tf:
            tr, tn = cstring(x, 'timeformat')
            if tf == 3:
                x.assume_eq(tn)
            else:
                x.assume_ge(tn - 1)
            x.call('gutil_log_set_timestamp_format', tr.ptr())
            if tf == 2:
                x.call('gutil_log_set_timestamp_format', ZERO)
        level = pint(x, 'level')
        fm, _ = cstring(x, 'format')
        va = buffer(x, 'va', K(24))
        nm, has = name_param(x)
        n0 = len(x.st.events)
        if two:
            if nm == ZERO and x.choose(2):
                x.call(fnname, ZERO, level, fm.ptr(), va.ptr())
            else:
                m = obj(x, 'module', 'glog_module')
                m.set('name', nm)
                x.call(fnname, m.ptr, level, fm.ptr(), va.ptr())
        else:
            x.call(fnname, nm, level, fm.ptr(), va.ptr())
        out = evs(x, 'print', 'vprint', 'fputs', 'fputc', 'puts')
        what = fnname
        if not check(x, len(out) == 1, what + ': one output call per message', 'text'):
            return
        if not (out[0].kind == 'print' and out[0].a[0] in ('fprintf', 'g_fprintf')):
            # a message put together elsewhere
            fail(x, 'text', what + ': what is printed is not known', undecided=True)
            return
        e = out[0]
        x.prove_eq(e.a[1], x.rload(gvar(x, stream), ZERO, 8, True), what + ': the stream')
        got = render(x, e.a[2], e.a[3:])
        pre = ''
        if x.decide_eq(level - 2):
            pre = 'WARNING: '
        elif x.decide_eq(level - 1):
            pre = 'ERROR: '
        want = tidtok(x, what) + timetok(x, what, tf == 3)
        if has:
            want += [('lit', '['), ('str', nm), ('lit', '] ')]
        want += [('lit', pre), ('msg', fm.ptr()), ('lit', '\n')]
        same(x, what, got, want)
        private(x, what)
        tfm = x.st.notes.get('tmfmt')
        if tfm is not None:
            s = models.conststr(x, tfm)
            if tf == 1:
                r, off = x.lookup(tfm)
                cp = [q for q in evs(x, 'strdup') if x.entails_eq(q.a[-1] - tfm)]
                check(x, s is None and (bool(cp) or r is not None and r.kind == 'alloc'), what + ': uses a copy of the time format that was set')
                check(x, r is not None and not r.freed, what + ': the time format is alive')
            else:
                check(x, s == '%Y-%m-%d %H:%M:%S ', what + ': uses the default time format', undecided=s is None)
        no_leaks(x)


for _f, _s, _t in (('gutil_log_stdout', 'stdout', 0), ('gutil_log_stderr', 'stderr', 0), ('gutil_log_stdout2', 'stdout', 1), ('gutil_log_stderr2', 'stderr', 1)):
    for _m in ((0, 1, 2, 3) if _f == 'gutil_log_stdout' else (0,)):
        stdio(_f, _s, _t, _m)

PRIO = {1: (3, 'ERROR! '), 2: (4, 'WARNING! '), 4: (6, ''), 5: (7, '')}


def sysl(fnname, two):
    @contract(['C15', 'C02'], fnname, MODS, maxpaths=20000, unrollall=16)
    def f(x):
        level = pint(x, 'level')
        fm, _ = cstring(x, 'format')
        va = buffer(x, 'va', K(24))
        nm, has = name_param(x)
        d = deflt(x)
        k = x.choose(3)
        dn, dnn = cstring(x, 'default name')
        dp = ZERO if k == 0 else nm if k == 1 else dn.ptr()
        d.set('name', dp)
        if two:
            m = obj(x, 'module', 'glog_module')
            m.set('name', nm)
            p = m.ptr
            if nm == ZERO and x.choose(2):
                p = ZERO
            x.call(fnname, p, level, fm.ptr(), va.ptr())
        else:
            x.call(fnname, nm, level, fm.ptr(), va.ptr())
        out = evs(x, 'print', 'vprint')
        what = fnname
        if not check(x, len(out) == 1 and out[0].a[0] in ('syslog', 'vsyslog'), what + ': one message', 'text'):
            return
        e = out[0]
        pr, pre = 5, ''
        for lv, (a, b) in PRIO.items():
            if x.decide_eq(level - lv):
                pr, pre = a, b
        x.prove_eq(x.sview(e.a[1], 32), pr, what + ': priority')
        if has and (k == 1 or k == 2 and x.decide_eq(models.m_g_strcmp0(x, [nm, dp], {}))):
            has = False
        want = tidtok(x, what)
        if has:
            want += [('lit', '['), ('str', nm), ('lit', '] ')]
        want += [('lit', pre), ('msg', fm.ptr())]
        if e.kind == 'vprint':
            got = [('msg', e.a[2])]
            x.prove_eq(e.a[3], va.ptr(), what + ': arguments')
        else:
            got = render(x, e.a[2], e.a[3:])
        same(x, what, got, want)
        private(x, what)
        no_leaks(x)


sysl('gutil_log_syslog', 0)
sysl('gutil_log_syslog2', 1)


def glibl(fnname, two):
    @contract(['C15', 'C02'], fnname, MODS)
    def f(x):
        level = pint(x, 'level')
        fm, _ = cstring(x, 'format')
        va = buffer(x, 'va', K(24))
        nm, has = name_param(x)
        if two:
            m = obj(x, 'module', 'glog_module')
            m.set('name', nm)
            p = m.ptr
            if nm == ZERO and x.choose(2):
                p = ZERO
            x.call(fnname, p, level, fm.ptr(), va.ptr())
        else:
            x.call(fnname, nm, level, fm.ptr(), va.ptr())
        out = evs(x, 'print', 'vprint')
        if not check(x, len(out) == 1 and out[0].a[0] == 'g_logv', fnname + ': one message', 'text'):
            return
        e = out[0]
        flags = 1 << 5
        for lv, fl in ((1, 1 << 3), (2, 1 << 4), (4, 1 << 6), (5, 1 << 7)):
            if x.decide_eq(level - lv):
                flags = fl
        if not has and nm != ZERO:
            check(x, e.a[1] in (nm, ZERO), fnname + ': log domain')
        else:
            x.prove_eq(e.a[1], nm, fnname + ': log domain')
        x.prove_eq(x.sview(e.a[2], 32), flags, fnname + ': level')
        x.prove_eq(e.a[3], fm.ptr(), fnname + ': format')
        x.prove_eq(e.a[4], va.ptr(), fnname + ': arguments')


glibl('gutil_log_glib', 0)
glibl('gutil_log_glib2', 1)


@contract(['C15', 'C02', 'C03'], 'time format', MODS)
def c_timefmt(x):
    """setting and resetting the format in any order neither leaks nor frees the
    strings of the caller; the library destructor releases it"""
    x.ginit = True
    seq = [x.choose(3) for _ in range(3)]
    a, na = cstring(x, 'f1')
    b, nb = cstring(x, 'f2')
    for k in seq:
        x.call('gutil_log_set_timestamp_format', (ZERO, a.ptr(), b.ptr())[k])
        no_leaks(x)
    check(x, not a.freed and not b.freed, 'set_timestamp_format: keeps the strings of the caller')
    g = x.mod.globals.get('llvm.global_dtors')
    if g:
        for s in g['init'][2]:
            f = s[2][1]
            if f[0] == 'f':
                x.invoke(x.mod.fns[g['ren'].get(f[1], f[1])], [])
        check(x, not [r for r in x.st.regof.values() if r.kind == 'alloc' and not r.freed], 'unloading the library releases the time format')


# --------------------------------------------------------------------- C16
LEVELS = ['none', 'error', 'warning', 'info', 'debug', 'verbose']
TYPES = {'stdout': 'gutil_log_stdout', 'stderr': 'gutil_log_stderr', 'syslog': 'gutil_log_syslog', 'glib': 'gutil_log_glib'}


def literal(x, name, s):
    """a constant string"""
    r = x.region(name, 'ext', K(len(s) + 1), 'sym', CHAR_T)
    r.nulterm = (1, K(len(s)), CHAR_T)
    r.info = {'sep': 1}
    r.readonly = True
    r.init = lambda x, r, off, size, isptr: K((s + '\0').encode()[off.c]) if size == 1 and off.isconst() else None
    return r


UCHAR_T = {'k': 'int', 'size': 1, 'signed': False, 'td': 'guchar'}


def text(x, name, n):
    """a string of n unknown characters"""
    r, _ = cstring(x, name, K(n), readonly=True)
    r.nulterm = (1, r.nulterm[1], UCHAR_T)
    r.ty = UCHAR_T
    cs = []
    for k in range(n):
        c = x.uview(x.rload(r, K(k), 1), 8)
        x.assume_ne(c, False)
        cs.append(x.c(c))
    return r, cs


def eqfold(x, cs, s):
    if len(cs) != len(s):
        return False
    for c, t in zip(cs, s):
        if not models.same_fold(x, c, ord(t)):
            return False
    return True


def level_of(x, cs):
    if not cs:
        return None
    if len(cs) == 1 and x.decide_ge(cs[0] - 48) and x.decide_ge(K(53) - cs[0]):
        return x.c(cs[0] - 48)
    for i, s in enumerate(LEVELS):
        if len(cs) <= len(s) and all(x.decide_eq(c - ord(t)) for c, t in zip(cs, s)):
            return K(i)
    return None


def options(n, names, thorough=False):
    @contract(['C16', 'C02'], 'option %d %s' % (n, '/'.join(names)), MODS, unrollall=40, maxpaths=40000, thorough=thorough)
    def f(x):
        opt, cs = text(x, 'opt', n)
        mods = []
        for i, s in enumerate(names):
            m = obj(x, 'module%d' % i, 'glog_module')
            m.set('name', literal(x, 'name%d' % i, s).ptr())
            mods.append(m)
        if mods:
            v = buffer(x, 'modules', K(8 * len(mods)), {'k': 'ptr', 'to': struct_t('glog_module')})
            for i, m in enumerate(mods):
                x.rstore(v, K(8 * i), m.ptr, 8)
            vp = v.ptr()
        else:
            vp = ZERO
        err = None
        if x.choose(2):
            err = buffer(x, 'error', K(8))
            x.rstore(err, ZERO, ZERO, 8)
        d = deflt(x)
        others = [(g, gvar(x, g)) for g in ('gutil_log_func', 'gutil_log_func2', 'gutil_log_tid', 'gutil_log_timestamp')]
        heads = [r.head for _, r in others]
        every_level = [(m, x.sview(m.get('level'), 32), m.r.head) for m in mods + [d]]
        r = x.call('gutil_log_parse_option', opt.ptr(), vp, K(len(mods)), err.ptr() if err else ZERO)
        for (g, rg), h in zip(others, heads):
            check(x, rg.head is h, 'log option: %s does not change' % g)
        sep = None
        for k, c in enumerate(cs):
            if x.decide_eq(c - 58):
                sep = k
                break
        target, lv = None, level_of(x, cs if sep is None else cs[sep + 1:])
        if lv is not None:
            if sep is None:
                target = d
            else:
                for m, s in zip(mods, names):
                    if eqfold(x, cs[:sep], s):
                        target = m
                        break
        okk = is_true(x, r)
        check(x, okk == (target is not None), 'log option: %s' % ('accepted although it is not valid' if okk else 'refused although it is valid'))
        if okk != (target is not None):
            return
        for m, old, h in every_level:
            if m is target:
                x.prove_eq(x.sview(m.get('level'), 32), lv, 'log option: the level that was asked for')
                o = m.fld('level')[0]
                w = m.r.head
                while w is not None and w is not h:
                    check(x, w.k == 'cell' and x.entails_eq(w.off - o) and w.size == 4, 'log option: nothing but the level is changed')
                    w = w.prev
            else:
                check(x, m.r.head is h or x.entails_eq(x.sview(m.get('level'), 32) - old), 'log option: the levels of the others do not change')
        ge = evs(x, 'g_error_new')
        if err is not None and not okk:
            if check(x, len(ge) == 1, 'log option: one error'):
                x.prove_eq(x.rload(err, ZERO, 8, True), ge[0].a[-1], 'log option: the error is returned')
        else:
            check(x, not ge, 'log option: no error')
            if err is not None:
                x.prove_eq(x.rload(err, ZERO, 8, True), 0, 'log option: the error is not touched')
        no_leaks(x)


for _n in range(10):
    options(_n, ['net', 'netmon'])
options(4, [])
options(10, ['net', 'Net', 'NET2'])
for _n in range(10, 16):
    options(_n, ['net', 'netmon'], True)


def types(n, thorough=False):
    @contract(['C16', 'C02'], 'type %d' % n, MODS, unrollall=40, thorough=thorough)
    def f(x):
        t, cs = text(x, 'type', n)
        fv = gvar(x, 'gutil_log_func')
        k = x.choose(6)
        if k < 4:
            old = x.funcptr(sorted(TYPES.values())[k])
        else:
            old = ZERO if k == 4 else pptr(x, 'custom', VOIDP, False)
            for s in TYPES.values():
                x.assume_ne(old - x.funcptr(s), False)
        x.rstore(fv, ZERO, old, 8)
        d = deflt(x)
        n0 = d.get('name')
        dn = ZERO if x.choose(2) else cstring(x, 'default_name')[0].ptr()
        others = [(g, gvar(x, g)) for g in ('gutil_log_func2', 'gutil_log_tid', 'gutil_log_timestamp')]
        heads = [r.head for _, r in others]
        r = x.call('gutil_log_set_type', t.ptr(), dn)
        want = None
        for s, fn in TYPES.items():
            if eqfold(x, cs, s):
                want = (s, fn)
        okk = is_true(x, r)
        check(x, okk == (want is not None), 'log type: %s' % ('an unknown type is accepted' if okk else 'a known type is refused'))
        now = x.rload(fv, ZERO, 8, True)
        opened, closed = len(evs(x, 'openlog')), len(evs(x, 'closelog'))
        if want:
            was, will = x.decide_eq(old - x.funcptr(TYPES['syslog'])), want[0] == 'syslog'
            check(x, opened == (will and not was), 'log type: the system log is opened when switching to it')
            check(x, closed == (was and not will), 'log type: the system log is closed when switching away from it')
        else:
            check(x, not opened, 'log type: an unknown type does not open the system log')
        if want and okk:
            x.prove_eq(now, x.funcptr(want[1]), 'log type: the back end that was asked for')
            x.prove_eq(d.get('name'), n0 if dn == ZERO else dn, 'log type: the default name')
        elif not okk:
            x.prove_eq(now, old, 'log type: an unknown type keeps the back end')
        for (g, r), h in zip(others, heads):
            check(x, r.head is h, 'log type: %s does not change' % g)
        q = x.call('gutil_log_get_type')
        s = models.conststr(x, q)
        have = [s2 for s2, fn in TYPES.items() if x.entails_eq(now - x.funcptr(fn))]
        check(x, s == (have[0] if have else 'custom'), 'log type: %s is reported as %s' % (have[0] if have else 'custom', s))


for _n in (0, 3, 4, 5, 6, 7):
    types(_n)
for _n in (1, 2, 8, 9, 10):
    types(_n, True)


MEANING = ['Disable log output', 'Errors only', 'From warning level to errors', 'From information level to errors',
           'From debug messages to errors', 'From verbose trace messages to errors']
DEFAULT_LEVEL = 3


def gstext(x, q):
    """what a string made with GString consists of, None if that is not known"""
    r, off = x.lookup(q)
    if r is None or off != ZERO or 'text' not in r.info:
        return None
    out = []
    for t in r.info['text']:
        if t[0] == 'str':
            out += rstring(x, t[1])
        elif t[0] == 'fmt':
            out += render(x, t[1], t[2:])
        elif t[0] == 'chr' and t[1].isconst():
            out.append(('lit', chr(t[1].c & 255)))
        elif t[0] == 'len':
            s = models.conststr(x, t[1])
            r, off = x.lookup(t[1])
            if s is None and r is not None and r.nulterm and off == ZERO and x.entails_eq(t[2] - r.nulterm[1]):
                out += rstring(x, t[1])
                continue
            if s is None or not t[2].isconst() or not -1 <= t[2].c <= len(s):
                return None
            out.append(('lit', s if t[2].c < 0 else s[:t[2].c]))
        else:
            return None
    res = []
    for t in merge(out):
        s = models.conststr(x, t[1]) if t[0].startswith('fmt') else None
        if t[0] == 'num' and t[1].isconst():
            t = ('lit', str(t[1].c))
        elif s is not None and '.None' in t[0] and t[0][3:-5].isdigit():
            # padding does not matter here
            t = ('lit', s + ' ' * max(1, int(t[0][3:-5]) - len(s)))
        elif t[0] not in ('lit', 'str'):
            return None
        res.append(t)
    return merge(res)


@contract(['C30', 'C02'], 'log description', MODS, unrollall=16)
def c_description(x):
    n = pint(x, 'count', lo=0, hi=1 << 20)
    names = []
    nomods = x.choose(2)
    if nomods:
        q = x.call('gutil_log_description', ZERO, n)
    else:
        i = x.choose(4)
        x.assume_eq(n - i)
        v = buffer(x, 'modules', K(8 * max(i, 1)), {'k': 'ptr', 'to': struct_t('glog_module')})
        for k in range(i):
            m = obj(x, 'module%d' % k, 'glog_module')
            nm, nn = cstring(x, 'name%d' % k)
            x.assume_ge(nn - 1)
            m.set('name', nm.ptr())
            names.append(x.c(m.get('name')))
            x.rstore(v, K(8 * k), m.ptr, 8)
        q = x.call('gutil_log_description', v.ptr(), n)
    x.prove_ne(q, 0, 'log description: a string')
    no_leaks(x, q)
    txt = gstext(x, q)
    if txt is None:
        fail(x, 'text', 'log description: its text is not known', undecided=True)
        return
    # lines of literal text and names
    lines = [[]]
    for t in txt:
        if t[0] == 'lit':
            for k, s in enumerate(t[1].split('\n')):
                if k:
                    lines.append([])
                if s:
                    lines[-1].append(s)
        else:
            lines[-1].append(x.c(t[1]))
    check(x, not lines[-1], 'log description: the last line is complete', 'text')
    known = [l for l in lines if any(not isinstance(s, str) for s in l)]
    want = list(names)
    check(x, len(known) == len(want) and all(sum(not isinstance(s, str) for s in l) == 1 and any(not isinstance(s, str) and x.entails_eq(s - w) for s in l) for l, w in zip(known, want)),
          'log description: a line for every module, in their order', 'text')
    import re
    plain = [''.join(l) for l in lines if l not in known and l]
    lv = []
    for s in plain:
        w = re.split(r'[\s,:;()-]+', s.strip())
        if len(w) > 1 and w[0] in '012345':
            lv.append((int(w[0]), w[1], s))
    check(x, [(a, b) for a, b, _ in lv] == list(enumerate(LEVELS)), 'log description: a line for every level with its number and name', 'text')
    for a, b, s in lv:
        check(x, MEANING[a] in s, 'log description: the meaning of level %d' % a, 'text')
        check(x, ('default' in s) == (a == DEFAULT_LEVEL), 'log description: level %d is %smarked as the default one' % (a, 'not ' if a == DEFAULT_LEVEL else ''), 'text')


@contract('C30', 'log environment', MODS, rec_depth=8)
def c_environment(x):
    """what the constructor of the library makes of the environment"""
    x.ginit = True
    g = x.mod.globals.get('llvm.global_ctors')
    if not g:
        raise Anchor('the library has no constructor')
    names = dict(GUTIL_LOG_DEFAULT_LEVEL='gutil_log_default', GUTIL_LOG_TIMESTAMP='gutil_log_timestamp', GUTIL_LOG_TID='gutil_log_tid')
    env, vals = {}, {}

    def getenv(x, a, i):
        s = models.conststr(x, a[0])
        if s is None:
            return fail(x, 'text', 'an environment variable of unknown name', undecided=True)
        if s not in names:
            return ZERO
        if s not in env:
            env[s] = cstring(x, s)[0].ptr() if x.choose(2) else ZERO
        return env[s]

    def parse(x, a, i):
        """the parser of C13"""
        if x.decide_eq(a[0]):
            return ZERO
        for s, p in env.items():
            if p != ZERO and x.entails_eq(a[0] - p):
                k = s
                if not x.entails_eq(x.sview(a[1], 32)):
                    # the same text may stand for another number, or for none
                    k = s + ' in another base'
                if k not in vals:
                    vals[k] = pint(x, 'value of ' + k) if x.choose(2) else None
                    if k != s and s not in vals:
                        vals[s] = pint(x, 'value of ' + s) if x.choose(2) else None
                if vals[k] is None:
                    return ZERO
                if not x.decide_eq(a[2]):
                    x.store(a[2], vals[k], 4)
                return ONE
        fail(x, 'text', 'something else is parsed', undecided=True)
        return ZERO
    x.stub['getenv'] = x.stub['g_getenv'] = getenv
    x.stub['gutil_parse_int'] = parse
    # messages go to the back end; that is no subject here
    x.stub['gutil_logv'] = lambda x, a, i: models.va_use(x, a[3])
    d = deflt(x)
    old = {f: d.get(f) for f in ('name', 'parent', 'log_proc', 'max_level', 'level', 'flags')}
    flags = {s: x.sview(x.rload(gvar(x, s), ZERO, 4), 32) for s in ('gutil_log_timestamp', 'gutil_log_tid')}
    fns = {s: x.rload(gvar(x, s), ZERO, 8, True) for s in ('gutil_log_func', 'gutil_log_func2')}
    for s in g['init'][2]:
        f = s[2][1]
        if f[0] == 'f':
            x.last_call = x.mod.fns[g['ren'].get(f[1], f[1])]
            x.invoke(x.last_call, [])
    check(x, set(env) == set(names), 'environment: %s is not looked at' % '/'.join(sorted(set(names) - set(env))))
    v = vals.get('GUTIL_LOG_DEFAULT_LEVEL')
    lv = v if v is not None and x.decide_ge(v + 1) else x.sview(old['level'], 32)
    x.prove_eq(x.sview(d.get('level'), 32), lv, 'environment: the default level')
    for f in ('name', 'parent', 'log_proc', 'max_level', 'flags'):
        x.prove_eq(d.get(f), old[f], 'environment: nothing but the default level changes')
    for e, s in list(names.items())[1:]:
        v = vals.get(e)
        now = x.sview(x.rload(gvar(x, s), ZERO, 4), 32)
        if v is not None and x.decide_ge(v):
            check(x, x.decide_eq(now) == x.decide_eq(v), 'environment: %s switches %s on and off' % (e, s))
        else:
            x.prove_eq(now, flags[s], 'environment: %s keeps its value' % s)
    for s, p in fns.items():
        x.prove_eq(x.rload(gvar(x, s), ZERO, 8, True), p, 'environment: %s does not change' % s)


# ------------------------------------------------------------------- macros
MACROS = dict(err=1, warn=2, info=3, debug=4, verbose=5)


def macros(mx, module, gnu=True):
    defs = ['GLOG_LEVEL_MAX=%d' % mx] if mx is not None else []
    if not gnu:
        # compilers without variadic macros get variadic functions
        defs.append('NO_GNU')
    if module:
        defs.append('GLOG_MODULE_NAME=witness_module')

    @contract('C14', 'macros %s %s%s' % (mx, 'module' if module else 'no module', '' if gnu else ' no gnu'), [], defs, extra='logmacros.c')
    def f(x):
        top = 4 if mx is None else mx

        def logv(x, a, i):
            models.va_use(x, a[3])
            va, off = x.resolve(a[3], 'va_list')
            ap, o = x.resolve(x.rload(va, off + 8, 8, True), 'variadic arguments')
            x.event('logv', 'gutil_logv', a[0], a[1], a[2], x.rload(ap, o, 8))
        x.stub['gutil_logv'] = logv
        mod = gvar(x, 'witness_module').ptr() if module else ZERO
        for n, lv in MACROS.items():
            for suf in ('', '_'):
                k = len(x.st.events)
                x.call('w_%s%s' % (n, suf), pint(x, 'arg'))
                e = [q for q in x.st.events[k:] if q.kind in ('log', 'logv')]
                what = 'G%s%s' % (n.upper(), suf)
                if not check(x, len(e) == (lv <= top), '%s: %s' % (what, 'logs' if lv <= top else 'is compiled out'), 'gate') or not e:
                    continue
                x.prove_eq(e[0].a[1], mod, what + ': the current module')
                x.prove_eq(x.sview(e[0].a[2], 32), lv, what + ': its level')
                got = merge(render(x, e[0].a[3], e[0].a[4:]))
                fn = 'w_%s_' % n
                want = [('lit', (fn + '() ' if suf and gnu else '') + 'value '), ('num', pint(x, 'arg'))]
                if not gnu:
                    got = [(p[0], x.sview(p[1], 32)) if p[0] == 'num' else p for p in got]
                same(x, what, got, want)
        for fn, ev in (('w_dump', 'gutil_log_dump'), ('w_dump_bytes', 'gutil_log_dump_bytes'), ('w_enabled', 'gutil_log_enabled')):
            k = len(x.st.events)
            args = [pptr(x, 'p'), pint(x, 'n', 8)][:len(x.mod.fns[fn].d['args'])] if fn != 'w_enabled' else [pint(x, 'level')]
            x.call(fn, *args)
            e = [q for q in x.st.events[k:] if q.kind == ev]
            if not check(x, len(e) == (fn == 'w_enabled' or top >= 4), fn + ': compiled in according to its level', 'gate') or not e:
                continue
            x.prove_eq(e[0].a[0], mod, fn + ': the current module')
            if fn != 'w_enabled':
                x.prove_eq(x.sview(e[0].a[1], 32), 4, fn + ': its level')
                x.prove_eq(e[0].a[2], 0, fn + ': no prefix')
                for got, w in zip(e[0].a[3:], args):
                    x.prove_eq(got, w, fn + ': its data')
            else:
                x.prove_eq(x.sview(e[0].a[1], 32), pint(x, 'level'), fn + ': the level asked for')


for _m in (None, 0, 1, 2, 3, 4, 5):
    macros(_m, False)
    macros(_m, True)
    macros(_m, False, False)
    macros(_m, True, False)


# ------------------------------------------------------- formats, by the compiler
@lint('C15', 'formats and their arguments', [])
def l_formats(M, rep):
    """every call of a printf-like function passes what its literal format asks for"""
    import build, os, re, subprocess
    inc = '-I' + os.path.join(build.REPO, 'include')
    for defs in ([], ['-DDEBUG']):
        for s in build.sources():
            rep.site('formats', os.path.relpath(s, build.REPO) + ' '.join(defs))
            r = subprocess.run([build.LLVM + 'clang', '-fsyntax-only', '-Wno-everything', '-Wformat', inc] + build.pkgflags() + defs + [s], capture_output=True, text=True)
            if r.returncode:
                raise Broken('%s does not compile' % s)
            for l in r.stderr.splitlines():
                m = re.match(r'(.*?):(\d+):(\d+): warning: (.*)', l)
                if m and 'format' in m.group(4) + ' format':
                    rep.violation('format', m.group(4), '', os.path.relpath(m.group(1), build.REPO), int(m.group(2)))
