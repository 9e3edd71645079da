"""Contract library: how a property is stated over the abstract interpreter."""
from lin import *
import absint
from absint import PMAX, VOIDP, CHAR_T, irange, Broken, PathEnd, W

REG = {}
LINTS = {}


class Anchor(Broken):
    """something the property is anchored in is not in the code any more"""


class Contract:
    def __init__(self, prop, name, fn, mods, defs, opts):
        self.prop, self.name, self.fn, self.mods, self.defs, self.opts = prop, name, fn, mods, defs, opts


# A contract may serve several properties. The first one listed is about
# everything the contract states; what the others are about:
MEMORY = {'bad-free', 'badptr', 'bounds', 'double-free', 'leak', 'nonnull', 'null', 'null-call', 'overlap', 'readonly', 'uaf', 'uninit',
          'unterminated', 'va_list', 'format'}
OWNED = {'release', 'lifetime', 'refcount', 'cleanup'}
ABOUT = {'C01': MEMORY | OWNED | {'refs', 'once', 'typestate'},
         'C02': MEMORY | OWNED | {'invariant'},
         'C03': {'nonnull', 'null', 'null-call', 'badptr', 'effect'},
         'C04': MEMORY | OWNED | {'once', 'callback'}}


def about(c, v):
    """whether a report of contract c is about its property"""
    kinds = ABOUT.get(c.prop)
    if kinds is None or c.opts.get('primary') or v['kind'] in kinds:
        return True
    return c.prop == 'C03' and ('null' in c.name.lower() or 'NULL' in v['message'])


def contract(prop, name, mods, defs=(), thorough=False, **opts):
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(fn):
        for p in props:
            REG.setdefault(p, []).append(Contract(p, name, fn, tuple(mods), tuple(defs), dict(opts, thorough=thorough, primary=p == props[0])))
        return fn
    return deco


def lint(prop, name, mods=None, defs=()):
    def deco(fn):
        LINTS.setdefault(prop, []).append(Contract(prop, name, fn, tuple(mods) if mods is not None else None, tuple(defs), {}))
        return fn
    return deco


INT_MAX = (1 << 31) - 1


# ------------------------------------------------------------------ parameters
# counts and positions: INT_MIN cannot even be decremented
NEGMAX = 1 - (1 << 31)


def pint(x, name, size=4, signed=True, lo=None, hi=None):
    a, b = irange(size, signed)
    return L(sym('param', name, (), a if lo is None else lo, b if hi is None else hi))


def pptr(x, name, to=None, null=True):
    return L(sym('param', name, (), 0 if null else 4096, PMAX, True, to or VOIDP))


def struct_t(name):
    return {'k': 'struct', 'name': name}


class Obj:
    """a structure instance with access to its fields by name"""

    def __init__(self, x, region, sname):
        self.x, self.r, self.s = x, region, sname
        st = x.mod.structs.get(sname)
        if not st:
            raise Anchor('structure %s is not defined' % sname)
        self.f = {n: (o, sz, t) for n, o, sz, t in st['fields']}

    def fld(self, name):
        if name not in self.f:
            raise Anchor('%s has no member %s' % (self.s, name))
        return self.f[name]

    def get(self, name, reg=None):
        o, sz, t = self.fld(name)
        return self.x.rload(reg or self.r, K(o), sz, t.get('k') == 'ptr')

    def set(self, name, v):
        o, sz, t = self.fld(name)
        self.x.rstore(self.r, K(o), L(v), sz)

    def addr(self, name):
        return self.r.ptr(self.fld(name)[0])

    @property
    def ptr(self):
        return self.r.ptr()


def obj(x, name, sname, sep=True, alloc=None):
    st = x.mod.structs.get(sname)
    if not st:
        raise Anchor('structure %s is not defined' % sname)
    r = x.region(name, 'ext', st['size'], 'sym', struct_t(sname))
    r.info = {'sep': 1} if sep else {}
    if alloc:
        r.alloc = alloc
    return Obj(x, r, sname)


def obj_at(x, p, sname):
    r, off = x.lookup(p)
    if r is None:
        r = x.resolve(p)[0]
    return Obj(x, r, sname)


def buffer(x, name, size, ty=None, sep=True, alloc=None, readonly=False):
    r = x.region(name, 'ext', size, 'sym', ty)
    r.info = {'sep': 1} if sep else {}
    r.info['plain'] = True
    if alloc:
        r.alloc = alloc
    r.readonly = readonly
    return r


def cstring(x, name, n=None, sep=True, readonly=False):
    """a NUL-terminated string of symbolic length"""
    r = x.region(name, 'ext', None, 'sym', CHAR_T)
    n = L(n) if n is not None else L(sym('ghost', 'len(%s)' % name, (), 0, 1 << 62))
    r.nulterm = (1, n, CHAR_T)
    r.size = n + 1
    r.info = {'sep': 1} if sep else {}
    r.readonly = readonly
    return r, n


def ptrvec(x, name, to=None, sep=True, n=None):
    """a NULL-terminated pointer vector of symbolic length"""
    r = x.region(name, 'ext', None, 'sym', {'k': 'ptr', 'to': to or CHAR_T})
    n = L(n) if n is not None else L(sym('ghost', 'count(%s)' % name, (), 0, (1 << 28)))
    r.nulterm = (8, n, {'k': 'ptr', 'to': to or CHAR_T})
    r.size = (n + 1) * 8
    r.info = {'sep': 1} if sep else {}
    return r, n


def wide(x, files, base, cap=72):
    """a number of items beyond every constant (up to the cap) that the code of
    these files compares something with, so that special treatment of larger
    numbers is looked at"""
    n = base
    for f in x.mod.fns.values():
        if any(f.file.endswith('/' + q + '.c') for q in files):
            for b in f.blocks:
                for i in b:
                    if i['op'] == 'icmp':
                        for o in i['ops']:
                            if isinstance(o, list) and o[0] == 'i' and base - 2 <= int(o[2]) <= cap:
                                n = max(n, int(o[2]) + 3)
    return n


def snapshot(r):
    return r.copy()


def i32(x, v):
    return x.sview(v, 32)


def u32(x, v):
    return x.uview(v, 32)


def is_true(x, r):
    """gboolean result as a branch"""
    return not x.decide_eq(x.sview(r, 32))


def fail(x, kind, msg, undecided=False):
    x.count(kind)
    x.fail(kind, msg, undecided)


def ok(x, kind='post'):
    x.count(kind)


def check(x, cond, msg, kind='post', undecided=False):
    x.count(kind)
    if not cond:
        x.fail(kind, msg, undecided)
    return cond


# --------------------------------------------------------------------- events
def evs(x, *kinds):
    return [e for e in x.st.events if e.kind in kinds]


def tmpl_count(S, pred):
    """events per iteration satisfying pred, if the same on every trace"""
    ns = set(sum(1 for e in evs if pred(e)) for _, evs in S.templates)
    if not ns:
        return 0
    return ns.pop() if len(ns) == 1 else None


def ev_index(x, events, pred):
    """[(index, event)] of the matching events outside loops, with loops counted
    as k iterations each; returns (list, total) or None if not countable"""
    idx = ZERO
    out = []
    for e in events:
        if e.kind == 'foreach':
            n = tmpl_count(e.a[0], pred)
            if n is None:
                return None
            idx = idx + L(e.a[0].k) * n
        elif pred(e):
            out.append((x.c(idx), e))
            idx = idx + 1
    return out, x.c(idx)


class Sequence:
    """the calls matching pred form exactly expected(0), expected(1), ... total"""

    def __init__(self, x, pred, expected, what, kind='sequence', first=1):
        self.first = first
        self.x, self.pred, self.expected, self.what, self.kind = x, pred, expected, what, kind
        self.old = getattr(x, 'iter_hook', None)
        x.iter_hook = self.hook

    def hook(self, x, fr, S, emark, ctr):
        # inside the generic iteration: the events before it, then its own
        evs = x.st.events
        r = ev_index(x, evs[:emark], self.pred)
        if r is None:
            x.taint('uncountable events')
            return
        # the marker of S itself counts the k completed iterations
        n = r[1]
        for e in evs[emark:]:
            if e.kind == 'foreach':
                m = tmpl_count(e.a[0], self.pred)
                if m:
                    n = n + L(e.a[0].k) * m
            elif self.pred(e):
                self.one(x, n, e)
                n = n + 1
        if self.old:
            self.old(x, fr, S, emark, ctr)

    def one(self, x, n, e):
        x.count(self.kind)
        want = self.expected(x.c(n))
        if want is None:
            return
        if not isinstance(want, tuple):
            want = (want,)
        for got, w in zip(e.a[self.first:], want):
            if w is None:
                continue
            d = x.c(got - w)
            if not x.entails_eq(d):
                x.fail(self.kind, '%s: item %s is %s, expected %s' % (self.what, x.c(n), x.c(got), x.c(w)), undecided=d.imprecise())

    def finish(self, total, events=None):
        x = self.x
        x.iter_hook = self.old
        r = ev_index(x, events if events is not None else x.st.events, self.pred)
        x.count(self.kind)
        if r is None:
            x.fail(self.kind, '%s: number of calls depends on the path through the loop' % self.what, undecided=True)
            return
        lst, n = r
        for i, e in lst:
            self.one(x, i, e)
        if total is not None and not x.entails_eq(n - total):
            x.fail(self.kind, '%s: %s calls, expected %s' % (self.what, n, x.c(L(total))), undecided=(n - total).imprecise())


# ----------------------------------------------------------------------- leaks
ESCAPES = {'g_hash_table_insert', 'g_source_set_callback', 'g_signal_connect_data', 'g_private_set', 'g_private_replace',
           'bytes_take', 'g_idle_add', 'g_idle_add_full', 'g_io_add_watch', 'g_object_add_weak_pointer', 'g_weak_ref_init', 'ext',
           'g_timeout_add', 'g_timeout_add_full', 'variant_data', 'g_array_append_vals'}


def pointers_in(x, r, out):
    """every pointer value the region may currently hold"""
    seen = set()
    w = r.head
    depth = 0
    while w is not None and depth < 4000:
        depth += 1
        if w.k == 'cell':
            key = (x.c(w.off), w.size)
            if key not in seen:
                seen.add(key)
                out.append(w.val)
        elif w.k == 'lw':
            out.append(w.x[2])
        elif w.k == 'copy':
            sr, so, sh = w.x
            s2 = sr.copy()
            s2.head = sh
            pointers_in(x, s2, out)
        elif w.k == 'fill' and w.val.isconst():
            n = x.c(w.size)
            o = x.c(w.off)
            if r.size is not None and o.isconst() and o.c == 0 and x.entails_eq(n - r.size):
                break
        w = w.prev


def reach(x, roots):
    work = [L(v) for v in roots if v is not None]
    seen = set()
    for r in {id(q): q for q in x.st.regof.values()}.values():
        if r.kind in ('ext', 'global') and not r.freed:
            pointers_in(x, r, work)
    while work:
        v = x.c(work.pop())
        for i in all_syms(v):
            r = x.st.regof.get(i)
            if r is not None and id(r) not in seen:
                seen.add(id(r))
                if not r.freed:
                    pointers_in(x, r, work)
    return seen


def escaped(x):
    out = []
    for e in x.st.events:
        if e.kind in ESCAPES:
            out.extend(a for a in e.a if isinstance(a, Lin))
    return out


def no_leaks(x, *roots):
    """every block allocated on this trace is freed or reachable at exit"""
    seen = reach(x, list(roots) + escaped(x))
    for r in {id(q): q for q in x.st.regof.values()}.values():
        if (r.kind == 'alloc' or r.info.get('owned')) and not r.freed and not r.info.get('taken'):
            x.count('leak')
            if id(r) not in seen:
                x.fail('leak', 'memory %s is neither freed nor reachable when the call returns' % ('allocated at %s' % r.site if r.kind == 'alloc' else r.base))


def own(r):
    """memory which existed before and is not known to anybody else"""
    r.info['owned'] = True
    return r


def iter_leaks(x, fr, S, nexts, mark):
    seen = None
    for b, r in list(x.st.regof.items()):
        if r.kind == 'alloc' and b not in mark and not r.freed and not r.info.get('taken'):
            if seen is None:
                seen = reach(x, list(v for v in nexts.values() if isinstance(v, Lin)) + escaped(x))
                # stack objects keep values alive between iterations
                work = []
                for q in x.st.regof.values():
                    if q.kind in ('stack',):
                        pointers_in(x, q, work)
                    elif q.kind == 'alloc' and q.base.id in mark:
                        pointers_in(x, q, work)
                for v in work:
                    for i in all_syms(x.c(v)):
                        q = x.st.regof.get(i)
                        if q is not None:
                            seen.add(id(q))
            x.count('leak')
            if id(r) not in seen:
                x.fail('leak', 'memory allocated at %s in a loop is lost in the next iteration' % r.site)


# ------------------------------------------------------------------ reference
def refs(x, kind=None):
    """net reference count changes per object {lin: n}; loops are not counted"""
    d = {}
    for e in x.st.events:
        if e.kind in ('ref', 'unref') and (kind is None or e.a[1] == kind):
            o = x.c(e.a[0])
            d[o] = d.get(o, 0) + (1 if e.kind == 'ref' else -1)
    return {k: v for k, v in d.items() if v}


def fields_written(x, r, head0):
    """(off,size,value) cells written since head0, newest first"""
    out = []
    w = r.head
    seen = set()
    while w is not None and w is not head0:
        if w.k != 'cell':
            return None
        key = (x.c(w.off), w.size)
        if key not in seen:
            seen.add(key)
            out.append((key[0], w.size, x.c(w.val)))
        w = w.prev
    return out


def untouched(x, r, snap, what):
    """the region holds what it held at the snapshot"""
    x.count('frame')
    if r.head is snap.head:
        return
    ws = fields_written(x, r, snap.head)
    if ws is None:
        x.fail('frame', '%s: %s may be modified' % (what, r.uid))
        return
    for off, size, v in ws:
        if x.added_member(r, off):
            continue
        old = x.rload(snap, off, size)
        if not x.entails_eq(v - old):
            x.fail('frame', '%s: %s is modified at offset %s (%s -> %s)' % (what, r.uid, off, x.c(old), v))


# ------------------------------------------------------ universal loop facts
def every(x, *cands, fn=None):
    """what every completed iteration of the summarised loops established, used
    for the iterations with the given numbers (as far as they took place)"""
    for S in list(x.st.loops):
        if fn and S.fn != fn or not S.templates:
            continue
        for j in cands:
            j = x.c(L(j))
            if not (x.entails_ge(j) and x.entails_ge(L(S.k) - j - 1)):
                continue
            i = x.choose(len(S.templates))
            for op, e in S.templates[i][0]:
                raw = x.subst_in(e, S.kap, j)
                e = x.c(raw)
                if op == 'ge':
                    x.assume_ge(e, False)
                elif op == 'eq':
                    ids = [i for i, _ in raw.t if SYMS[i].imp]
                    if len(ids) == 1 and SYMS[ids[0]].kind == 'lwv':
                        # the written value is exactly this expression
                        x.st.notes = dict(x.st.notes)
                        x.st.notes['defined'] = x.st.notes.get('defined', ()) + (ids[0],)
                    x.assume_eq(e, False)
                elif op == 'ne':
                    x.assume_ne(e, False)
