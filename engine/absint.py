"""Trace-partitioned abstract interpreter over LLVM IR (SSA, clang -O0 + sroa).

Numerical domain: linear forms + polyhedra emptiness (lin.py); memory domain:
regions with segment logs; ownership typestate per allocation; loops by
induction-variable summaries with candidate-invariant elimination.  Nothing is
executed: every value is abstract and every branch is taken under the
constraint that makes it possible.
"""
import json
import os
import sys
from lin import *

sys.setrecursionlimit(20000)


class PathEnd(Exception):
    pass


class Broken(Exception):
    """analysis cannot give an answer (anchor missing, engine limit)"""


class BackEdge(Exception):
    def __init__(self, frame, header, nexts):
        self.frame, self.header, self.nexts = frame, header, nexts


class LoopLeft(Exception):
    def __init__(self, frame, to, prev):
        self.frame, self.to, self.prev = frame, to, prev


class Module:
    """all analysed translation units, merged"""

    def __init__(self, mods):
        self.fns = {}
        self.globals = {}
        self.structs = {}
        self.decls = set()
        for m in mods:
            pre = m['source']
            ren = {}
            for f in m['functions']:
                if f['internal']:
                    ren[f['name']] = f['name'] if f['name'] not in self.fns else f['name'] + '@' + pre
            for f in m['functions']:
                f['mod'] = pre
                f['ren'] = ren
                self.fns[ren.get(f['name'], f['name'])] = Fn(f, self)
            gren = {}
            for g in m['globals']:
                n = g['name']
                if g['internal'] and (n in self.globals or True):
                    gren[n] = n + '@' + pre.split('/')[-1]
                key = gren.get(n, n)
                if key not in self.globals or 'init' in g:
                    g['ren'] = ren
                    g['gren'] = gren
                    self.globals[key] = g
            for f in m['functions']:
                f['gren'] = gren
            for k, v in m['structs'].items():
                if k not in self.structs:
                    self.structs[k] = v
            self.decls.update(m['decls'])
        self.added = {}
        for k, v in LAYOUT.items():
            if k in self.structs:
                rename_back(self.structs[k]['fields'], v)
                names = {f[0] for f in v}
                more = [(f[1], f[1] + f[2]) for f in self.structs[k]['fields'] if f[0] not in names]
                if more:
                    self.added[k] = more


# the names by which contracts know the members of internal structures; other
# names may be given to them (nothing depends on the order or on additions)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs', 'layout.json')) as _f:
    LAYOUT = json.load(_f)


def rename_back(fields, known):
    have = {f[0] for f in fields}
    names = {f[0] for f in known}
    miss, more = {}, {}
    for n, s, k in known:
        if n not in have:
            miss.setdefault((s, k), []).append(n)
    for i, (n, o, s, t) in enumerate(fields):
        if n not in names:
            more.setdefault((s, t.get('k')), []).append(i)
    for key, ns in miss.items():
        # in the original order, if there is no doubt about which is which
        if len(ns) == len(more.get(key, ())):
            for n, i in zip(ns, more[key]):
                fields[i] = [n] + list(fields[i][1:])


class Fn:
    def __init__(self, d, mod):
        self.d = d
        self.name = d['name']
        self.blocks = d['blocks']
        self.nargs = len(d['args'])
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.module = mod
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            t = b[-1]
            if t['op'] == 'br':
                s = [t['t']] + ([t['f']] if 'f' in t else [])
            elif t['op'] == 'switch':
                s = [t['def']] + [c[1] for c in t['cases']]
            else:
                s = []
            succ.append(s)
        self.succ = succ
        preds = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for j in s:
                if i not in preds[j]:
                    preds[j].append(i)
        self.preds = preds
        # dominators
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in range(1, n):
                ps = [dom[p] for p in preds[i]]
                nd = (set.intersection(*ps) if ps else set()) | {i}
                if nd != dom[i]:
                    dom[i] = nd
                    ch = True
        self.loops = {}
        for i, s in enumerate(succ):
            for h in s:
                if h in dom[i]:
                    body = self.loops.setdefault(h, {h})
                    st = [i]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])


class W:
    """one write in a region's log"""
    __slots__ = ('k', 'off', 'size', 'val', 'x', 'prev', 'n')

    def __init__(self, k, off, size, val, x, prev):
        self.k, self.off, self.size, self.val, self.x, self.prev = k, off, size, val, x, prev
        self.n = prev.n + 1 if prev else 1


class Region:
    __slots__ = ('uid', 'base', 'kind', 'size', 'init', 'head', 'ty', 'freed', 'alloc', 'nulterm', 'site',
                 'owned', 'info', 'readonly', 'ver')

    def copy(self):
        r = Region()
        for a in Region.__slots__:
            setattr(r, a, getattr(self, a))
        if self.info:
            r.info = dict(self.info)
        return r

    def ptr(self, off=0):
        return L(self.base) + off


class Event:
    __slots__ = ('kind', 'a', 'fn', 'line', 'facts')

    def __init__(self, kind, a, fn, line):
        self.kind, self.a, self.fn, self.line = kind, a, fn, line

    def __repr__(self):
        return '%s%s@%s:%s' % (self.kind, self.a, self.fn, self.line)


class State:
    def __init__(self):
        self.subst = {}
        self.ver = 0
        self.ges = []
        self.nes = []
        self.regof = {}
        self.events = []
        self.flog = []
        self.loops = []
        self.ctr = 0
        self.notes = {}
        self.tag = None
        self.epoch = 0

    def copy(self):
        s = State()
        s.subst = dict(self.subst)
        s.ver = self.ver
        s.ges = list(self.ges)
        s.nes = list(self.nes)
        m = {}
        s.regof = {}
        for k, r in self.regof.items():
            if id(r) not in m:
                m[id(r)] = r.copy()
            s.regof[k] = m[id(r)]
        s.events = list(self.events)
        s.flog = list(self.flog)
        s.loops = list(self.loops)
        s.ctr = self.ctr
        s.notes = dict(self.notes)
        s.tag = self.tag
        s.epoch = self.epoch
        return s


class Shared:
    """what is known of a counter shared with other threads; part of the state"""

    def __init__(self, x, uid, d):
        self.x, self.k = x, 'shared:' + uid
        x.st.notes[self.k] = d

    def __getitem__(self, f):
        return self.x.st.notes[self.k][f]

    def __setitem__(self, f, v):
        self.x.st.notes[self.k] = dict(self.x.st.notes[self.k], **{f: v})


class Frame:
    def __init__(self, fn, env):
        self.fn, self.env = fn, env
        self.mode = {}
        self.count = {}
        self.mark = {}
        self.base = {}
        self.line = 0
        self.file = ''
        self.args = []

    def copy(self):
        f = Frame(self.fn, dict(self.env))
        f.mode = dict(self.mode)
        f.count = dict(self.count)
        f.line = self.line
        f.file = self.file
        f.args = self.args
        return f


class LoopSum:
    pass


FUN_T = {'k': 'func'}
VOIDP = {'k': 'void'}
CHAR_T = {'k': 'int', 'size': 1, 'signed': True, 'td': 'char'}


def irange(size, signed):
    n = 8 * size
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)


PMAX = (1 << 63) - 1


class X:
    """interpreter; one instance per contract run, state reset per trace"""

    def __init__(self, mod, models, maxpaths=6000):
        self.mod = mod
        self.models = models
        self.violations = []
        self.undecided = []
        self.obl = {}
        self.paths = 0
        self.maxpaths = maxpaths
        self.quiet = 0
        self.on_violation = None
        self.unroll_cap = 14
        self.unrollall = 0
        self.cb_hook = None
        self.recursion_model = {}
        self.stub = {}
        self.trial_limit = 300
        self.functions = set()
        self.callsites = set()
        self.loops_seen = {}
        self.gver = 0
        self.assume_nonnull = False
        self.verbose = False
        self.deadline = None
        self.nsw_assume = True
        self.covered = set()
        self._ccache = {}
        self._ecache = {}
        self._cone = None

    # ---------------------------------------------------------- exploration
    def explore(self, fn, what=''):
        stack = [[]]
        n = 0
        self.what = what
        while stack:
            self.log = stack.pop()
            self.pos = 0
            self.newalts = []
            self.st = State()
            self.frames = []
            self._flush()
            n += 1
            if n > self.maxpaths:
                raise Broken('path limit in %s' % what)
            try:
                fn(self)
                self.paths += 1
            except PathEnd:
                pass
            except BackEdge:
                self.paths += 1
            stack.extend(self.newalts)
        return n

    def sub(self, fn, limit=400):
        """explore fn from the current state without changing it; yields results"""
        S = self.st
        fr = self.frames
        olog, opos, onew = self.log, self.pos, self.newalts
        stack = [[]]
        out = []
        n = 0
        try:
            while stack:
                self.log = stack.pop()
                self.pos = 0
                self.newalts = []
                self.st = S.copy()
                self.frames = [f.copy() for f in fr]
                self._flush()
                n += 1
                if n > limit:
                    return None
                try:
                    r = fn(self)
                    if r is StopIteration:
                        return None
                    out.append(r)
                except PathEnd:
                    pass
                stack.extend(self.newalts)
        finally:
            self.log, self.pos, self.newalts = olog, opos, onew
            self.st = S
            self.frames = fr
            self._flush()
        return out

    def _flush(self):
        self._ccache = {}
        self._ecache = {}
        self._cone = None

    def memo(self, compute):
        """compute once per trace prefix; replay afterwards"""
        if self.pos < len(self.log):
            v = self.log[self.pos]
            self.pos += 1
            assert v[0] == 'm', 'replay mismatch'
            self.st.ctr = v[2]
            return v[1]
        r = compute()
        self.log.append(('m', r, self.st.ctr))
        self.pos += 1
        return r

    # ------------------------------------------------------------ constraints
    def c(self, e):
        if not self.st.subst or not e.t:
            return e
        r = self._ccache.get(e)
        if r is None:
            r = K(e.c)
            for i, k in e.t:
                r = r + self._csym(i) * k
            self._ccache[e] = r
        return r

    def _csym(self, i):
        v = self.st.subst.get(i)
        if v is not None:
            return self.c(v)
        s = SYMS[i]
        if s.args:
            na = tuple(self.c(a) if isinstance(a, Lin) else a for a in s.args)
            if na != s.args:
                if s.kind in ('q', 'r'):
                    b, m = na[0], s.tag
                    lo, hi = bounds(b)
                    if b.isconst():
                        return K(b.c // m if s.kind == 'q' else b.c % m)
                    if lo >= 0 and hi < m:
                        return ZERO if s.kind == 'q' else b
                ns = sym(s.kind, s.tag, na, s.lo, s.hi, s.ptr, s.ptee, s.imp, info=s.info)
                v = self.st.subst.get(ns.id)
                if v is not None:
                    return self.c(v)
                return L(ns)
        return L(s)

    def _changed(self):
        self.st.ver += 1
        self._ecache = {}
        self._cone = None

    def infeasible(self):
        raise PathEnd()

    def assume_ge(self, e, logit=True):
        e = norm_ge(self.c(e))
        if logit:
            self.st.flog.append(('ge', e))
        if e.isconst():
            if e.c < 0:
                self.infeasible()
            return
        if bounds(e)[0] >= 0:
            return
        if self.st.nes:
            # values that are known to be excluded move the bound
            ns = set()
            for n in self.st.nes:
                n = self.c(n)
                ns.add(n)
                ns.add(-n)
            k = 0
            while e in ns and k < 300:
                e = e - 1
                k += 1
            if k:
                e = norm_ge(e)
        self.st.ges.append(e)
        self._changed()
        if self.entails_ge(-e):
            self.assume_eq(e, False)

    def assume_ne(self, e, logit=True):
        e = self.c(e)
        if logit:
            self.st.flog.append(('ne', e))
        if e.isconst():
            if e.c == 0:
                self.infeasible()
            return
        if self.entails_ge(e):
            self.assume_ge(e - 1, False)
        elif self.entails_ge(-e):
            self.assume_ge(-e - 1, False)
        else:
            self.st.nes.append(e)
            self._changed()

    def _elimrank(self, s):
        r = self.st.regof.get(s.id)
        if r is not None:
            return 0 if r.kind != 'ext' else 1
        if s.kind in ('base', 'func'):
            return 0
        if s.kind == 'param':
            return 3
        if s.kind == 'k':
            return 2
        if s.kind == 'ghost':
            return 4
        return 5

    def assume_eq(self, e, logit=True):
        e = self.c(e)
        if logit:
            self.st.flog.append(('eq', e))
        if e.isconst():
            if e.c != 0:
                self.infeasible()
            return
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if e.c % g:
            self.infeasible()
        if g > 1:
            e = Lin(tuple((i, k // g) for i, k in e.t), e.c // g)
        best = None
        for i, k in e.t:
            if abs(k) == 1:
                s = SYMS[i]
                rest = Lin(tuple((j, kk) for j, kk in e.t if j != i), e.c)
                if contains(rest, i):
                    continue
                rank = (self._elimrank(s), len(s.args) == 0 and 0 or 1, i)
                if best is None or rank > best[0]:
                    best = (rank, i, k, rest)
        if best is None:
            self.st.ges.append(e)
            self.st.ges.append(-e)
            self._changed()
            return
        _, i, k, rest = best
        val = rest * (-k)
        s = SYMS[i]
        reg = self.st.regof.get(i)
        self.st.subst[i] = val
        self._ccache = {}
        self._changed()
        if reg is not None:
            o = val.single()
            if o is not None and o.id not in self.st.regof:
                self.st.regof[o.id] = reg
        lo, hi = bounds(val)
        if s.lo > lo and s.lo > -INF:
            self.assume_ge(val - s.lo, False)
        if s.hi < hi and s.hi < INF:
            self.assume_ge(K(s.hi) - val, False)
        # constant-fold contradictions and re-tighten stored constraints
        ng = []
        for x in self.st.ges:
            y = norm_ge(self.c(x))
            if y.isconst():
                if y.c < 0:
                    self.infeasible()
                continue
            ng.append(y)
        self.st.ges = ng
        nn = []
        for x in self.st.nes:
            y = self.c(x)
            if y.isconst():
                if y.c == 0:
                    self.infeasible()
                continue
            nn.append(y)
        self.st.nes = nn
        self._changed()

    def cone(self, e, extra=()):
        if self._cone is None:
            self._cone = [self.c(x) for x in self.st.ges]
        want = set(i for i, _ in e.t)
        for x in extra:
            want.update(i for i, _ in x.t)
        rest = self._cone
        out = []            # extra forms widen the cone only: they are not constraints
        ch = True
        while ch:
            ch = False
            nr = []
            for x in rest:
                if any(i in want for i, _ in x.t):
                    out.append(x)
                    for i, _ in x.t:
                        if i not in want:
                            want.add(i)
                    ch = True
                else:
                    nr.append(x)
            rest = nr
        for i in want:
            s = SYMS[i]
            if s.lo > -(1 << 140):
                out.append(Lin(((i, 1),), -s.lo))
            if s.hi < (1 << 140):
                out.append(Lin(((i, -1),), s.hi))
        return out, want

    def entails_ge(self, e):
        e = self.c(e)
        lo, hi = bounds(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        r = self._ecache.get(e)
        if r is None:
            r = self._entails(e)
            self._ecache[e] = r
        return r

    def _entails(self, e):
        neg = -e - 1
        cons, want = self.cone(e)
        if empty(cons + [neg]):
            return True
        ns = []
        for n in self.st.nes:
            n = self.c(n)
            if n.t and any(i in want for i, _ in n.t):
                ns.append(n)
        for n in ns[:3]:
            cons2, _ = self.cone(e, (n,))
            if empty(cons2 + [neg, n - 1]) and empty(cons2 + [neg, -n - 1]):
                return True
        return False

    def entails_ne(self, e):
        e = self.c(e)
        if e.isconst():
            return e.c != 0
        for n in self.st.nes:
            n = self.c(n)
            if n == e or n == -e:
                return True
        if self.distinct(e):
            return True
        return self.entails_ge(e - 1) or self.entails_ge(-e - 1)

    def entails_eq(self, e):
        e = self.c(e)
        if e.isconst():
            return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def distinct(self, e):
        """base_A - base_B + off : different objects?"""
        ps = [(i, k) for i, k in e.t if SYMS[i].ptr]
        if len(ps) == 2 and ps[0][1] == -ps[1][1] and abs(ps[0][1]) == 1:
            a, b = SYMS[ps[0][0]], SYMS[ps[1][0]]
            ra, rb = self.st.regof.get(a.id), self.st.regof.get(b.id)
            if a.kind == 'func' and b.kind == 'func':
                return True
            ca = ra is not None and ra.kind in ('alloc', 'stack', 'global') or a.kind == 'func'
            cb = rb is not None and rb.kind in ('alloc', 'stack', 'global') or b.kind == 'func'
            if ra is not None and rb is not None:
                return ra is not rb and (ca or cb or 'sep' in (ra.info or ()) and 'sep' in (rb.info or ()))
            if ca and not cb:
                # fresh memory never equals a pointer that existed before it
                return ra is None or ra.kind != 'global' or True
            if cb and not ca:
                return True
        return False

    def _choice(self, forced, yes, no):
        if self.pos < len(self.log):
            v = self.log[self.pos]
            self.pos += 1
            if v[0] == 'f':
                return v[1]
            assert v[0] == 'd', 'replay mismatch %r' % (v,)
            (yes if v[1] else no)()
            return v[1]
        f = forced()
        if f is not None:
            self.log.append(('f', f))
            self.pos += 1
            return f
        self.newalts.append(self.log[:self.pos] + [('d', False)])
        self.log.append(('d', True))
        self.pos += 1
        if self.deadline:
            self.deadline()
        yes()
        return True

    def undef_check(self, e):
        for i, _ in e.t:
            if SYMS[i].kind == 'undef':
                self.fail('uninit', 'uninitialised value is used (%s)' % e)

    def decide_ge(self, e):
        e = self.c(e)
        if e.isconst():
            return e.c >= 0
        lo, hi = bounds(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        self.undef_check(e)

        def forced():
            if self.entails_ge(e):
                return True
            if self.entails_ge(-e - 1):
                return False
        return self._choice(forced, lambda: self.assume_ge(e), lambda: self.assume_ge(-e - 1))

    def decide_eq(self, e):
        e = self.c(e)
        if e.isconst():
            return e.c == 0
        self.undef_check(e)

        def forced():
            if self.entails_ne(e):
                return False
            if self.entails_eq(e):
                return True
        return self._choice(forced, lambda: self.assume_eq(e), lambda: self.assume_ne(e))

    def choose(self, n, label=''):
        """non-deterministic choice 0..n-1"""
        for i in range(n - 1):
            if self._choice(lambda: None, lambda: None, lambda: None):
                return i
        return n - 1

    def feasible(self):
        cons = [self.c(x) for x in self.st.ges]
        syms = set()
        for x in cons:
            syms.update(i for i, _ in x.t)
        allc = list(cons)
        for i in syms:
            s = SYMS[i]
            if s.lo > -(1 << 140):
                allc.append(Lin(((i, 1),), -s.lo))
            if s.hi < (1 << 140):
                allc.append(Lin(((i, -1),), s.hi))
        if empty(allc):
            return False
        for n in self.st.nes[:6]:
            n = self.c(n)
            if n.isconst():
                if n.c == 0:
                    return False
                continue
            cs, _ = self.cone(n)
            if empty(cs + [n - 1]) and empty(cs + [-n - 1]):
                return False
        return True

    # ------------------------------------------------------- width handling
    def uview(self, e, w):
        return self._view(e, 0, (1 << w) - 1, w)

    def sview(self, e, w):
        return self._view(e, -(1 << (w - 1)), (1 << (w - 1)) - 1, w)

    def _view(self, e, lo, hi, w):
        e = self.c(e)
        M = 1 << w
        if e.isconst():
            v = e.c % M
            if v > hi:
                v -= M
            return K(v)
        b = bounds(e)
        if b[0] >= lo and b[1] <= hi:
            return e
        # drop multiples of 2^w
        if any(k % M == 0 for _, k in e.t) or not (-M < e.c < M):
            e = Lin(tuple((i, k) for i, k in e.t if k % M), ((e.c + M // 2) % M) - M // 2 if not (-M < e.c < M) else e.c)
            b = bounds(e)
            if b[0] >= lo and b[1] <= hi:
                return e
            if e.isconst():
                return self._view(e, lo, hi, w)
        if self.entails_ge(e - lo) and self.entails_ge(K(hi) - e):
            return e
        # provably within one period off?
        if self.quiet and not self.exact:
            # discovery: assume no wrap
            self.assume_ge(e - lo, False)
            self.assume_ge(K(hi) - e, False)
            return e
        if b[0] >= lo - 2 * M and b[1] <= hi + 2 * M or self._near(e, lo, hi, M):
            for _ in range(5):
                if not self.decide_ge(e - lo):
                    e = e + M
                elif not self.decide_ge(K(hi) - e):
                    e = e - M
                else:
                    return e
        # general: e = M*q + r
        q, r = self.divmod_const(e, M)
        if lo < 0:
            if not self.decide_ge(K(hi) - r):
                return r - M
        return r

    def _near(self, e, lo, hi, M):
        return self.entails_ge(e - (lo - 2 * M)) and self.entails_ge(K(hi + 2 * M) - e)

    def divmod_const(self, e, m):
        """floor quotient and remainder of the (mathematical) value e by m>0"""
        e = self.c(e)
        if e.isconst():
            return K(e.c // m), K(e.c % m)
        A = Lin(tuple((i, k // m) for i, k in e.t if k % m == 0), e.c // m)
        B = Lin(tuple((i, k) for i, k in e.t if k % m), e.c % m)
        lo, hi = bounds(B)
        if lo >= 0 and hi < m:
            return A, B
        if self.entails_ge(B) and self.entails_ge(K(m - 1) - B):
            return A, B
        if lo > -3 * m and hi < 3 * m:
            for _ in range(6):
                if not self.decide_ge(B):
                    A, B = A - 1, B + m
                elif not self.decide_ge(K(m - 1) - B):
                    A, B = A + 1, B - m
                else:
                    return A, B
        blo, bhi = bounds(B)
        q = sym('q', m, (B,), max(blo // m, -INF) if blo > -INF else -INF, bhi // m if bhi < INF else INF)
        r = sym('r', m, (B,), 0, m - 1)
        self.assume_eq(B - L(q) * m - L(r), False)
        return A + self.c(L(q)), self.c(L(r))

    # --------------------------------------------------------------- symbols
    def fresh(self, tag, lo=-INF, hi=INF, ptr=False, ptee=None, kind='fresh', imp=False, info=None):
        self.st.ctr += 1
        t = '%s#%s%d' % (tag, self.st.tag or '', self.st.ctr)
        return L(sym(kind, t, (), lo, hi, ptr, ptee, imp, info=info))

    def app(self, name, args, lo=-INF, hi=INF, ptr=False, ptee=None, imp=False):
        return L(sym('app', name, tuple(self.c(L(a)) for a in args), lo, hi, ptr, ptee, imp))

    def typed(self, kind, tag, args, ty, size):
        """symbol for a value of DI type ty"""
        k = ty.get('k')
        if k == 'ptr':
            return L(sym(kind, tag, args, 0, PMAX, True, ty.get('to'), info=ty))
        if k == 'int' and ty.get('size') == size:
            lo, hi = irange(size, ty.get('signed'))
            return L(sym(kind, tag, args, lo, hi, info=ty))
        lo, hi = irange(size, False)
        return L(sym(kind, tag, args, lo, hi))

    # --------------------------------------------------------------- regions
    def region(self, uid, kind, size=None, init='sym', ty=None, base=None, site=None):
        r = Region()
        r.uid, r.kind, r.size, r.init, r.ty = uid, kind, (None if size is None else L(size)), init, ty
        r.base = base if base is not None else sym('base', uid, (), 4096, PMAX, True, ty)
        r.head = None
        r.freed = None
        r.alloc = None
        r.nulterm = None
        r.site = site
        r.owned = False
        r.info = {}
        r.readonly = False
        r.ver = 0
        self.st.regof[r.base.id] = r
        if r.size is not None and kind != 'stack':
            self.st.ges.append(K(PMAX) - L(r.base) - r.size)
            self._changed()
        return r

    def alloc(self, what, size, init='undef', ty=None):
        self.st.ctr += 1
        f = self.frames[-1] if self.frames else None
        site = '%s:%d' % (f.fn.name, f.line) if f else '?'
        uid = '%s@%s#%s%d' % (what, site, self.st.tag or '', self.st.ctr)
        r = self.region(uid, 'alloc', size, init, ty, site=site)
        r.alloc = what
        r.owned = True
        return r

    def stack(self, size, name='loc', init='undef', ty=None):
        self.st.ctr += 1
        return self.region('%s#%s%d' % (name, self.st.tag or '', self.st.ctr), 'stack', size, init, ty)

    def ptrsym(self, p):
        """pointer form -> (symbol, offset)"""
        p = self.c(p)
        s = None
        off = p
        for i, k in p.t:
            if k == 1 and SYMS[i].ptr:
                if s is not None:
                    return None, p
                s = SYMS[i]
        if s is None:
            return None, p
        return s, p - L(s)

    def lookup(self, p):
        s, off = self.ptrsym(p)
        if s is None:
            return None, off
        return self.st.regof.get(s.id), off

    def resolve(self, p, what='access'):
        """(region, offset); checks non-null, liveness"""
        s, off = self.ptrsym(p)
        if s is None:
            self.undef_check(p)
            if p.isconst():
                self.fail('null', '%s through a NULL pointer' % what)
                raise PathEnd()
            self.fail('badptr', '%s through an unidentified pointer %s' % (what, p), undecided=True)
            raise PathEnd()
        r = self.st.regof.get(s.id)
        if r is None:
            if s.kind == 'undef':
                self.fail('uninit', '%s through an uninitialised pointer' % what)
                raise PathEnd()
            if s.kind == 'func':
                self.fail('badptr', 'access to function address')
                raise PathEnd()
            if s.lo <= 0:
                self.oblige('nonnull', lambda: self.entails_ne(L(s)), lambda: self.assume_ne(L(s)),
                            '%s through a pointer that may be NULL (%s)' % (what, s))
                # after assumption the symbol may have been rewritten
                s2, off2 = self.ptrsym(p)
                if s2 is not s:
                    return self.resolve(p, what)
            r = self.materialise(s)
        if r.freed:
            self.count('live')
            self.fail('uaf', '%s of %s after it was freed at %s' % (what, r.uid, r.freed))
            raise PathEnd()
        return r, off

    def materialise(self, s):
        ty = s.ptee
        size = None
        if ty and ty.get('k') == 'struct' and ty.get('name') in self.mod.structs and not ty.get('arr'):
            size = None
        r = self.region('*' + s.name, 'ext', size, 'sym', ty, base=s)
        r.info = {}
        if self.mat_hook:
            self.mat_hook(self, s, r)
        return r

    mat_hook = None
    exact = False

    def free_region(self, r, how='free'):
        if r.freed:
            self.fail('double-free', '%s freed twice (first at %s)' % (r.uid, r.freed))
            raise PathEnd()
        if r.kind in ('stack', 'global'):
            self.fail('bad-free', 'free of non-heap object %s' % r.uid)
            raise PathEnd()
        sh = r.info.get('shared') if r.info else None
        if sh and not sh['alone']:
            self.count('refcount')
            self.fail('refcount', '%s is freed while other threads may hold references to it' % r.uid)
        f = self.frames[-1]
        r.freed = '%s:%d' % (f.fn.name, f.line)

    # ------------------------------------------- counters shared with threads
    # An object which other threads hold references to: between any two
    # instructions they may take and drop (their own) references. What this
    # thread knows about the counter is that it is not less than the number
    # of references it owns; once it sees exactly that number, nobody else
    # has any (and nobody can get one), and the object is its own.
    sharing = False

    def share(self, r, off, size, owned=()):
        self.sharing = True
        sh = Shared(self, r.uid, {'off': off, 'size': size, 'own': 1, 'alone': False, 'gone': False, 'uid': r.uid})
        r.info = dict(r.info or {}, shared=sh)
        for q in owned:
            q.info = dict(q.info or {}, sharedby=sh)
        return sh

    def counter(self, p, size):
        r, off = self.resolve(p, 'access')
        sh = r.info.get('shared') if r.info else None
        if not sh or sh['alone'] or sh['gone']:
            return None
        d = self.c(off - sh['off'])
        return sh if d.isconst() and -size < d.c < sh['size'] else None

    def interfere(self, sh):
        v = self.fresh('refs(%s)' % sh['uid'], 1, 1 << 30)
        self.assume_ge(v - sh['own'])
        return v

    def counted(self, sh, p, old, delta, size):
        delta = self.c(delta)
        if delta.isconst() and delta.c >= 1 << (8 * size - 1):
            delta = delta - (1 << (8 * size))
        self.count('refcount')
        if not delta.isconst():
            self.fail('refcount', 'the reference counter of %s changes by %s' % (sh['uid'], delta))
            raise PathEnd()
        if self.decide_eq(old - sh['own']):
            sh['alone'] = True
            self.store(p, old + delta, size)
        sh['own'] += delta.c
        if sh['own'] < 0:
            self.fail('refcount', 'a reference of %s is dropped that was not taken' % sh['uid'])
            raise PathEnd()
        if not sh['own'] and not sh['alone']:
            sh['gone'] = True

    def atomics(self, op, ins, V):
        """an access to a counter that is shared with other threads"""
        size = ins['size']
        p = V(1) if op == 'store' else V(0)
        sh = self.counter(p, size)
        if sh is None:
            return None
        self.count('refcount')
        if op == 'store':
            self.fail('refcount', 'the reference counter of %s is overwritten while other threads may change it '
                      '(not an atomic read-modify-write operation)' % sh['uid'])
            raise PathEnd()
        old = self.interfere(sh)
        if op == 'load':
            if self.decide_eq(old - sh['own']):
                sh['alone'] = True
                self.store(p, old, size)
            return (old,)
        if op == 'atomicrmw':
            k = ins['rmw']
            if k not in ('add', 'sub'):
                self.fail('refcount', 'the reference counter of %s is changed by %s' % (sh['uid'], k))
                raise PathEnd()
            self.event('atomic', k, p, V(1), old)
            delta = V(1) if k == 'add' else K(0) - self.sview(V(1), size * 8)
            if ins.get('ord', 7) < 5 and self.c(delta).isconst() and self.sview(delta, size * 8).c < 0:
                self.fail('refcount', 'the reference of %s is dropped without a release barrier' % sh['uid'])
            self.counted(sh, p, old, delta, size)
            return (old,)
        if self.choose(2) and self.decide_eq(old - V(1)):
            self.event('atomic', 'cmpxchg', p, V(2), old)
            self.counted(sh, p, old, V(2) - old, size)
            return ((old, ONE),)
        return ((old, ZERO),)

    # ----------------------------------------------------------------- types
    def added_member(self, r, off):
        if r.ty is None or r.ty.get('k') != 'struct' or r.ty.get('name') not in self.mod.added:
            return False
        sz = self.mod.structs[r.ty['name']]['size'] or 1
        return any(lo <= off.c % sz < hi for lo, hi in self.mod.added[r.ty['name']])

    def field_type(self, ty, off):
        """DI type of the scalar at byte offset off (Lin) of an object/array of ty"""
        if ty is None:
            return None
        d = 0
        while d < 6:
            d += 1
            k = ty.get('k')
            if k == 'struct':
                st = self.mod.structs.get(ty.get('name'))
                if not st:
                    return None
                sz = st['size']
                if sz == 0:
                    return None
                if all(kk % sz == 0 for _, kk in off.t):
                    o = off.c % sz
                else:
                    return None
                for name, fo, fs, fty in st['fields']:
                    if fo <= o < fo + max(fs, 1):
                        ty = fty
                        off = K(o - fo)
                        break
                else:
                    return None
                if ty.get('k') in ('int', 'ptr', 'float', 'func'):
                    return ty if off.c == 0 else None
                continue
            if k == 'array':
                ty = ty.get('elem') or {}
                continue
            if k in ('int', 'ptr', 'float'):
                return ty
            return None
        return None

    # ----------------------------------------------------------------- memory
    def bounds_check(self, r, off, size, what):
        if self.sharing and r.info:
            sh = r.info.get('shared') or r.info.get('sharedby')
            if sh and sh['gone']:
                self.count('refcount')
                self.fail('refcount', '%s of %s after the reference was dropped (another thread may free it)' % (what, r.uid))
                raise PathEnd()
        if r.size is None:
            if off.isconst() and off.c < 0:
                self.count('bounds')
                self.fail('bounds', '%s before the start of %s' % (what, r.uid))
                raise PathEnd()
            return
        size = L(size)
        self.oblige('bounds', lambda: self.entails_ge(off) and self.entails_ge(r.size - off - size),
                    lambda: (self.assume_ge(off), self.assume_ge(r.size - off - size)),
                    '%s of %s byte(s) at offset %s of %s (size %s) may be out of bounds' % (what, size, off, r.uid, r.size))

    def load(self, p, size, ty='i', isptr=False, ditype=None):
        r, off = self.resolve(p, 'read')
        self.bounds_check(r, off, size, 'read')
        return self.rload(r, off, size, isptr, ditype=ditype)

    def rload(self, r, off, size, isptr=False, head='cur', ditype=None, initver=None):
        off = self.c(off)
        w = r.head if head == 'cur' else head
        while w is not None:
            k = w.k
            if k == 'cell':
                o = self.c(w.off)
                d = off - o
                if d.isconst():
                    if d.c == 0:
                        if w.size == size:
                            return self.c(w.val)
                        if w.size > size:
                            v = self.c(w.val)
                            return v
                        return self.mixed(r, off, size, w)
                    if d.c >= w.size or -d.c >= size:
                        w = w.prev
                        continue
                    if w.val.isconst() and d.c > 0 and d.c + size <= w.size:
                        return K((w.val.c >> (8 * d.c)) & ((1 << (8 * size)) - 1))
                    if d.c > 0 and d.c + size <= w.size:
                        v = self.subword(w.val, d, size)
                        if v is not None:
                            return v
                    return self.mixed(r, off, size, w)
                # symbolic distance
                if w.size == size and self.decide_eq(d):
                    return self.c(w.val)
                if w.size != size or not self._stride_ok(d, size):
                    if not (self.entails_ge(d - w.size) or self.entails_ge(-d - size)):
                        if self.decide_ge(d - w.size):
                            pass
                        elif self.decide_ge(-d - size):
                            pass
                        else:
                            return self.mixed(r, off, size, w)
                w = w.prev
                continue
            o = self.c(w.off)
            n = self.c(w.size)
            if k == 'lw':
                v = self._load_lw(r, w, off, size)
                if v is not None:
                    return v
                w = w.prev
                continue
            if k == 'base':
                # a fresh unknown generation of the whole region
                return self.initial(r, off, size, isptr, ditype, gen=w.x)
            # range entries: fill / copy / hv
            if n.isconst() and n.c == 0:
                w = w.prev
                continue
            inside = None
            if self.entails_ge(off - o) and self.entails_ge(o + n - off - size):
                inside = True
            elif self.entails_ge(o - off - size) or self.entails_ge(off - o - n):
                inside = False
            else:
                if not self.decide_ge(off - o):
                    inside = False
                elif not self.decide_ge(o + n - off - 1):
                    inside = False
                else:
                    inside = True
            if not inside:
                w = w.prev
                continue
            if k == 'fill':
                v = self.c(w.val)
                if v.isconst():
                    b = v.c & 0xff
                    return K(int.from_bytes(bytes([b]) * size, 'little'))
                if size == 1:
                    return v
                return self.imprecise('fill', r, off, size)
            if k == 'copy':
                sr, soff, shead = w.x
                return self.rload(sr, self.c(soff) + (off - o), size, isptr, shead, ditype)
            if k == 'hv':
                return L(sym('hv', '%s!%s:%d' % (r.uid, w.x, size), (off,), *self._rng(r, off, size, isptr), ptr=isptr, imp=True))
            raise Broken('write kind ' + k)
        return self.initial(r, off, size, isptr, ditype)

    def subword(self, v, d, size):
        """size bytes at byte d of the word v (little endian), None if unknown"""
        v = self.c(v)
        d = self.c(d)
        if v.isconst() and v.c == 0:
            return ZERO
        if v.isconst() and d.isconst():
            return K((v.c >> (8 * d.c)) & ((1 << (8 * size)) - 1))
        s = v.single()
        if s is None:
            return None
        if s.kind == 'app' and s.tag in ('xor', 'and', 'or'):
            ab = [self.subword(a, d, size) for a in s.args]
            if None in ab:
                return None
            return self.bitop(s.tag, self.uview(ab[0], 8 * size), self.uview(ab[1], 8 * size), 8 * size)
        if s.kind == 'init':
            uid, _, w = s.tag.rpartition(':')
            uid, _, gen = uid.partition('~')
            for r in self.st.regof.values():
                if r.uid == uid:
                    return self.initial(r, self.c(s.args[0] + d), size, gen=gen or None)
        return None

    def _rng(self, r, off, size, isptr):
        if isptr:
            return (0, PMAX)
        t = self.field_type(r.ty, off)
        if t and t.get('k') == 'int' and t.get('size') == size:
            return irange(size, t.get('signed'))
        return irange(size, False)

    def _stride_ok(self, d, size):
        """all terms multiples of the access size: cells are equal or disjoint"""
        return all(k % size == 0 for _, k in d.t) and d.c % size == 0

    def mixed(self, r, off, size, head):
        """a word which several writes make up, put together byte by byte"""
        if size > 1:
            v = ZERO
            for k in range(size):
                b = self.rload(r, self.c(off + k), 1, head=head)
                if b.imprecise():
                    return self.imprecise('mix', r, off, size)
                v = v + self.uview(b, 8) * (1 << (8 * k))
            return v
        return self.imprecise('mix', r, off, size)

    def imprecise(self, why, r, off, size):
        return self.fresh('imp_%s' % why, *irange(size, False), imp=True)

    def _load_lw(self, r, w, off, size):
        """for-all write: val(kappa) at off(kappa), kappa in [0,n)"""
        kap, offk, valk = w.x
        n = self.c(w.size)
        wsize = w.val
        offk = self.c(offk)
        s = offk.coef(kap)
        off0 = offk - L(kap) * s
        d = off - off0
        if wsize == size and all(k % s == 0 for _, k in d.t) and d.c % s == 0:
            j = Lin(tuple((i, k // s) for i, k in d.t), d.c // s)
            if not self.decide_ge(j):
                return None
            if not self.decide_ge(n - j - 1):
                return None
            return self.subst_in(valk, kap, j)
        if wsize == size and d.c % s and all(k % s == 0 for _, k in d.t) and abs(s) >= size and min(d.c % abs(s), abs(s) - d.c % abs(s)) >= size:
            return None
        if size < wsize and s == wsize:
            # part of one of adjacent words
            if not self.decide_ge(d):
                return None
            if not self.decide_ge(n * s - d - 1):
                return None
            q, rem = self.divmod_const(d, s)
            if size == 1 or self.entails_ge(K(wsize - size) - rem):
                v = self.subword(self.subst_in(valk, kap, q), rem, size)
                if v is not None:
                    return v
        # range test
        lo, hi = (off0, off0 + (n - 1) * s + wsize) if s > 0 else (off0 + (n - 1) * s, off0 + wsize)
        if self.entails_ge(ZERO - n):
            return None
        if self.entails_ge(lo - off - size) or self.entails_ge(off - hi):
            return None
        return self.imprecise('lw', r, off, size)

    def subst_in(self, e, s, val):
        """replace symbol s by val everywhere in e, including inside arguments"""
        if isinstance(e, tuple):
            return tuple(self.subst_in(x, s, val) for x in e)
        if not isinstance(e, Lin):
            return e
        out = K(e.c)
        for i, k in e.t:
            if i == s.id:
                out = out + val * k
            elif sym_contains(SYMS[i], s.id):
                y = SYMS[i]
                na = tuple(self.subst_in(a, s, val) for a in y.args)
                out = out + L(sym(y.kind, y.tag, na, y.lo, y.hi, y.ptr, y.ptee, y.imp, info=y.info)) * k
            else:
                out = out + Lin(((i, 1),), 0) * k
        return self.c(out)

    def initial(self, r, off, size, isptr=False, ditype=None, gen=None):
        init = r.init
        if callable(init) and gen is None:
            v = init(self, r, off, size, isptr)
            if v is not None:
                return v
        if init == 'zero' and gen is None:
            return ZERO
        if init == 'undef' and gen is None:
            return L(sym('undef', '%s+%s:%d' % (r.uid, off, size), (), 0, PMAX if isptr else (1 << (8 * size)) - 1, isptr))
        if r.nulterm and gen is None:
            es, n, ety = r.nulterm
            n = self.c(n)
            if size == es and all(k % es == 0 for _, k in off.t) and off.c % es == 0:
                idx = Lin(tuple((i, k // es) for i, k in off.t), off.c // es)
                # 0 <= idx < n : element (non-zero); idx == n: terminator
                if self.decide_ge(n - idx - 1):
                    v = self.typed('elem', r.uid + '[]', (idx,), ety, size)
                    if not self.entails_ne(v):
                        self.assume_ne(v, False)
                    return self.c(v)
                if self.decide_eq(n - idx):
                    return ZERO
                self.count('bounds')
                self.fail('bounds', 'read past the terminator of %s (index %s, length %s)' % (r.uid, idx, n))
                raise PathEnd()
        if gen is not None and gen in r.info.get('nt', ()) and size == 1:
            # contents known to be a string of that length
            n = self.c(r.info['nt'][gen])
            if self.decide_ge(n - off - 1):
                v = self.typed('elem', r.uid + '~%s[]' % gen, (off,), CHAR_T, 1)
                if not self.entails_ne(v):
                    self.assume_ne(v, False)
                return self.c(v)
            if self.decide_eq(n - off):
                return ZERO
        if self.mod.added and self.added_member(r, off):
            # contracts know nothing about its value in an arbitrary state
            self.taint('a member added to %s' % r.ty.get('name'))
        t = self.field_type(r.ty, off)
        if t is None:
            if isptr:
                t = {'k': 'ptr', 'to': VOIDP}
            else:
                t = {'k': 'int', 'size': size, 'signed': False}
        elif isptr and t.get('k') != 'ptr':
            t = {'k': 'ptr', 'to': VOIDP}
        tag = r.uid + ('' if gen is None else '~%s' % gen) + ':%d' % size
        return self.c(self.typed('init', tag, (off,), t, size))

    def store(self, p, val, size, isptr=False):
        r, off = self.resolve(p, 'write')
        self.bounds_check(r, off, size, 'write')
        if r.readonly:
            self.count('const')
            self.fail('readonly', 'write to constant data %s' % r.uid)
        self.rstore(r, off, val, size)

    def rstore(self, r, off, val, size):
        r.head = W('cell', self.c(off), size, val, None, r.head)

    def fill(self, p, byte, n):
        n = self.c(n)
        if n.isconst() and n.c == 0:
            return
        r, off = self.resolve(p, 'write')
        self.bounds_check(r, off, n, 'fill')
        r.head = W('fill', off, n, byte, None, r.head)

    def copy(self, dst, src, n, move=False):
        n = self.c(n)
        if n.isconst() and n.c == 0:
            return
        # length may be zero: pointers need not be valid then
        if not self.entails_ge(n - 1):
            if not self.decide_ge(n - 1):
                return
        sr, soff = self.resolve(src, 'read')
        self.bounds_check(sr, soff, n, 'copy from')
        dr, doff = self.resolve(dst, 'write')
        self.bounds_check(dr, doff, n, 'copy to')
        if dr.readonly:
            self.fail('readonly', 'write to constant data %s' % dr.uid)
        if dr is sr and not move:
            self.oblige('overlap', lambda: self.entails_ge(doff - soff - n) or self.entails_ge(soff - doff - n),
                        lambda: None, 'memcpy of overlapping ranges in %s' % dr.uid)
        if sr.nulterm:
            es, ln, _ = sr.nulterm
            if sr.size is None:
                lim = (self.c(ln) + 1) * es
                self.oblige('bounds', lambda: self.entails_ge(lim - soff - n), lambda: self.assume_ge(lim - soff - n),
                            'copy of %s bytes from %s reads past its terminator' % (n, sr.uid))
        snap = sr.copy()
        dr.head = W('copy', doff, n, None, (snap, soff, sr.head), dr.head)

    # ------------------------------------------------------------ obligations
    def count(self, kind, n=1):
        if not self.quiet:
            self.obl[kind] = self.obl.get(kind, 0) + n

    def where(self):
        for f in reversed(self.frames):
            if f.fn is not None:
                return f.fn.name, f.file or f.fn.file, f.line
        fn = getattr(self, 'last_call', None)
        if fn is not None:
            return fn.name, fn.file, fn.line
        return '?', '', 0

    def trace(self):
        return ['%s (%s:%d)' % (f.fn.name, f.file, f.line) for f in self.frames if f.fn]

    def oblige(self, kind, test, assume, msg):
        """an obligation the code must meet here"""
        self.count(kind)
        if self.pos < len(self.log) and self.log[self.pos][0] != 'o':
            self.ackermann()
        if self.pos < len(self.log):
            v = self.log[self.pos]
            self.pos += 1
            assert v[0] == 'o', 'replay mismatch'
            if not v[1]:
                assume()
            return v[1]
        ok = test()
        if not ok and not self.quiet:
            pos = self.pos
            self.ackermann()
            if self.pos != pos:
                ok = test()
        self.log.append(('o', ok))
        self.pos += 1
        if not ok:
            if self.quiet:
                assume()
                return False
            if self.feasible():
                self._record(kind, msg)
                raise PathEnd()
            raise PathEnd()
        return True

    def ackermann(self, *es):
        """values read at offsets that may coincide: partition on the equality
        of the offsets and make the values equal where the offsets are"""
        n = 0
        again = True
        while again and n < 30:
            again = False
            ids = set()
            for e in list(self.st.ges) + list(es):
                all_syms(self.c(e), ids)
            for i in self.st.subst:
                if SYMS[i].args:
                    ids.add(i)
            groups = {}
            for i in sorted(ids):
                s = SYMS[i]
                if s.kind in ('init', 'elem') and len(s.args) == 1 and isinstance(s.args[0], Lin):
                    groups.setdefault((s.kind, s.tag), []).append(s)
            for g in groups.values():
                for k, a in enumerate(g):
                    for b in g[:k]:
                        if a.args[0].isconst() and b.args[0].isconst():
                            continue
                        d = self.c(a.args[0] - b.args[0])
                        v = self.c(L(a) - L(b))
                        if not v.t and v.c == 0 or d.isconst() and d.c:
                            continue
                        if self.entails_eq(v):
                            continue
                        if self.decide_eq(d):
                            self.assume_eq(v)
                            again = True
                            n += 1
                        if n >= 30:
                            return

    def fail(self, kind, msg, undecided=False):
        if self.quiet:
            raise PathEnd()
        self.ackermann()
        if self.pos < len(self.log):
            raise PathEnd()
        if not self.feasible():
            raise PathEnd()
        self._record(kind, msg, undecided)

    def _record(self, kind, msg, undecided=False):
        fn, file, line = self.where()
        rec = dict(kind=kind, message=msg, function=fn, file=file, line=line, contract=self.what,
                   stack=self.trace(), constraints=[str(self.c(x)) + ' >= 0' for x in self.st.ges[-40:]],
                   events=[repr(e) for e in self.st.events[-20:]])
        imp = undecided or bool(self.st.notes.get('taint'))
        if not imp:
            cs = [self.c(x) for x in self.st.ges]
            df = self.st.notes.get('defined', ())
            imp = any(SYMS[i].imp and i not in df for x in cs for i, _ in x.t) or any(SYMS[i].imp and i not in df for i in self.st.subst)
        (self.undecided if imp else self.violations).append(rec)
        if not imp and self.on_violation:
            self.on_violation()
            self.on_violation = None
        if self.verbose:
            print('   !', 'UNDECIDED' if imp else 'FAIL', kind, fn, line, msg)
            for x in rec['constraints']:
                print('        ', x)

    def taint(self, why):
        self.st.notes = dict(self.st.notes)
        self.st.notes['taint'] = self.st.notes.get('taint', ()) + (why,)

    # contract-level assertions
    def prove(self, cond, msg, kind='post'):
        self.count(kind)
        if not cond:
            self.fail(kind, msg)
        return cond

    def prove_ge(self, e, msg, kind='post'):
        if not self.entails_ge(e) and not self.quiet:
            self.ackermann(e)
        return self.prove(self.entails_ge(e), '%s [%s >= 0 not implied]' % (msg, self.c(e)), kind)

    def prove_eq(self, a, b, msg, kind='post'):
        e = self.c(L(a) - L(b))
        imp = e.imprecise()
        ok = self.entails_eq(e)
        self.count(kind)
        if not ok and not self.quiet:
            self.ackermann(e)
            e = self.c(e)
            ok = self.entails_eq(e)
        if not ok:
            self.fail(kind, '%s [got %s, expected %s]' % (msg, self.c(L(a)), self.c(L(b))), undecided=imp)
        return ok

    def prove_ne(self, a, b, msg, kind='post'):
        return self.prove(self.entails_ne(self.c(L(a) - L(b))), msg, kind)

    # ---------------------------------------------------------- interpretation
    def event(self, kind, *a):
        fn, file, line = self.where()
        ev = Event(kind, tuple(self.c(x) if isinstance(x, Lin) else x for x in a), fn, line)
        self.st.events.append(ev)
        return ev

    def gregion(self, name, gren):
        key = gren.get(name, name)
        b = sym('base', '@' + key, (), 4096, PMAX, True)
        r = self.st.regof.get(b.id)
        if r is None:
            g = self.mod.globals.get(key)
            size = g['size'] if g else None
            ty = g.get('ditype') if g else None
            r = self.region('@' + key, 'global', size, 'sym', ty, base=b)
            if g and g['const'] and 'init' in g:
                r.init = make_const_init(g)
                r.readonly = True
            elif g and 'init' in g and self.ginit:
                # the state at program start
                r.init = make_const_init(g)
            h = self.models.GLOBALS.get(name) if hasattr(self.models, 'GLOBALS') else None
            if h:
                h(self, r)
        return r

    def val(self, frame, v):
        if isinstance(v, int):
            return frame.env[v]
        k = v[0]
        if k == 'i':
            return K(int(v[2]))
        if k == 'null':
            return ZERO
        if k == 'f':
            return self.funcptr(frame.fn.d['ren'].get(v[1], v[1]))
        if k == 'g':
            return self.gregion(v[1], frame.fn.d['gren']).ptr()
        if k == 'off':
            return self.val(frame, v[1]) + v[2]
        if k == 'undef':
            self.st.ctr += 1
            return L(sym('undef', 'undef#%d' % self.st.ctr, (), -INF, INF, v[1] == 'ptr'))
        if k == 'md' or k == 'bb':
            return None
        if k == 'zero':
            return ZERO
        raise Broken('operand %r' % (v,))

    def funcptr(self, name):
        return L(sym('func', name, (), 4096, PMAX, True, FUN_T, name='&' + name))

    def call(self, name, *args):
        """contract entry: interpret a library function"""
        fn = self.mod.fns.get(name)
        if fn is None:
            raise Broken('anchor %s is not defined in the analysed sources' % name)
        self.last_call = fn
        return self.invoke(fn, [L(a) for a in args])

    def callback_library(self, fnval, args):
        s = self.c(fnval).single()
        if s is not None and s.kind == 'func' and s.tag in self.mod.fns:
            if not any(f.fn for f in self.frames):
                self.last_call = self.mod.fns[s.tag]
            return self.invoke(self.mod.fns[s.tag], args)
        raise Broken('not a library function: %s' % fnval)

    def invoke(self, fn, args, extra=()):
        if sum(1 for f in self.frames if f.fn is fn) > self.rec_depth or len(self.frames) > 40:
            return self.recursive(fn, args)
        self.functions.add(fn.name)
        env = {}
        for i in range(fn.nargs):
            env[i] = args[i]
        fr = Frame(fn, env)
        fr.args = list(args)
        fr.line = fn.line
        fr.file = fn.file
        fr.extra = list(args[fn.nargs:]) + list(extra)
        self.frames.append(fr)
        try:
            r = self.run(fr, 0, None)
        finally:
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()
        return r

    rec_depth = 0
    ginit = False

    def recursive(self, fn, args):
        h = self.recursion_model.get(fn.name)
        if h:
            return h(self, args)
        self.event('recurse', fn.name, *args)
        self.taint('recursion into ' + fn.name)
        rw = fn.d['rw']
        if rw:
            return self.fresh('rec_' + fn.name, *irange(rw // 8 or 1, False), imp=True)
        return None

    def run(self, fr, b, prev, stay=None, start=None):
        """interpret from block b; stay=(header, body): stop when leaving/looping"""
        fn = fr.fn
        while True:
            if stay is not None and b not in stay[1]:
                raise LoopLeft(fr, b, prev)
            if prev is not None or b == 0:
                self.covered.add((fn.name, b))
            skip_phi = False
            if b in fn.loops:
                body = fn.loops[b]
                if prev is None or prev not in body:
                    if start is not None:
                        skip_phi = start == 'preset'
                        start = None
                    elif self.enter_loop(fr, b, prev) == 'generic':
                        skip_phi = True
                else:
                    m = fr.mode.get(b)
                    if m == 'unroll':
                        fr.count[b] = fr.count.get(b, 0) + 1
                        if x_limit(self, fr, b):
                            raise PathEnd()
                        if fr.count[b] > 300:
                            raise Broken('unroll limit in %s' % fn.name)
                    elif m == 'trial':
                        fr.count[b] = fr.count.get(b, 0) + 1
                        if fr.count[b] > self.trial_cap(fr, b):
                            raise StopTrial()
                    else:
                        nexts = self.phis(fr, b, prev)
                        if isinstance(m, tuple):
                            import loops
                            loops.backedge(self, fr, b, nexts)
                        raise BackEdge(fr, b, nexts)
            if not skip_phi:
                ph = self.phis(fr, b, prev)
                fr.env.update(ph)
            nb = None
            for ins in fn.blocks[b]:
                op = ins['op']
                if op == 'phi':
                    continue
                if 'line' in ins:
                    fr.line = ins['line']
                    fr.file = ins['file']
                if op == 'br':
                    if 'cond' in ins:
                        cv = self.truth(self.val(fr, ins['cond']))
                        nb = ins['t'] if cv else ins['f']
                    else:
                        nb = ins['t']
                elif op == 'ret':
                    if ins['ops']:
                        return self.val(fr, ins['ops'][0])
                    return None
                elif op == 'switch':
                    v = self.val(fr, ins['cond'])
                    nb = ins['def']
                    for cval, tgt in ins['cases']:
                        if self.icmp('eq', v, K(cval), ins['w']):
                            nb = tgt
                            break
                elif op == 'unreachable':
                    raise PathEnd()
                else:
                    r = self.inst(fr, ins, op)
                    if 'id' in ins:
                        fr.env[ins['id']] = r
            prev, b = b, nb

    def truth(self, v):
        if v.isconst():
            return v.c % 2 == 1
        return not self.decide_eq(v)

    def phis(self, fr, b, prev):
        out = {}
        for ins in fr.fn.blocks[b]:
            if ins['op'] != 'phi':
                break
            for pb, v in ins['ops']:
                if pb == prev:
                    out[ins['id']] = self.val(fr, v)
                    break
        return out

    def trial_cap(self, fr, b):
        return self.unroll_cap

    # ---- instructions
    def icmp(self, pred, a, b, w, isptr=False):
        if pred in ('eq', 'ne'):
            d = self.c(a - b)
            if isptr:
                r = self.decide_eq(d)
            else:
                M = 1 << w
                lo, hi = bounds(d)
                if -M < lo and hi < M or (self.entails_ge(d + M - 1) and self.entails_ge(K(M - 1) - d)):
                    r = self.decide_eq(d)
                else:
                    r = self.decide_eq(self.uview(a, w) - self.uview(b, w))
            return r if pred == 'eq' else not r
        if isptr:
            a, b = self.c(a), self.c(b)
        elif pred[0] == 's':
            a, b = self.sview(a, w), self.sview(b, w)
        else:
            a, b = self.uview(a, w), self.uview(b, w)
        p = pred[1:]
        if isptr:
            # pointers into one object: compare offsets; otherwise addresses
            pass
        if p == 'gt':
            return self.decide_ge(a - b - 1)
        if p == 'ge':
            return self.decide_ge(a - b)
        if p == 'lt':
            return self.decide_ge(b - a - 1)
        return self.decide_ge(b - a)

    def inst(self, fr, ins, op):
        if op == 'call':
            return self.docall(fr, ins)
        V = lambda i: self.val(fr, ins['ops'][i])
        w = ins.get('w')
        if self.sharing and op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
            r = self.atomics(op, ins, V)
            if r is not None:
                return r[0]
        if op == 'load':
            return self.load(V(0), ins['size'], isptr=ins['ty'] == 'ptr')
        if op == 'store':
            self.store(V(1), V(0), ins['size'], ins['vty'] == 'ptr')
            return None
        if op == 'getelementptr':
            p = self.val(fr, ins['base']) + ins['c']
            for v, sz, vw in ins['vs']:
                p = p + self.sview(self.val(fr, v), vw) * sz
            return p
        if op == 'icmp':
            a, b = V(0), V(1)
            self.undef_check(self.c(a))
            self.undef_check(self.c(b))
            return ONE if self.icmp(ins['pred'], a, b, ins['cw'], ins['cp']) else ZERO
        if op == 'alloca':
            r = self.stack(ins['size'], '%s.%d' % (fr.fn.name, ins['id']))
            return r.ptr()
        if op in ('add', 'sub'):
            a, b = V(0), V(1)
            r = a + b if op == 'add' else a - b
            if ins.get('nsw') and w >= 32:
                self.nsw(fr, r, a, b, w, op)
            return r
        if op == 'mul':
            return self.mul(fr, V(0), V(1), w, ins.get('nsw') and w >= 32)
        if op in ('zext', 'ptrtoint', 'inttoptr'):
            fw = ins.get('fw', 64)
            if op == 'zext':
                if fw == 1:
                    return V(0)
                return self.uview(V(0), fw)
            return V(0)
        if op == 'sext':
            fw = ins['fw']
            if fw == 1:
                return -V(0)
            return self.sview(V(0), fw)
        if op in ('trunc', 'bitcast', 'freeze'):
            v = V(0)
            if op == 'trunc' and w == 1:
                v = self.uview(v, 8)
                _, r = self.divmod_const(v, 2)
                return r
            return v
        if op == 'select':
            return V(1) if self.truth(V(0)) else V(2)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            return self.div(op, V(0), V(1), w)
        if op == 'shl':
            b = self.c(V(1))
            b = self.shiftcount(b, w)
            if b.isconst():
                return V(0) * (1 << b.c)
            a = self.c(V(0))
            # small set of shift counts: partition
            lo, hi = bounds(b)
            for n in range(max(lo, 0), min(hi, w - 1) + 1):
                if self.decide_eq(b - n):
                    return a * (1 << n)
            return self.app('shl', (a, b), imp=True)
        if op in ('lshr', 'ashr'):
            b = self.shiftcount(V(1), w)
            a = self.uview(V(0), w) if op == 'lshr' else self.sview(V(0), w)
            if b.isconst():
                return self.divmod_const(a, 1 << b.c)[0]
            lo, hi = bounds(b)
            for n in range(max(lo, 0), min(hi, w - 1) + 1):
                if self.decide_eq(b - n):
                    return self.divmod_const(a, 1 << n)[0]
            return self.app('shr', (a, b), imp=True)
        if op in ('and', 'or', 'xor'):
            return self.bitop(op, V(0), V(1), w)
        if op == 'atomicrmw':
            p = V(0)
            old = self.load(p, ins['size'])
            v = V(1)
            k = ins['rmw']
            new = old + v if k == 'add' else old - v if k == 'sub' else v if k == 'xchg' else None
            if new is None:
                new = self.fresh('rmw', *irange(ins['size'], False), imp=True)
            self.store(p, new, ins['size'])
            self.event('atomic', k, p, v, old)
            return old
        if op == 'cmpxchg':
            p = V(0)
            old = self.load(p, ins['size'])
            if self.decide_eq(old - V(1)):
                self.store(p, V(2), ins['size'])
                return (old, ONE)
            return (old, ZERO)
        if op == 'extractvalue':
            return V(0)[ins['idx'][0]]
        if op == 'fence':
            return None
        if op == 'insertvalue':
            raise Broken('insertvalue')
        if op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'fneg'):
            return self.fresh('fp', -(1 << 63), (1 << 64) - 1, imp=True)
        raise Broken('instruction %s in %s' % (op, fr.fn.name))

    def nsw(self, fr, r, a, b, w, op):
        e = self.c(r)
        lo, hi = irange(w // 8, True)
        bl, bh = bounds(e)
        if bl >= lo and bh <= hi and all(bounds(self.c(q))[1] <= hi for q in (a, b)):
            return
        if self.nsw_assume:
            return
        a, b = self.sview(a, w), self.sview(b, w)
        v = a + b if op == 'add' else a - b
        self.oblige('overflow', lambda: self.entails_ge(v - lo) and self.entails_ge(K(hi) - v),
                    lambda: (self.assume_ge(e - lo), self.assume_ge(K(hi) - e)),
                    'signed overflow in %s' % e)

    def range_of(self, e):
        """bounds that follow from what is known, up to a power of two"""
        e = self.c(e)
        lo, hi = bounds(e)
        for k in (0, 8, 16, 24, 30, 31, 32, 33, 40, 48, 56, 62, 63):
            if hi <= 1 << k:
                break
            if self.entails_ge(K(1 << k) - e):
                hi = 1 << k
                break
        for k in (-1, 0, 8, 16, 24, 30, 31, 32, 33, 40, 48, 56, 62, 63):
            v = 0 if k < 0 else -(1 << k)
            if lo >= v:
                break
            if self.entails_ge(e - v):
                lo = v
                break
        return lo, hi

    def mul(self, fr, a, b, w, nsw):
        a, b = self.c(a), self.c(b)
        if a.isconst():
            a, b = b, a
        if not b.isconst():
            f = self.sview if nsw else self.uview
            a, b = f(a, w), f(b, w)
            if a.isconst():
                a, b = b, a
        if b.isconst():
            k = b.c if not nsw else self.sview(b, w).c
            r = a * k
            if nsw:
                self.nswmul(r, self.sview(a, w) * k, w)
            return r
        if str(a) > str(b):
            a, b = b, a
        (al, ah), (bl, bh) = self.range_of(a), self.range_of(b)
        ps = [p * q for p in (al, ah) for q in (bl, bh)]
        r = self.app('mul', (a, b), min(ps), max(ps))
        if nsw:
            self.nswmul(r, r, w)
        return r

    def shiftcount(self, b, w):
        b = self.c(self.uview(b, w))
        if not (b.isconst() and 0 <= b.c < w):
            self.oblige('overflow', lambda: self.entails_ge(b) and self.entails_ge(K(w - 1) - b),
                        lambda: (self.assume_ge(b), self.assume_ge(K(w - 1) - b)), 'shift by %s of a %d bit number' % (b, w))
            b = self.c(b)
            if b.isconst() and not 0 <= b.c < w:
                raise PathEnd()
        return b

    def nswmul(self, r, v, w):
        lo, hi = irange(w // 8, True)
        bl, bh = bounds(self.c(v))
        if self.nsw_assume or bl >= lo and bh <= hi:
            return
        self.oblige('overflow', lambda: self.entails_ge(v - lo) and self.entails_ge(K(hi) - v),
                    lambda: (self.assume_ge(v - lo), self.assume_ge(K(hi) - v)),
                    'signed overflow in %s' % self.c(r))

    def div(self, op, a, b, w):
        sg = op[0] == 's'
        a = self.sview(a, w) if sg else self.uview(a, w)
        b = self.sview(b, w) if sg else self.uview(b, w)
        self.oblige('divzero', lambda: self.entails_ne(b), lambda: self.assume_ne(b), 'division by zero')
        b = self.c(b)
        a = self.c(a)
        if sg and not self.entails_ge(a):
            if b.isconst() and b.c > 0 and not self.decide_ge(a):
                q, r = self.divmod_const(-a, b.c)
                return -q if op[1:] == 'div' else -r
            if not b.isconst() and not self.decide_ge(a):
                return self.app(op, (a, b), -(1 << (w - 1)), (1 << (w - 1)), imp=True)
        a = self.c(a)
        if b.isconst() and b.c > 0:
            q, r = self.divmod_const(a, b.c)
            return q if op[1:] == 'div' else r
        if self.entails_ge(b - 1):
            if self.decide_ge(b - a - 1):
                return ZERO if op[1:] == 'div' else a
            if self.decide_ge(b * 2 - a - 1):
                return ONE if op[1:] == 'div' else self.c(a - b)
            if op[1:] == 'rem':
                v = self.app('rem', (a, b), 0, bounds(b)[1])
                self.assume_ge(b - v - 1, False)
                return v
        return self.app(op, (a, b), 0 if not sg else -(1 << (w - 1)), (1 << w), imp=True)

    def bitop(self, op, a, b, w):
        a, b = self.c(a), self.c(b)
        M = 1 << w
        if a.isconst() and not b.isconst():
            a, b = b, a
        if w == 1:
            x, y = self.truth(a), self.truth(b)
            return ONE if (x and y if op == 'and' else x or y if op == 'or' else x != y) else ZERO
        if a.isconst() and b.isconst():
            x, y = a.c % M, b.c % M
            return K(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
        if a == b:
            return a if op != 'xor' else ZERO
        if b.isconst():
            m = b.c % M
            if op == 'xor':
                if m == 0:
                    return a
                if m == M - 1:
                    return -a - 1
                return a + m - self.mask(a, m, w) * 2
            if op == 'and':
                return self.mask(a, m, w)
            return a + m - self.mask(a, m, w)
        if op in ('or', 'add', 'xor'):
            for x, y in ((a, b), (b, a)):
                g = 0
                for _, k in x.t:
                    g = gcd(g, k)
                g = gcd(g, x.c) if x.c else g
                p = g & -g if g else 0
                if p > 1:
                    lo, hi = bounds(y)
                    if lo >= 0 and hi < p or self.entails_ge(y) and self.entails_ge(K(p - 1) - y):
                        return x + y
        a, b = self.uview(a, w), self.uview(b, w)
        if a.isconst() or b.isconst():
            return self.bitop(op, a, b, w)
        if op == 'xor' and a == b:
            return ZERO
        # flag-like values: partition on the small side
        if str(a) > str(b):
            a, b = b, a
        hi = max(bounds(a)[1], bounds(b)[1])
        r = self.app(op, (a, b), 0, (1 << max(hi.bit_length(), 1)) - 1 if op != 'and' else min(bounds(a)[1], bounds(b)[1]))
        if op == 'and':
            # single-bit operand (1 << n or a literal chosen on this trace)
            pass
        return r

    def mask(self, a, m, w):
        """a & m for a constant mask, as digits of a"""
        M = 1 << w
        m %= M
        if m == 0:
            return ZERO
        s = a.single()
        if s is not None and s.kind == 'app' and s.tag in ('ctype', 'ascii'):
            return self.models.table_mask(self, s, m)
        if m == M - 1:
            return a
        lo, hi = bounds(a)
        if m & (m + 1) == 0 and lo >= 0 and hi <= m:
            return a
        if m & (M >> 1) and bin(~m & (M - 1)).count('1') < bin(m).count('1') and (~m & (M - 1)) & ((~m & (M - 1)) + 1) == 0:
            return a - self.mask(a, ~m & (M - 1), w)
        out = ZERO
        i = 0
        if m >> (w - 1):
            a = self.uview(a, w)
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1:
                    j += 1
                q = self.divmod_const(a, 1 << i)[0] if i else a
                if not (m >> j == 0 and j == w):
                    q = self.divmod_const(q, 1 << (j - i))[1]
                out = out + q * (1 << i)
                i = j
            else:
                i += 1
        return self.c(out)

    # ----------------------------------------------------------------- calls
    def docall(self, fr, ins):
        cal = ins['callee']
        args = [self.val(fr, o) for o in ins['ops']]
        args = [a for a in args]
        if isinstance(cal, list) and cal[0] == 'f':
            name = fr.fn.d['ren'].get(cal[1], cal[1])
        elif isinstance(cal, list) and cal[0] == 'asm':
            return None
        else:
            p = self.c(self.val(fr, cal))
            s = p.single()
            if s is not None and s.kind == 'func':
                name = s.tag
            else:
                if p.isconst():
                    self.count('nonnull')
                    self.fail('null-call', 'call through a NULL function pointer')
                    raise PathEnd()
                self.undef_check(p)
                self.oblige('nonnull', lambda: self.entails_ne(p), lambda: self.assume_ne(p),
                            'call through a function pointer that may be NULL (%s)' % p)
                return self.callback(self.c(p), args, ins)
        if not self.quiet:
            self.callsites.add((fr.fn.name, fr.line, name))
        return self.dispatch(name, args, ins, fr)

    def dispatch(self, name, args, ins, fr):
        h = self.stub.get(name)
        if h is not None:
            return h(self, args, ins)
        fn = self.mod.fns.get(name)
        if fn is not None:
            return self.invoke(fn, args)
        if name.startswith('llvm.'):
            return self.models.intrinsic(self, name, args, ins, fr)
        h = getattr(self.models, 'm_' + name, None)
        if h is not None:
            return h(self, args, ins)
        return self.models.unknown(self, name, args, ins)

    def callback(self, p, args, ins):
        self.event('cb', p, *args)
        r = None
        if self.cb_hook:
            r = self.cb_hook(self, p, args, ins)
        if r is None and ins.get('w'):
            ty = ins['ty']
            r = self.fresh('cbret', *irange(max(ins['w'] // 8, 1), ty == 'i32' or ty == 'i64'), ptr=ty == 'ptr') if ty != 'ptr' else \
                self.fresh('cbret', 0, PMAX, True, VOIDP)
        return r

    # ------------------------------------------------------------------ loops
    def enter_loop(self, fr, h, prev):
        import loops
        return loops.enter(self, fr, h, prev)


def x_limit(x, fr, b):
    """a loop over finitely many concrete items that does not end"""
    if not x.unrollall or fr.count[b] - fr.base.get(b, 0) <= x.unrollall:
        return False
    if any(e[0] == 'd' for e in x.log[fr.mark[b]:x.pos]):
        # look at the following iterations
        if fr.count[b] > 4 * x.unrollall:
            raise Broken('unroll limit in %s' % fr.fn.name)
        fr.base[b] = fr.count[b]
        fr.mark[b] = x.pos
        return False
    x.fail('nontermination', 'the loop in %s does not end' % fr.fn.name)
    return True


class StopTrial(Exception):
    pass


def make_const_init(g):
    """initialiser reader for constant globals (tables)"""
    flat = {}

    def put(c, off):
        k = c[0]
        if k == 'i':
            flat[off] = (int(c[1]) // 8, ('i', int(c[2])))
        elif k == 'agg':
            for n, x in enumerate(c[2]):
                put(x, off + n * c[1])
        elif k == 'st':
            for o, x in zip(c[1], c[2]):
                put(x, off + o)
        elif k in ('f', 'g', 'null', 'off'):
            flat[off] = (8, c)
        elif k == 'zero':
            flat.setdefault('zeros', []).append((off, c[1]))
    put(g['init'], 0)
    zeros = flat.pop('zeros', [])

    class FF:
        class fn:
            d = {'ren': g.get('ren', {}), 'gren': g.get('gren', {})}

    def init(x, r, off, size, isptr):
        if off.isconst():
            e = flat.get(off.c)
            if e and e[0] == size:
                if e[1][0] == 'i':
                    return K(e[1][1] % (1 << (8 * size)))
                return x.val(FF, e[1])
            for o, n in zeros:
                if o <= off.c < o + n:
                    return ZERO
            return None
        # symbolic index into an integer table: partition into linear runs
        g0 = 0
        for _, k in off.t:
            g0 = gcd(g0, k)
        if any(e[1][0] != 'i' for e in flat.values()):
            # table of pointers/structs: partition on the index
            lo, hi = 0, g['size']
            o = off.c % g0
            while o + size <= hi:
                if x.decide_eq(off - o):
                    return init(x, r, K(o), size, isptr)
                o += g0
            return None
        runs = []
        o = off.c % g0
        while o + size <= g['size']:
            e = flat.get(o)
            v = e[1][1] % (1 << (8 * size)) if e and e[0] == size else 0
            idx = o // g0
            if runs and (runs[-1][2] in (None, v - runs[-1][3]) and v - runs[-1][3] in (0, 1)):
                runs[-1][2] = v - runs[-1][3]
                runs[-1][1] = o
                runs[-1][3] = v
            else:
                runs.append([o, o, None, v, v])
            o += g0
        for lo, hi, step, vl, v0 in runs:
            if x.decide_ge(K(hi) - off):
                if not step:
                    return K(v0)
                d = off - lo
                return K(v0) + Lin(tuple((i, k // g0) for i, k in d.t), d.c // g0) * step
        return None
    return init
