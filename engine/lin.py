"""Linear forms over interned symbols and a polyhedra-domain emptiness test.

Every abstract integer/pointer value is a linear form  c + sum(coef * sym).
A symbol is hash-consed by its structural key, carries a static integer range
and may itself have linear forms as arguments (array element at an offset,
quotient of a form by a constant, uninterpreted result of a pure function...).
"""
from math import gcd

INF = 1 << 200


class Sym:
    __slots__ = ('id', 'key', 'name', 'lo', 'hi', 'kind', 'args', 'ptr', 'ptee', 'imp', 'info', 'tag')

    def __repr__(self):
        return self.name


SYMS = []
_intern = {}


def sym(kind, tag, args=(), lo=-INF, hi=INF, ptr=False, ptee=None, imp=False, name=None, info=None):
    """Interned symbol. kind+tag+args+range identify it."""
    key = (kind, tag, args, lo, hi, ptr, ptee.get('name') if kind == 'param' and ptee else None)
    s = _intern.get(key)
    if s is None:
        s = Sym()
        s.id = len(SYMS)
        s.key = key
        s.kind = kind
        s.tag = tag
        s.args = args
        s.lo = lo
        s.hi = hi
        s.ptr = ptr
        s.ptee = ptee
        s.imp = imp or any(a.imprecise() for a in args if isinstance(a, Lin))
        s.info = info
        if name is None:
            name = str(tag) if not args else '%s(%s)' % (tag if tag is not None else kind, ','.join(map(str, args)))
        s.name = name
        SYMS.append(s)
        _intern[key] = s
    return s


class Lin:
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c):
        self.t = t          # tuple of (symid, coef), sorted
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def isconst(self):
        return not self.t

    def syms(self):
        return [SYMS[i] for i, _ in self.t]

    def imprecise(self):
        return any(SYMS[i].imp for i, _ in self.t)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for i, k in o.t:
            v = d.get(i, 0) + k
            if v:
                d[i] = v
            else:
                d.pop(i, None)
        return Lin(tuple(sorted(d.items())), self.c + o.c)
    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((i, -k) for i, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, n):
        if n == 0:
            return ZERO
        if n == 1:
            return self
        return Lin(tuple((i, k * n) for i, k in self.t), self.c * n)
    __rmul__ = __mul__

    def coef(self, s):
        for i, k in self.t:
            if i == s.id:
                return k
        return 0

    def single(self):
        """the symbol when the form is exactly 1*sym"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1:
            return SYMS[self.t[0][0]]
        return None

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = []
        for i, k in self.t:
            n = SYMS[i].name
            out.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + n)
        s = ' + '.join(out).replace('+ -', '- ')
        if self.c:
            s += ' %s %d' % ('+' if self.c > 0 else '-', abs(self.c))
        return s


ZERO = Lin((), 0)
ONE = Lin((), 1)


def K(n):
    return Lin((), n)


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Sym):
        return Lin(((x.id, 1),), 0)
    return Lin((), int(x))


def bounds(e):
    lo = hi = e.c
    for i, k in e.t:
        s = SYMS[i]
        if k > 0:
            lo += k * s.lo
            hi += k * s.hi
        else:
            lo += k * s.hi
            hi += k * s.lo
    return (max(lo, -INF), min(hi, INF))


def contains(e, sid):
    """does the form mention symbol sid, also inside structured arguments"""
    for i, _ in e.t:
        if i == sid or sym_contains(SYMS[i], sid):
            return True
    return False


_cont = {}


def sym_contains(s, sid):
    if not s.args:
        return False
    k = (s.id, sid)
    r = _cont.get(k)
    if r is None:
        r = any(isinstance(a, Lin) and contains(a, sid) for a in s.args)
        _cont[k] = r
    return r


def all_syms(e, out=None):
    if out is None:
        out = set()
    for i, _ in e.t:
        if i not in out:
            out.add(i)
            for a in SYMS[i].args:
                if isinstance(a, Lin):
                    all_syms(a, out)
    return out


def norm_ge(e):
    """tighten e >= 0 over the integers"""
    if not e.t:
        return e
    g = 0
    for _, k in e.t:
        g = gcd(g, k)
    if g > 1:
        return Lin(tuple((i, k // g) for i, k in e.t), e.c // g)
    return e


FM_CAP = 1500
stats = {'fm': 0, 'cap': 0}


def empty(cons):
    """Polyhedron {e >= 0 for e in cons} provably without integer points?
    (Fourier-Motzkin projection with integer tightening; sound, incomplete.)"""
    stats['fm'] += 1
    cur = set()
    for e in cons:
        e = norm_ge(e)
        if not e.t:
            if e.c < 0:
                return True
            continue
        cur.add(e)
    cur = _dedupe(cur)
    if cur is None:
        return True
    while cur:
        eq = _equality(cur)
        if eq is not None:
            # e == 0 with a unit coefficient: substitute (exact over the integers)
            e, v, kv = eq
            new = set()
            for f in cur:
                k = 0
                for i, kk in f.t:
                    if i == v:
                        k = kk
                        break
                if k:
                    f = norm_ge(f - e * (k * kv))
                    if not f.t:
                        if f.c < 0:
                            return True
                        continue
                new.add(f)
            cur = _dedupe(new)
            if cur is None:
                return True
            continue
        pos, neg, big = {}, {}, {}
        for e in cur:
            for i, k in e.t:
                d = pos if k > 0 else neg
                d[i] = d.get(i, 0) + 1
                if k > 1:
                    big[i] = big.get(i, 0) | 1
                elif k < -1:
                    big[i] = big.get(i, 0) | 2
        best = None
        for i in set(pos) | set(neg):
            p, n = pos.get(i, 0), neg.get(i, 0)
            cost = p * n - p - n
            if big.get(i, 0) == 3 and p and n:
                cost += 20      # projection is not exact over the integers
            if best is None or cost < best[0] or (cost == best[0] and i > best[1]):
                best = (cost, i)
        v = best[1]
        P, N, R = [], [], []
        for e in cur:
            k = 0
            for i, kk in e.t:
                if i == v:
                    k = kk
                    break
            (P if k > 0 else N if k < 0 else R).append((k, e))
        new = set(e for _, e in R)
        for kp, ep in P:
            for kn, en in N:
                g = gcd(kp, -kn)
                r = norm_ge(ep * (-kn // g) + en * (kp // g))
                if not r.t:
                    if r.c < 0:
                        return True
                else:
                    new.add(r)
        cur = _dedupe(new)
        if cur is None:
            return True
        if len(cur) > FM_CAP:
            stats['cap'] += 1
            return False
    return False


def _equality(cs):
    d = None
    for e in cs:
        if len(e.t) > 1:
            if d is None:
                d = {f.t: f.c for f in cs}
            o = d.get(tuple((i, -k) for i, k in e.t))
            if o is not None and o + e.c == 0:
                for i, k in e.t:
                    if k == 1 or k == -1:
                        return e, i, k
    return None


def _dedupe(cs):
    best = {}
    for e in cs:
        o = best.get(e.t)
        if o is None or e.c < o:
            best[e.t] = e.c
    for t, c in best.items():
        nt = tuple((i, -k) for i, k in t)
        o = best.get(nt)
        if o is not None and c + o < 0:
            return None
    return set(Lin(t, c) for t, c in best.items())
