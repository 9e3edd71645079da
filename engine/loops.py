"""Loop treatment: bounded unrolling when every trace leaves the loop within
the bound, otherwise a summary: closed forms for inductive scalars and memory
cells, for-all write segments, per-iteration event templates and invariants
kept by candidate elimination.  Every summary is re-verified at the back edge
of the generic iteration."""
from fractions import Fraction
from math import gcd
from lin import *
import absint
from absint import PathEnd, BackEdge, LoopLeft, StopTrial, W, Event, irange, PMAX, VOIDP, Broken


class Sum:
    pass


def enter(x, fr, h, prev):
    if x.unrollall:
        x.loops_seen.setdefault((fr.fn.name, h), 'unrolled')
        fr.mode[h] = 'unroll'
        fr.count[h] = 0
        fr.mark[h] = x.pos
        fr.base.pop(h, None)
        return 'unroll'
    res = x.memo(lambda: analyse(x, fr, h, prev))
    if res is None:
        fr.mode[h] = 'unroll'
        fr.count[h] = 0
        return 'unroll'
    apply(x, fr, h, res)
    fr.mode[h] = ('generic', res)
    return 'generic'


def analyse(x, fr, h, prev):
    fn = fr.fn
    body = fn.loops[h]
    key = (fn.name, fr.line)
    ctr = x.st.ctr
    try:
        if trial(x, h, prev, body):
            x.loops_seen[(fn.name, h)] = 'unrolled'
            x.st.ctr = ctr
            return None
        s = summarise(x, fr, h, prev, body)
        x.loops_seen[(fn.name, h)] = 'summary: ' + s.text
        return s
    finally:
        pass


def trial(x, h, prev, body):
    def go(x):
        f = x.frames[-1]
        f.mode[h] = 'trial'
        f.count[h] = 0
        try:
            x.run(f, h, prev, (h, body), 'keep')
        except LoopLeft:
            pass
        except StopTrial:
            if any(e[0] == 'd' for e in x.log):
                return StopIteration
            return StopIteration
        return 1
    x.quiet += 1
    oe = x.exact
    x.exact = True
    try:
        r = x.sub(go, x.trial_limit)
    finally:
        x.quiet -= 1
        x.exact = oe
    return r is not None


def variant(e, ids, ctr0, names):
    for i in all_syms(e):
        if i in ids or i in names:
            return True
    return False


class Rec:
    pass


def discover(x, fr, h, prev, body, pre, exact, checks=None):
    """run one generic iteration; pre(x, frame) sets the header state"""
    def go(x):
        f = x.frames[-1]
        f.mode[h] = 'discover'
        pre(x, f)
        mark_e, mark_f = len(x.st.events), len(x.st.flog)
        heads = {}
        for b, r in x.st.regof.items():
            heads[b] = (r, r.head, r.freed)
        ctr1 = x.st.ctr
        try:
            x.run(f, h, prev, (h, body), 'preset')
            return None
        except LoopLeft:
            return None
        except BackEdge as be:
            if be.header != h or be.frame is not f:
                raise PathEnd()
            rec = Rec()
            rec.ctr0 = ctr1
            rec.nexts = {k: x.c(v) if isinstance(v, Lin) else v for k, v in be.nexts.items()}
            # an equation is kept as it was found: in the final state it is trivial
            rec.flog = [(o, e if o == 'eq' else x.c(e)) for o, e in x.st.flog[mark_f:]]
            rec.events = x.st.events[mark_e:]
            rec.writes = []
            rec.freed = []
            rec.born = []
            for b, r in x.st.regof.items():
                if b in heads:
                    r0, h0, fr0 = heads[b]
                    ws = []
                    w = r.head
                    n0 = h0.n if h0 else 0
                    while w is not None and w.n > n0:
                        ws.append((w.k, x.c(w.off), x.c(w.size) if isinstance(w.size, Lin) else w.size, w))
                        w = w.prev
                    ws.reverse()
                    if ws:
                        rec.writes.append((b, r, ws))
                    if r.freed and not fr0:
                        rec.freed.append(b)
                else:
                    rec.born.append((b, r, r.head is not None))
            rec.st = x.st
            rec.cells = {}
            if checks is not None:
                rec.checks = checks(x, rec)
            rec.x = x
            return rec
    x.quiet += 1
    oe = x.exact
    x.exact = exact
    try:
        return x.sub(go, 500)
    finally:
        x.quiet -= 1
        x.exact = oe


def summarise(x, fr, h, prev, body):
    """guess the class of every loop variable, infer invariants under the guess
    and check the guess on the generic iteration; wrong guesses are demoted"""
    banned, lags = {}, {}
    ctr = x.st.ctr
    for attempt in range(10):
        x.st.ctr = ctr
        S, bad = summarise1(x, fr, h, prev, body, banned, lags)
        if not bad:
            return S
        for b in bad:
            banned[b] = banned.get(b, 0) + 1
    return S


def summarise1(x, fr, h, prev, body, banned, lags):
    fn = fr.fn
    phis = [i for i in fn.blocks[h] if i['op'] == 'phi']
    inits = {k: x.c(v) for k, v in x.phis(fr, h, prev).items()}
    x.st.ctr += 1
    lid = '%s%s.%d' % (x.st.tag or '', fn.name, x.st.ctr)
    S = Sum()
    S.text = ''
    S.phis = {}
    S.cells = {}
    pre_syms = set(x.st.regof)
    for e in x.st.ges:
        pre_syms |= all_syms(e)
    for b, r in x.st.regof.items():
        w = r.head
        while w is not None:
            if isinstance(w.val, Lin):
                pre_syms |= all_syms(x.c(w.val))
            w = w.prev
    for f in x.frames:
        for v in f.env.values():
            if isinstance(v, Lin):
                pre_syms |= all_syms(x.c(v))
    S.lid = lid
    S.fn = fn.name
    S.h = h
    S.kind_of = {}
    ctr0 = x.st.ctr
    S.imprecise = []
    S0regs = {b: r for b, r in x.st.regof.items()}

    def psi(tag, lo=-(1 << 62), hi=1 << 62, imp=False, ptr=False, ptee=None):
        return sym('psi', '%s:%s' % (lid, tag), (), lo, hi, ptr, ptee, imp)

    cls = {}
    for p in phis:
        cls[p['id']] = ['ind', psi('p%d' % p['id']), inits[p['id']], p]
    cells = {}     # (baseid, off, size) -> ['ind', sym, init, None]

    def headval(c):
        if c[0] in ('ind', 'cnt', 'hvoff'):
            return c[2] + L(c[1])
        return L(c[1])

    def invariant_form(e):
        return not any(i in loopsyms() or SYMS[i].kind in ('psi', 'fresh', 'undef', 'iter') and i not in pre_syms for i in all_syms(e))

    def options(diffs, typ):
        """candidate classes for a variable with these steps, the likeliest first;
        a guess is kept only if it proves inductive"""
        n = {}
        for d in diffs:
            n[d] = n.get(d, 0) + 1
        cs = sorted((d for d in n if d.isconst()), key=lambda d: (-n[d], d.c))
        inv = sorted((d for d in n if not d.isconst() and invariant_form(d)), key=lambda d: (-n[d], str(d)))
        out = []
        if typ != 'ptr':
            for a in cs[:2]:
                for b in inv[:3]:
                    out.append(('mod', (a.c, b - a)))
        if cs and (len(cs) < len(n) or n[cs[0]] * 4 >= len(diffs) * 3):
            out.append(('ind', cs[0].c))
        if len(cs) == len(n):
            out.append(('cnt', (min(d.c for d in cs), max(d.c for d in cs))))
        return out

    def pre(x, f):
        for pid, c in cls.items():
            f.env[pid] = headval(c)
        for (b, off, size), c in cells.items():
            r = x.st.regof.get(b)
            if r is not None:
                x.rstore(r, off, headval(c), size)
                if c[0] == 'hv' and c[1].ptr is False:
                    pass

    def loopsyms():
        ids = set()
        for c in list(cls.values()) + list(cells.values()):
            ids.add(c[1].id)
        return ids

    for rnd in range(10):
        recs = discover(x, fr, h, prev, body, pre, False, lambda x, rec: {k: x.rload(x.st.regof[k[0]], k[1], k[2]) for k in cells if k[0] in x.st.regof})
        if recs is None:
            raise Broken('loop body of %s has too many traces' % fn.name)
        recs = [r for r in recs if r is not None]
        changed = False
        ids = loopsyms()

        def reclass(c, nxts, typ, key=None):
            """returns True if class changed"""
            diffs = []
            hv = headval(c)
            for st, n in nxts:
                d = n - canon_in(x, st, hv)
                diffs.append(d)
            consts = all(d.isconst() for d in diffs)
            if c[0] == 'ind':
                if consts and len(set(d.c for d in diffs)) <= 1:
                    c[4:] = [diffs[0].c if diffs else 0]
                    return False
                opts = options(diffs, typ)
                i = banned.get(key, 0)
                o = opts[i] if i < len(opts) else None
                if o and o[0] == 'ind':
                    ch = c[4:] != [o[1]]
                    c[4:] = [o[1]]
                    return ch
                if o and o[0] == 'cnt':
                    lo, hi = o[1]
                    c[0] = 'cnt'
                    c[1] = psi('cnt:' + c[1].name, 0 if lo >= 0 else -(1 << 62), 0 if hi <= 0 else (1 << 62), imp=True)
                    c[4:] = [(lo, hi)]
                    return True
                if o and o[0] == 'mod':
                    c[0] = 'mod'
                    c[1] = psi('mod:' + c[1].name, *irange(max(typ, 1), typ == 4))
                    c[4:] = [o[1]]
                    return True
                # same base object?
                isptr = typ == 'ptr'
                if isptr:
                    b0, _ = x.ptrsym(c[2])
                    same = b0 is not None
                    for st, n in nxts:
                        b1 = [i for i, k in n.t if SYMS[i].ptr and k == 1]
                        if not (b0 is not None and b1 == [b0.id]):
                            same = False
                    if same:
                        c[0] = 'hvoff'
                        c[1] = psi('off:' + c[1].name, imp=True)
                        return True
                sethv(c, nxts, typ)
                return True
            if c[0] == 'cnt':
                if consts:
                    lo, hi = min(d.c for d in diffs), max(d.c for d in diffs)
                    c[4:] = [(lo, hi)]
                    return False
                if typ == 'ptr':
                    c[0] = 'hvoff'
                    c[1] = psi('off:' + c[1].name, imp=True)
                    return True
                sethv(c, nxts, typ)
                return True
            if c[0] == 'mod':
                return False
            return False

        def sethv(c, nxts, typ):
            c[0] = 'hv'
            if typ == 'ptr':
                ptee = None
                for e in [c[2]] + [n for _, n in nxts]:
                    s = e.single()
                    if s is not None and s.ptee:
                        ptee = s.ptee
                c[1] = psi('hv:' + c[1].name, 0, PMAX, ptr=True, ptee=ptee)
            else:
                size = typ
                lo0, hi0 = bounds(c[2])
                sg = size == 4 or lo0 < 0
                vals = [n for _, n in nxts] + [c[2]]
                lo, hi = irange(max(size, 1), sg)
                c[1] = psi('hv:' + c[1].name, lo, hi, imp=True)

        for pid, c in cls.items():
            ty = c[3]['ty']
            typ = 'ptr' if ty == 'ptr' else max((c[3]['w'] or 64) // 8, 1)
            if reclass(c, [(r, r.nexts[pid]) for r in recs], typ, pid):
                changed = True
        for key, c in cells.items():
            if reclass(c, [(r, r.checks[key]) for r in recs if key in r.checks], 'ptr' if c[3] else key[2], kname(x, key)):
                changed = True
        # discover newly written fixed cells
        moving = {}
        alias_fields = set()
        for r in recs:
            for b, reg, ws in r.writes:
                if b not in S0regs or S0regs[b].uid != reg.uid:
                    continue
                for k, off, size, w in ws:
                    if k == 'cell' and not variant(off, ids, ctr0, ()) and not born_in(off, r):
                        key = find_key(cells, b, off, w.size)
                        if key is None:
                            v0 = init_cell(x, b, off, w.size, w)
                            ft = x.field_type(reg.ty, off)
                            isptr = bool(ft and ft.get('k') == 'ptr')
                            cells[(b, off, w.size)] = ['ind', psi('c%s+%s' % (reg.uid, off)), v0, isptr]
                            changed = True
                    else:
                        moving.setdefault(b, []).append((r, k, off, size, w))
            for b, reg, touched in r.born:
                if touched and reg.kind == 'ext' and reg.ty and reg.ty.get('k') == 'struct':
                    w = reg.head
                    while w is not None:
                        if w.k == 'cell' and w.off.isconst():
                            alias_fields.add((reg.ty['name'], w.off.c, w.size))
                        w = w.prev
        for b, reg in S0regs.items():
            if reg.kind == 'ext' and reg.ty and reg.ty.get('k') == 'struct' and reg.base.id == b:
                for nm, o, sz in alias_fields:
                    if reg.ty.get('name') == nm and find_key(cells, b, K(o), sz) is None and not ('sep' in reg.info):
                        v0 = init_cell(x, b, K(o), sz, None)
                        ft = x.field_type(reg.ty, K(o))
                        isptr = bool(ft and ft.get('k') == 'ptr')
                        c = ['ind', psi('c%s+%s' % (reg.uid, o)), v0, isptr]
                        sethv(c, [], 'ptr' if isptr else sz)
                        cells[(b, K(o), sz)] = c
                        changed = True
        if not changed:
            break
    else:
        raise Broken('loop classification does not stabilise in %s' % fn.name)

    k = sym('k', lid, (), 0, 1 << 62)
    S.k = k
    kap = sym('kappa', lid, (), 0, 1 << 62)
    S.kap = kap

    def closed(e, kk):
        """express loop symbols via iteration number (inductive ones only)"""
        for c in list(cls.values()) + list(cells.values()):
            if c[0] == 'ind':
                e = x.subst_in(e, c[1], L(kk) * (c[4] if len(c) > 4 else 0) if not isinstance(kk, Lin) else kk * (c[4] if len(c) > 4 else 0))
        return e

    for pid, c in cls.items():
        if c[0] == 'hv' and pid in lags and not banned.get(pid):
            c[0] = 'lag'
            c[4:] = [lags[pid]]

    S.cls, S.cellcls = cls, cells
    S.inits = inits
    S.nback = len(recs)

    # ---- moving writes
    S.lw = []
    S.hv = []
    ids = loopsyms()
    for b, lst in moving.items():
        per = {}
        for r, kk, off, size, w in lst:
            per.setdefault(id(r), []).append((kk, off, size, w, r))
        ok = len(per) == len(recs) and len(recs) > 0
        shapes = []
        if ok:
            counts = set(len(v) for v in per.values())
            ok = len(counts) == 1
        if ok:
            cols = list(zip(*per.values()))
            for col in cols:
                offs = set(closed(o, kap) for _, o, _, _, _ in col)
                kinds = set(q[0] for q in col)
                sizes = set(q[2] if isinstance(q[2], int) else -1 for q in col)
                if len(offs) != 1 or kinds != {'cell'} or len(sizes) != 1 or -1 in sizes:
                    ok = False
                    break
                off = offs.pop()
                s = off.coef(kap)
                base_off = off - L(kap) * s
                if s == 0 or contains(base_off, kap.id) or any(i in ids for i in all_syms(off)) or any(born_sym(i, q[4]) for q in col for i in all_syms(off)):
                    ok = False
                    break
                vals = set(iterise(x, closed(canon_in(x, q[4], q[3].val), kap), kap, q[4], ids, lid) for q in col)
                if len(vals) == 1:
                    v = vals.pop()
                else:
                    v = L(sym('lwv', '%s:%s' % (lid, off), (L(kap),), *irange(col[0][3].size, False), imp=True))
                shapes.append((off, col[0][3].size, v))
        if not ok:
            # written on some paths of the iteration only, or different cells on
            # different paths: one value per cell, known for each path
            shapes = []
            ok = len(recs) > 0
            got = {}
            for r, kk, off, size, w in lst:
                off = closed(off, kap)
                s = off.coef(kap)
                if kk != 'cell' or not isinstance(size, int) or s == 0 or abs(s) < size or contains(off - L(kap) * s, kap.id) or \
                        any(i in ids for i in all_syms(off)) or any(born_sym(i, r) for i in all_syms(off)):
                    ok = False
                    break
                got[(off, size)] = s
            if ok:
                gl = list(got.items())
                for n1, ((o1, z1), s1) in enumerate(gl):
                    for (o2, z2), s2 in gl[:n1]:
                        d = o1 - o2
                        if s1 != s2 or not d.isconst() or not (d.c % abs(s1) >= z2 and abs(s1) - d.c % abs(s1) >= z1):
                            ok = False
            if ok:
                for off, size in got:
                    shapes.append((off, size, L(sym('lwv', '%s:%s' % (lid, off), (L(kap),), *irange(size, False), imp=True))))
        if ok:
            for off, size, v in shapes:
                S.lw.append((b, off, size, v))
        else:
            S.hv.append(b)

    # ---- candidates
    cand = []
    seen = set()

    def add(op, e):
        e = x.c(e)
        if e.isconst() or (op, e) in seen:
            return
        if any(born_sym(i, None) for i in all_syms(e)):
            return
        seen.add((op, e))
        cand.append((op, e))
    for r in recs:
        for op, e in r.flog:
            e1 = closed(e, k)
            if any(SYMS[i].kind == 'psi' and SYMS[i].id not in ids for i in all_syms(e1)):
                continue
            if not contains(e1, k.id) and not any(i in ids for i in all_syms(e1)):
                continue
            nested = any(any(a.t and (contains(a, k.id) or any(j in ids for j, _ in a.t)) for a in SYMS[i].args if isinstance(a, Lin)) for i, _ in e1.t)
            if nested:
                continue
            if op == 'ge':
                add('ge', e1)
                d = e1.coef(k)
                if d < 0:
                    add('ge', e1 - d)
                for i, kk in e1.t:
                    if i in ids:
                        for c in list(cls.values()) + list(cells.values()):
                            if c[1].id == i and c[0] == 'cnt':
                                lo, hi = c[4]
                                for st in (lo, hi):
                                    dd = d + kk * st
                                    if dd < 0:
                                        add('ge', e1 - dd)
            elif op in ('ne', 'eq'):
                for sg in (1, -1):
                    add('ge', e1 * sg)
                    d = e1.coef(k) * sg
                    if d < 0:
                        add('ge', e1 * sg - d)
                if op == 'ne':
                    add('ne', e1)
    for c in list(cls.values()) + list(cells.values()):
        if c[0] == 'cnt':
            lo, hi = c[4]
            add('ge', L(k) * hi - L(c[1]))
            add('ge', L(c[1]) - L(k) * lo)
        elif c[0] == 'ind':
            if len(c) > 4 and isinstance(c[4], int) and c[4] < 0 and not c[1].ptr and not any(SYMS[i].ptr for i, _ in x.c(c[2]).t):
                # something counted down stays non-negative
                add('ge', c[2] + L(k) * c[4])
        elif c[0] == 'mod':
            add('ge', L(c[1]))
            st, D = c[4]
            add('ge', (-D if st > 0 else D) - 1 - L(c[1]))
        elif c[0] == 'hv':
            s = c[1]
            if s.ptr:
                add('ne', L(s))
            else:
                add('ge', L(s))
                add('ge', L(s) - c[2])
                add('ge', c[2] - L(s))
                add('ge', L(s) - 1)
        elif c[0] == 'hvoff':
            add('ge', L(c[1]))
            add('ge', -L(c[1]))
    allc = [c for c in list(cls.values()) + list(cells.values())]
    hvs = [c for c in allc if c[0] in ('hv', 'hvoff') and not c[1].ptr]
    for c in hvs:
        for d in allc:
            if d is not c and not (d[0] == 'hv' and d[1].ptr) and d[0] != 'hvoff':
                hd = closed(headval(d), k)
                if any(SYMS[i].ptr for i, _ in hd.t):
                    continue
                e = (L(c[1]) - hd) if c[0] == 'hv' else L(c[1]) - hd
                add('ge', e)
                add('ge', -e)
    for c in hvs:
        for d in hvs:
            if c is not d and c[0] == 'hvoff' and d[0] == 'hv':
                pass
    # linear relations between counters which every path of the iteration keeps
    cnts = [(key, c) for key, c in list(cls.items()) + list(cells.items()) if c[0] == 'cnt']
    if cnts:
        rows = []
        for r in recs:
            row = []
            for key, c in cnts:
                nv = r.nexts.get(key) if not isinstance(key, tuple) else r.checks.get(key)
                d = nv - canon_in(x, r, headval(c)) if nv is not None else None
                row.append(d.c if d is not None and d.isconst() else None)
            rows.append(row + [1])
        ok = [j for j in range(len(cnts) + 1) if all(row[j] is not None for row in rows)]
        for vec in nullspace([[row[j] for j in ok] for row in rows], len(ok)):
            e = ZERO
            for j, q in zip(ok, vec):
                e = e + (L(cnts[j][1][1]) if j < len(cnts) else L(k)) * q
            add('ge', e)
            add('ge', -e)
    # init filter
    def at_init(e):
        e = x.subst_in(e, k, ZERO)
        for c in allc:
            if c[0] in ('cnt', 'hvoff'):
                e = x.subst_in(e, c[1], ZERO)
            elif c[0] in ('hv', 'mod'):
                e = x.subst_in(e, c[1], c[2])
        return e

    def holds(x, op, e):
        return x.entails_ge(e) if op == 'ge' else x.entails_ne(e)
    cand = [(op, e) for op, e in cand if holds(x, op, at_init(e))]

    def pre2(x, f):
        install(x, f, S, cls, cells)
        for op, e in cand:
            (x.assume_ge if op == 'ge' else x.assume_ne)(e, False)

    def nextof(x, rec, e):
        late = []
        for key, c in list(cls.items()) + list(cells.items()):
            if c[0] == 'ind':
                continue
            if key in rec.nexts:
                nv = rec.nexts[key]
            else:
                r = x.st.regof.get(key[0]) if isinstance(key, tuple) else None
                if r is None:
                    continue
                nv = x.rload(r, key[1], key[2])
            if c[0] in ('cnt', 'hvoff'):
                nv = nv - x.c(c[2])
            tmp = sym('tmpn', c[1].name, (), -INF, INF, c[1].ptr)
            e = subst_raw(e, c[1], L(tmp))
            late.append((tmp, nv))
        tk = sym('tmpn', 'k', (), -INF, INF)
        e = subst_raw(e, k, L(tk))
        for tmp, nv in late:
            e = subst_raw(e, tmp, nv)
        return x.c(subst_raw(e, tk, L(k) + 1))

    for rnd in range(8):
        if not cand:
            break
        cur = list(cand)
        recs2 = discover(x, fr, h, prev, body, pre2, True,
                         lambda x, rec: [holds(x, op, nextof(x, rec, e)) for op, e in cur])
        if recs2 is None:
            cand = []
            break
        bad = set()
        for r in recs2:
            if r is not None:
                for i, ok in enumerate(r.checks):
                    if not ok:
                        bad.add(i)
        if not bad:
            break
        cand = [c for i, c in enumerate(cand) if i not in bad]
    S.inv = cand
    # ---- event / fact templates from an exact run
    def guesses(x, rec):
        bad = set()
        rec.lwvals = {}
        for n, (b, off, size, v) in enumerate(S.lw):
            r = x.st.regof.get(b)
            if r is not None:
                rec.lwvals[n] = x.rload(r, x.c(x.subst_in(off, kap, L(k))), size)
        for key, c in list(cls.items()) + list(cells.items()):
            if c[0] not in ('ind', 'mod', 'lag'):
                continue
            if c[0] == 'lag':
                if not x.entails_eq(rec.nexts[key] - x.c(c[4])):
                    bad.add(kname(x, key))
                continue
            if isinstance(key, tuple):
                r = x.st.regof.get(key[0])
                if r is None:
                    continue
                v = x.rload(r, key[1], key[2])
            else:
                v = rec.nexts[key]
            e = v - c[2] - (L(k) + 1) * ((c[4] if len(c) > 4 else 0) if c[0] == 'ind' else c[4][0])
            if not (x.entails_eq(e) or c[0] == 'mod' and x.entails_eq(e - c[4][1])):
                bad.add(kname(x, key))
        return bad
    recs3 = discover(x, fr, h, prev, body, pre2, True, guesses) or []
    recs3 = [r for r in recs3 if r is not None]
    wrong = set()
    for r in recs3:
        wrong |= r.checks
    # what an iteration leaves for the next one is a function of its number:
    # the variable holds the value of the previous iteration
    for pid, c in cls.items():
        if c[0] != 'hv' or pid in lags or banned.get(pid) or not recs3:
            continue
        vs = set(canon_in(x, r, r.nexts[pid]) for r in recs3)
        v = vs.pop()
        if not vs and not any(i in loopsyms() or SYMS[i].kind in ('psi', 'fresh', 'undef', 'iter', 'lwv', 'kappa') and i not in pre_syms or
                              any(born_sym(i, r) or any(q[0] == i for q in r.born) and SYMS[i].kind == 'base' for r in recs3) for i in all_syms(v)):
            lags[pid] = v
            wrong.add(('lag', pid))
    S.templates = []
    for r in recs3:
        evs = []
        for ev in r.events:
            a = tuple(iterise(x, x.subst_in(canon_in(x, r, v), k, L(kap)), kap, r, ids, lid) if isinstance(v, Lin) else v for v in ev.a)
            e2 = Event(ev.kind, a, ev.fn, ev.line)
            evs.append(e2)
        fl = [(op, iterise(x, x.subst_in(e, k, L(kap)), kap, r, ids, lid)) for op, e in r.flog]
        S.templates.append((fl, evs))
    # the values written, seen again now that the closed forms are known
    for n, (b, off, size, v) in enumerate(S.lw):
        vals = []
        for r in recs3:
            w = r.lwvals.get(n)
            vals.append(None if w is None else iterise(x, x.subst_in(canon_in(x, r, w), k, L(kap)), kap, r, ids, lid))
        if not vals or None in vals:
            continue
        if len(set(vals)) == 1:
            S.lw[n] = (b, off, size, vals[0])
        else:
            y = L(sym('lwv', '%s:%s' % (lid, off), (L(kap),), *irange(size, False), imp=True))
            S.lw[n] = (b, off, size, y)
            for (fl, evs), w in zip(S.templates, vals):
                fl.append(('eq', y - w))
    S.freed = sorted(set(b for r in recs3 for b in r.freed))
    S.text = ' '.join(['%s:%s' % (c[0], c[4] if len(c) > 4 else '') for c in allc] + ['lw=%d hv=%d inv=%d' % (len(S.lw), len(S.hv), len(S.inv))])
    return S, wrong


def nullspace(rows, n):
    """integer basis of the vectors orthogonal to all rows"""
    m, piv = [], []
    for row in rows:
        row = [Fraction(v) for v in row]
        for q, p in zip(m, piv):
            if row[p]:
                f = row[p]
                row = [a - f * b for a, b in zip(row, q)]
        p = next((j for j, v in enumerate(row) if v), None)
        if p is None:
            continue
        row = [v / row[p] for v in row]
        m = [[a - q[p] * b for a, b in zip(q, row)] for q in m]
        m.append(row)
        piv.append(p)
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for q, p in zip(m, piv):
            v[p] = -q[f]
        d = 1
        for a in v:
            d = d * a.denominator // gcd(d, a.denominator)
        out.append([int(a * d) for a in v])
    return out


def kname(x, key):
    if isinstance(key, tuple):
        r = x.st.regof.get(key[0])
        return (r.uid if r is not None else key[0], str(key[1]), key[2])
    return key


def subst_raw(e, s, val):
    """structural substitution, no canonicalisation"""
    if not isinstance(e, Lin):
        return e
    out = K(e.c)
    for i, k in e.t:
        if i == s.id:
            out = out + val * k
        elif absint.sym_contains(SYMS[i], s.id):
            y = SYMS[i]
            na = tuple(subst_raw(a, s, val) for a in y.args)
            out = out + L(sym(y.kind, y.tag, na, y.lo, y.hi, y.ptr, y.ptee, y.imp, info=y.info)) * k
        else:
            out = out + Lin(((i, 1),), 0) * k
    return out


def canon_in(x, rec, e):
    """canonical form of e in the state recorded by rec"""
    st, x.st = x.st, rec.st
    cc, x._ccache = x._ccache, {}
    try:
        return x.c(e)
    finally:
        x.st = st
        x._ccache = cc


def born_in(off, rec):
    b = set(q[0] for q in rec.born)
    return any(i in b for i in all_syms(off)) or any(born_sym(i, rec) for i in all_syms(off))


def born_sym(i, rec):
    s = SYMS[i]
    if rec is not None and any(i == q[0] for q in rec.born if q[1].kind in ('alloc', 'stack')):
        return True
    return False


def find_key(cells, b, off, size):
    return (b, off, size) if (b, off, size) in cells else None


def init_cell(x, b, off, size, w):
    def go(x):
        return x.rload(x.st.regof[b], off, size)
    x.quiet += 1
    try:
        r = x.sub(go, 20)
    finally:
        x.quiet -= 1
    if r and len(set(r)) == 1:
        return r[0]
    return x.fresh('cell0', *irange(size, False), imp=True)


def iterise(x, e, kap, rec, ids, lid):
    """rename symbols born in the iteration to per-iteration symbols"""
    if not isinstance(e, Lin):
        return e
    out = e
    for i in sorted(all_syms(e)):
        s = SYMS[i]
        if i in ids or s.kind in ('fresh', 'base', 'undef', 'psi') and s.id != kap.id:
            r0 = rec.st.regof.get(i)
            isnew = i in ids or any(q[0] == i for q in rec.born) or (s.kind in ('fresh', 'psi') and s.key not in rec.__dict__.get('old', ()) and fresh_after(s, rec))
            if s.kind == 'base' and not any(q[0] == i for q in rec.born):
                isnew = False
            if isnew:
                n = sym('iter', s.name, (L(kap),), s.lo, s.hi, s.ptr, s.ptee, s.imp or i in ids, info=('iter', s.id, rec))
                out = x.subst_in(out, s, L(n))
    return out


def fresh_after(s, rec):
    import re
    m = re.search(r'#(\D*)(\d+)$', s.key[1])
    return bool(m) and int(m.group(2)) > getattr(rec, 'ctr0', 1 << 60) if m else False


def install(x, f, S, cls, cells):
    k = L(S.k)
    for b, off, size, v in getattr(S, 'lw', ()):
        r = x.st.regof.get(b)
        r.head = W('lw', ZERO, k, size, (S.kap, off, v), r.head)
    for b in getattr(S, 'hv', ()):
        r = x.st.regof.get(b)
        r.head = W('hv', ZERO, r.size if r.size is not None else K(1 << 62), None, S.lid, r.head)
    for pid, c in cls.items():
        if c[0] == 'lag':
            f.env[pid] = L(c[2]) if x.decide_eq(k) else x.c(x.subst_in(c[4], S.k, k - 1))
        else:
            f.env[pid] = hval(c, k)
    for (b, off, size), c in cells.items():
        r = x.st.regof.get(b)
        x.rstore(r, off, hval(c, k), size)
    for c in list(cls.values()) + list(cells.values()):
        if c[0] == 'mod':
            st, D = c[4]
            x.assume_eq(L(c[1]) - c[2] - k * st - (D if x.choose(2) else ZERO), False)


def hval(c, k):
    if c[0] == 'ind':
        return c[2] + k * (c[4] if len(c) > 4 else 0)
    if c[0] in ('cnt', 'hvoff'):
        return c[2] + L(c[1])
    return L(c[1])


def apply(x, fr, h, S):
    install(x, fr, S, S.cls, S.cellcls)
    for op, e in S.inv:
        (x.assume_ge if op == 'ge' else x.assume_ne)(e, False)
    x.st.loops.append(S)
    x.st.events.append(Event('foreach', (S,), fr.fn.name, fr.line))
    S.mark = None
    fr.mode[h] = ('generic', S)
    x.st.notes = dict(x.st.notes)
    x.st.notes[('mark', S.lid)] = ({b: (r.head.n if r.head else 0, r.freed) for b, r in x.st.regof.items()}, len(x.st.events), x.st.ctr)


def backedge(x, fr, h, nexts):
    """verify the summary at the end of the generic iteration (main trace)"""
    S = fr.mode[h][1]
    k1 = L(S.k) + 1
    ok = True
    why = ''
    def inform(c, v):
        if c[0] == 'ind':
            return x.entails_eq(v - hval(c, k1))
        if c[0] == 'lag':
            return x.entails_eq(v - x.c(c[4]))
        if c[0] == 'mod':
            st, D = c[4]
            e = v - c[2] - k1 * st
            return x.entails_eq(e) or x.entails_eq(e - D)
        return True
    for pid, c in S.cls.items():
        if not inform(c, nexts[pid]):
            ok, why = False, 'closed form of a scalar'
    for (b, off, size), c in S.cellcls.items():
        if c[0] in ('ind', 'mod'):
            r = x.st.regof.get(b)
            if not inform(c, x.rload(r, off, size)):
                ok, why = False, 'closed form of a cell'
    mark, emark, ctr = x.st.notes[('mark', S.lid)]
    lws = set(b for b, _, _, _ in S.lw) | set(S.hv)
    for b, r in list(x.st.regof.items()):
        if b in mark:
            n0, fz = mark[b]
            w = r.head
            while w is not None and w.n > n0:
                if b not in lws:
                    if not (w.k == 'cell' and any(kb == b and x.entails_eq(w.off - ko) and ks == w.size for kb, ko, ks in S.cellcls)):
                        # writes to objects met inside the loop are per-iteration
                        ok, why = False, 'unsummarised write to %s' % r.uid
                w = w.prev
            if r.freed and not fz and not r.kind == 'stack':
                if r.kind == 'alloc':
                    ok, why = False, 'object freed inside the loop'
    x.count('loop-invariant')
    if not ok:
        if x.feasible():
            x.taint('loop summary of %s not verified: %s' % (S.fn, why))
            x._record('loop', 'loop summary could not be verified (%s)' % why, True)
    if ok and getattr(x, 'check_iter_leaks', False):
        import spec
        spec.iter_leaks(x, fr, S, nexts, mark)
    h = getattr(x, 'iter_hook', None)
    if h:
        h(x, fr, S, emark, ctr)
    raise PathEnd()
