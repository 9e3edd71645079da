"""Idle queue (C05), idle pool (C06) and what their callbacks may do (C04).

Objects are created and driven through the public API only; the callbacks, idle
sources and tags are symbolic.  The events of every trace are replayed against a
list model."""
from spec import *

FUN = {'k': 'func'}
OPT = dict(unrollall=60, rec_depth=4, maxpaths=20000)


# ------------------------------------------------------------------ main loop
def mark(x, kind, *a):
    x.event(kind, *a)


def note(x, key, v):
    x.st.notes = dict(x.st.notes)
    x.st.notes[key] = v


def get(x, key, d=None):
    return x.st.notes.get(key, d)


class Loop:
    """stand-in for the GLib main loop: idle sources by their identifier"""

    def __init__(self, x):
        self.x = x
        for n in ('g_idle_add', 'g_idle_add_full', 'g_idle_source_new', 'g_source_set_callback', 'g_source_attach', 'g_source_remove',
                  'g_source_unref', 'g_source_destroy'):
            x.stub[n] = getattr(self, n)
        note(x, 'src', ())          # ((id, fn, data, notify), ...)
        note(x, 'disp', ())         # ids being dispatched
        note(x, 'late', ())         # removed while being dispatched

    def sources(self):
        return get(self.x, 'src', ())

    def add(self, fn, data, notify):
        x = self.x
        n = get(x, 'srcn', 0) + 1
        note(x, 'srcn', n)
        note(x, 'src', self.sources() + ((n, x.c(fn), x.c(data), x.c(notify)),))
        mark(x, 'src-add', n)
        return L(sym('ghost', 'source%d' % n, (), 1, (1 << 32) - 1))

    def find(self, id):
        for s in self.sources():
            if self.x.entails_eq(id - L(sym('ghost', 'source%d' % s[0], (), 1, (1 << 32) - 1))):
                return s
        return None

    def g_idle_add(self, x, a, i):
        return self.add(a[0], a[1], ZERO)

    def g_idle_add_full(self, x, a, i):
        return self.add(a[1], a[2], a[3])

    def g_idle_source_new(self, x, a, i):
        p = x.fresh('idle source', 4096, PMAX, True, VOIDP)
        note(x, ('gs', p), (None, 1))
        mark(x, 'gsource', p)
        return p

    def g_source_set_callback(self, x, a, i):
        note2(x, ('gs', x.c(a[0])), lambda o: ((a[1], a[2], a[3]), o[1]) if o else None, 'g_source_set_callback')

    def g_source_attach(self, x, a, i):
        o = x.st.notes.get(('gs', x.c(a[0])))
        if not o or not o[0]:
            fail(x, 'source', 'a source without a callback is attached', undecided=o is None)
            raise PathEnd()
        note(x, ('gs', x.c(a[0])), (o[0], o[1], 'attached'))
        return self.add(*o[0])

    def g_source_unref(self, x, a, i):
        note2(x, ('gs', x.c(a[0])), lambda o: (o[0], o[1] - 1) + o[2:] if o else None, 'g_source_unref')

    def g_source_destroy(self, x, a, i):
        x.taint('g_source_destroy')

    def g_source_remove(self, x, a, i):
        id = x.c(a[0])
        s = self.find(id)
        x.count('source')
        if s is None:
            x.fail('source', 'g_source_remove(%s): there is no such source' % id, undecided=id.imprecise())
            raise PathEnd()
        self.drop(s)
        return ONE

    def drop(self, s):
        x = self.x
        note(x, 'src', tuple(q for q in self.sources() if q[0] != s[0]))
        mark(x, 'src-del', s[0])
        if s[0] in get(x, 'disp'):
            note(x, 'late', get(x, 'late') + (s,))
        else:
            self.notify(s)

    def notify(self, s):
        x = self.x
        if not (s[3].isconst() and s[3].c == 0):
            x.callback_library(s[3], [s[2]])

    def dispatch(self, s):
        """one iteration of the source"""
        x = self.x
        note(x, 'disp', get(x, 'disp') + (s[0],))
        r = x.callback_library(s[1], [s[2]])
        note(x, 'disp', tuple(q for q in get(x, 'disp') if q != s[0]))
        keep = is_true(x, r)
        if any(q[0] == s[0] for q in self.sources()):
            if not keep:
                self.drop(s)
        else:
            note(x, 'late', tuple(q for q in get(x, 'late') if q[0] != s[0]))
            self.notify(s)
        return keep


def note2(x, key, f, what):
    o = x.st.notes.get(key)
    n = f(o)
    if n is None:
        x.taint(what + ' on an unknown source')
        return
    x.st.notes = dict(x.st.notes)
    x.st.notes[key] = n
    if n[1] < 0:
        fail(x, 'source', what + ': the source is released too often')


def nothing(x, what):
    """no GSource reference is kept by the caller"""
    for k, v in x.st.notes.items():
        if isinstance(k, tuple) and k[0] == 'gs':
            check(x, v[1] == 0, what + ': the creator of a source releases its reference', 'source')


# ---------------------------------------------------------------- idle queue
class Item:
    def __init__(self, x, i, null=False):
        n = '%d' % i
        self.i = i
        self.tag = pint(x, 'tag' + n, 8, False)
        self.data = pptr(x, 'data' + n, VOIDP, True)
        self.run = pptr(x, 'run' + n, FUN, null)
        self.destroy = pptr(x, 'destroy' + n, FUN, null)


class Queue:
    MODS = ['gutil_idlequeue', 'gutil_misc']

    def __init__(self, x, null=False, nested=0, ops=(), inside=('dispatch', 'cancel', 'cancel_all', 'unref')):
        self.x, self.null, self.nested, self.ops, self.inside = x, null, nested, ops, inside
        self.loop = Loop(x)
        self.q = x.call('gutil_idle_queue_new')
        note(x, 'refs', 1)
        x.cb_hook = self.hook

    def items(self):
        return sum(1 for e in self.x.st.events if e.kind == 'op' and e.a[0] == 'add')

    def op(self, name, *a):
        mark(self.x, 'op', name, *a)

    def end(self, name, *a):
        mark(self.x, 'end', name, *a)

    def add(self, q=None):
        x = self.x
        i = self.items()
        it = Item(x, i, self.null)
        self.op('add', i)
        x.call('gutil_idle_queue_add_tag_full', self.q if q is None else q, it.tag, it.run, it.data, it.destroy)
        self.end('add', i)

    def cancel(self):
        x = self.x
        t = pint(x, 'ctag%d' % sum(1 for e in x.st.events if e.kind == 'op'), 8, False)
        self.op('cancel', t)
        self.end('cancel', i32(x, x.call('gutil_idle_queue_cancel_tag', self.q, t)))

    def contains(self):
        x = self.x
        t = pint(x, 'ctag%d' % sum(1 for e in x.st.events if e.kind == 'op'), 8, False)
        self.op('contains', t)
        self.end('contains', i32(x, x.call('gutil_idle_queue_contains_tag', self.q, t)))

    def cancel_all(self):
        self.op('cancel_all')
        self.x.call('gutil_idle_queue_cancel_all', self.q)
        self.end('cancel_all')

    def ref(self):
        x = self.x
        note(x, 'refs', get(x, 'refs') + 1)
        self.op('ref')
        x.prove_eq(x.call('gutil_idle_queue_ref', self.q), self.q, 'ref returns its argument')
        self.end('ref')

    def unref(self):
        x = self.x
        note(x, 'refs', get(x, 'refs') - 1)
        self.op('unref')
        x.call('gutil_idle_queue_unref', self.q)
        self.end('unref')

    def free(self):
        x = self.x
        note(x, 'refs', get(x, 'refs') - 1)
        self.op('free')
        x.call('gutil_idle_queue_free', self.q)
        self.end('free')

    def dispatch(self):
        s = self.loop.sources()
        if len(s) != 1:
            return
        self.op('dispatch')
        self.loop.dispatch(s[0])
        self.end('dispatch')

    def hook(self, x, p, args, ins):
        """a callback may call back into the queue"""
        depth = [e.a[0] for e in x.st.events if e.kind == 'op']
        inner = None
        d = 0
        stack = []
        for e in x.st.events:
            if e.kind == 'op':
                stack.append(e.a[0])
            elif e.kind == 'end':
                stack.pop()
        used = get(x, 'nested', 0)
        if used >= self.nested or not stack or stack[-1] not in self.inside:
            return
        k = x.choose(len(self.ops) + 1)
        if k == 0:
            return
        name = self.ops[k - 1]
        if name == 'unref' and (get(x, 'refs') < 1 or 'dispatch' not in stack):
            return
        if name != 'add' and get(x, 'refs') < 1 and 'dispatch' not in stack:
            # the queue is being finalised, it can only be added to
            return
        note(x, 'nested', used + 1)
        getattr(self, name)()

    # the reference model
    def verify(self, what):
        x = self.x
        pend, stack, items = [], [], {}
        self.pend = pend
        fns = {}

        def sure(v):
            return x.decide_eq(v)

        def skip(batch):
            while pend and pend[0] in batch and sure(items[pend[0]].run) and sure(items[pend[0]].destroy):
                pend.pop(0)

        def settle(f):
            # destroy of the callback that has just been run must have come
            if f.get('owed') is not None:
                i = f['owed']
                f['owed'] = None
                if not sure(items[i].destroy):
                    fail(x, 'once', '%s: the destroy function of item %d is not called after its callback' % (what, i))
        for e in list(x.st.events):
            if e.kind == 'op':
                name = e.a[0]
                f = dict(name=name, owed=None)
                if name == 'add':
                    i = e.a[1]
                    it = items[i] = Item(x, i, self.null)
                    fns[x.c(it.run)] = ('run', i)
                    fns[x.c(it.destroy)] = ('destroy', i)
                    pend.append(i)
                elif name == 'dispatch':
                    f['batch'] = list(pend)
                elif name in ('cancel', 'contains'):
                    f['hit'] = None
                    # those being cancelled by a call in progress may or may not be found
                    f['open'] = any(g.get('must') for g in stack)
                    for i in pend if not f['open'] else ():
                        if x.decide_eq(items[i].tag - e.a[1]):
                            f['hit'] = i
                            break
                    if name == 'cancel' and f['hit'] is not None:
                        pend.remove(f['hit'])
                        f['must'] = [f['hit']]
                elif name in ('cancel_all', 'free'):
                    f['must'] = list(pend)
                    pend[:] = []
                elif name == 'unref':
                    f['ext'] = True
                stack.append(f)
            elif e.kind == 'end':
                f = stack.pop()
                name = f['name']
                settle(f)
                if name == 'dispatch':
                    skip(f['batch'])
                    check(x, not any(i in f['batch'] for i in pend), what + ': all callbacks queued before are run', 'once')
                elif f.get('open'):
                    pass
                elif name == 'contains':
                    check(x, x.entails_ne(e.a[1]) if f['hit'] is not None else x.entails_eq(e.a[1]),
                          what + ': contains_tag tells whether a pending callback has the tag', 'result')
                elif name == 'cancel':
                    check(x, x.entails_ne(e.a[1]) if f['hit'] is not None else x.entails_eq(e.a[1]),
                          what + ': cancel_tag tells whether it has cancelled anything', 'result')
                for i in f.get('must', ()):
                    if not sure(items[i].destroy):
                        fail(x, 'once', '%s: item %d is cancelled but not destroyed' % (what, i))
            elif e.kind == 'cb':
                w = fns.get(x.c(e.a[0]))
                if w is None:
                    fail(x, 'callback', what + ': a function which is not a pending callback is called (%s)' % e.a[0])
                    return
                k, i = w
                x.count('once')
                if not x.entails_eq(e.a[1] - items[i].data):
                    fail(x, 'callback', '%s: item %d is called with the data of another one' % (what, i))
                f = stack[-1]
                if k == 'run':
                    settle(f)
                    if f['name'] != 'dispatch':
                        fail(x, 'once', '%s: callback %d is run by %s' % (what, i, f['name']))
                        return
                    skip(f['batch'])
                    if not pend or pend[0] != i or i not in f['batch']:
                        fail(x, 'order', '%s: callback %d is run out of turn (pending: %s)' % (what, i, pend))
                        return
                    pend.pop(0)
                    f['owed'] = i
                    continue
                # destroy
                if f.get('owed') == i:
                    f['owed'] = None
                elif f['name'] == 'dispatch':
                    settle(f)
                    skip(f['batch'])
                    if pend and pend[0] == i and i in f['batch'] and sure(items[i].run):
                        pend.pop(0)
                    elif i in pend and self.gone():
                        pend.remove(i)
                    else:
                        fail(x, 'once', '%s: item %d is destroyed without having been run or cancelled' % (what, i))
                elif i in f.get('must', ()):
                    f['must'].remove(i)
                elif f['name'] in ('unref', 'free', 'cancel_all') and i in pend and self.gone():
                    pend.remove(i)
                elif f.get('open') and i in pend:
                    pend.remove(i)
                else:
                    for g in stack:
                        if i in g.get('must', ()):
                            # cancelled again by a nested call
                            g['must'].remove(i)
                            break
                    else:
                        fail(x, 'once', '%s: item %d is destroyed twice or without being cancelled' % (what, i))
                        return
        self.pend = pend
        self.its = items
        while pend and self.gone() and sure(items[pend[0]].destroy):
            pend.pop(0)
        if self.gone():
            check(x, not pend, what + ': releasing the last reference removes all callbacks', 'once')

    def gone(self):
        return get(self.x, 'refs') == 0

    def settled(self, what):
        """outside of any call: one source if there is work, otherwise none"""
        x = self.x
        s = self.loop.sources()
        if self.gone() or not self.pend:
            check(x, not s, what + ': no idle source is left behind for an empty or released queue', 'source')
        else:
            check(x, len(s) == 1, what + ': there is an idle source for the pending callbacks', 'source')
        if self.gone():
            r, _ = x.lookup(self.q)
            check(x, r is not None and r.freed, what + ': the queue itself is released', 'release')

    def close(self, what):
        """what follows has to work as usual"""
        x = self.x
        self.verify(what)
        self.settled(what)
        x.cb_hook = None
        if not self.gone():
            self.add()
            self.verify(what)
            self.settled(what + ', then add')
            self.dispatch()
            self.verify(what + ', then run')
            self.settled(what + ', then run')
            self.unref()
            self.verify(what + ', then unref')
            self.settled(what + ', then unref')
        no_leaks(x)


QMAIN = ('dispatch', 'cancel', 'cancel_all', 'contains', 'unref', 'free')


def q_simple(n):
    @contract(['C05', 'C02'], 'queue of %d' % n, Queue.MODS, **OPT)
    def f(x):
        q = Queue(x, null=n <= 1)
        for i in range(n):
            q.add()
        k = QMAIN[x.choose(len(QMAIN))]
        getattr(q, k)()
        q.close(k)
    return f


def q_nested(n, main, k=1, **kw):
    @contract(['C05', 'C04', 'C02', 'C01'], 'queue of %d, %d callbacks during %s' % (n, k, main), Queue.MODS, **dict(OPT, **kw))
    def f(x):
        q = Queue(x, nested=k, ops=('add', 'cancel', 'cancel_all', 'contains', 'unref'))
        for i in range(n):
            q.add()
        getattr(q, main)()
        q.close(main + ' with re-entrant callbacks')
    return f


for _n in range(4):
    q_simple(_n)
for _n in (1, 2, 3):
    for _m in ('dispatch', 'cancel', 'cancel_all', 'unref'):
        q_nested(_n, _m)
        q_nested(_n, _m, 2, thorough=_n > 2)


for _m in ('dispatch', 'unref'):
    q_nested(4, _m, 2, thorough=True)
    q_nested(2, _m, 3, thorough=True)


def q_hist(n, k, **kw):
    @contract(['C05', 'C02'], 'history of %d operations on a queue of %d' % (k, n), Queue.MODS, **dict(OPT, **kw))
    def f(x):
        q = Queue(x)
        for i in range(n):
            q.add()
        h = []
        for i in range(k):
            m = ('dispatch', 'cancel', 'add', 'cancel_all')[x.choose(4)]
            h.append(m)
            getattr(q, m)()
            q.verify(', '.join(h))
            q.settled(', '.join(h))
        q.close(', '.join(h))
    return f


q_hist(3, 2)
q_hist(2, 3)
q_hist(4, 3, thorough=True)


@contract(['C05', 'C02'], 'adding functions', Queue.MODS, **OPT)
def c_adders(x):
    q = Queue(x)
    it = Item(x, 0, True)
    k = x.choose(4)
    fn = 'gutil_idle_queue_' + ('add', 'add_full', 'add_tag', 'add_tag_full')[k]
    null = x.choose(2)
    x.call(fn, ZERO if null else q.q, *([it.tag] if k > 1 else []) + [it.run, it.data] + ([it.destroy] if k % 2 else []))
    d = [ZERO, it.destroy][k % 2]

    def seen(want, what):
        e = evs(x, 'cb')
        if check(x, len(e) == len(want), '%s: %d callbacks are called, expected %d' % (what, len(e), len(want)), 'once'):
            for g, w in zip(e, want):
                check(x, x.entails_eq(g.a[0] - w) and x.entails_eq(g.a[1] - it.data), what + ': the given function with the given data', 'callback')
    if null:
        seen([] if x.decide_eq(d) else [d], fn + '(NULL)')
        return check(x, not q.loop.sources(), fn + '(NULL): no source', 'source')
    seen([], fn)
    if k < 2:
        x.prove_ne(x.call('gutil_idle_queue_contains_tag', q.q, ZERO), 0, fn + ': the tag is zero', 'tag')
    else:
        x.prove_ne(x.call('gutil_idle_queue_contains_tag', q.q, it.tag), 0, fn + ': with the given tag', 'tag')
    if check(x, len(q.loop.sources()) == 1, fn + ': a source is added', 'source'):
        q.loop.dispatch(q.loop.sources()[0])
    seen([f for f in (it.run, d) if not x.decide_eq(f)], fn + ', then run')
    x.call('gutil_idle_queue_unref', q.q)
    no_leaks(x)


@contract(['C05', 'C03', 'C01', 'C02'], 'queue references and NULL', Queue.MODS, **OPT)
def c_qnull(x):
    k = x.choose(6)
    t = pint(x, 'tag', 8, False)
    if k == 0:
        x.prove_eq(x.call('gutil_idle_queue_ref', ZERO), 0, 'ref(NULL)')
    elif k == 1:
        x.call('gutil_idle_queue_unref', ZERO)
        x.call('gutil_idle_queue_free', ZERO)
        x.call('gutil_idle_queue_cancel_all', ZERO)
    elif k == 2:
        x.prove_eq(i32(x, x.call('gutil_idle_queue_contains_tag', ZERO, t)), 0, 'contains_tag(NULL)')
    elif k == 3:
        x.prove_eq(i32(x, x.call('gutil_idle_queue_cancel_tag', ZERO, t)), 0, 'cancel_tag(NULL)')
    else:
        q = Queue(x)
        for i in range(x.choose(3)):
            q.add()
        q.ref()
        getattr(q, ('unref', 'free')[k - 4])()
        r, _ = x.lookup(q.q)
        check(x, not r.freed, 'a referenced queue is not released', 'refcount')
        return q.close('ref, then ' + ('unref', 'free')[k - 4])
    check(x, not evs(x, 'cb', 'alloc', 'free'), 'NULL queue: nothing happens')


# ----------------------------------------------------------------- idle pool
PM = ['gutil_idlepool', 'gutil_misc']
RELEASE = {'strv': None, 'object': 'object', 'variant': 'variant', 'ptr_array': 'ptr_array', 'bytes': 'bytes'}


class PItem:
    def __init__(self, x, i):
        self.i = i
        self.data = pptr(x, 'data%d' % i, VOIDP, True)
        self.destroy = pptr(x, 'destroy%d' % i, FUN, False)


class Pool:
    def __init__(self, x, nested=0, ops=(), p=None):
        self.x, self.nested, self.ops = x, nested, ops
        self.loop = Loop(x)
        if p is None:
            self.p = x.call('gutil_idle_pool_new')
            note(x, 'refs', 1)
        x.cb_hook = self.hook

    def items(self):
        return sum(1 for e in self.x.st.events if e.kind == 'op' and e.a[0] == 'add')

    def op(self, name, *a):
        mark(self.x, 'op', name, *a)

    def end(self, name, *a):
        mark(self.x, 'end', name, *a)

    def add(self):
        x = self.x
        i = self.items()
        it = PItem(x, i)
        self.op('add', i)
        x.prove_eq(x.call('gutil_idle_pool_add', self.p, it.data, it.destroy), it.data, 'add returns its argument')
        self.end('add')

    def refs(self):
        return get(self.x, 'refs')

    def ref(self):
        x = self.x
        note(x, 'refs', self.refs() + 1)
        self.op('ref')
        x.prove_eq(x.call('gutil_idle_pool_ref', self.p), self.p, 'ref returns its argument')
        self.end('ref')

    def unref(self):
        note(self.x, 'refs', self.refs() - 1)
        self.op('unref')
        self.x.call('gutil_idle_pool_unref', self.p)
        self.end('unref')

    def destroy(self):
        note(self.x, 'refs', self.refs() - 1)
        self.op('destroy')
        self.x.call('gutil_idle_pool_destroy', self.p)
        self.end('destroy')

    def drain(self):
        self.op('drain')
        self.x.call('gutil_idle_pool_drain', self.p)
        self.end('drain')

    def dispatch(self):
        s = self.loop.sources()
        if len(s) != 1:
            return
        self.op('dispatch')
        self.loop.dispatch(s[0])
        self.end('dispatch')

    def stack(self):
        st = []
        for e in self.x.st.events:
            if e.kind == 'op':
                st.append(e.a[0])
            elif e.kind == 'end':
                st.pop()
        return st

    def hook(self, x, p, args, ins):
        used = get(x, 'nested', 0)
        st = self.stack()
        if used >= self.nested or not st:
            return
        k = x.choose(len(self.ops) + 1)
        if k == 0:
            return
        name = self.ops[k - 1]
        if self.refs() < 1 and name not in ('add', 'drain'):
            return
        note(x, 'nested', used + 1)
        getattr(self, name)()

    def verify(self, what):
        x = self.x
        pend, stack, items, fns = [], [], {}, {}
        self.pend = pend
        loose = False
        refs = 1
        for e in list(x.st.events):
            if e.kind == 'op':
                name = e.a[0]
                if name == 'add':
                    i = e.a[1]
                    it = items[i] = PItem(x, i)
                    fns[x.c(it.destroy)] = i
                    pend.append(i)
                elif stack:
                    loose = True
                elif name != 'add':
                    loose = False
                stack.append((name, list(pend)))
            elif e.kind == 'end':
                name, was = stack.pop()
                if name in ('drain', 'dispatch', 'destroy') and not stack:
                    for i in was:
                        check(x, i not in pend, '%s: item %d is not released by %s' % (what, i, name), 'once')
            elif e.kind == 'cb':
                i = fns.get(x.c(e.a[0]))
                x.count('once')
                if i is None:
                    fail(x, 'callback', what + ': a function which is not the release function of an item is called (%s)' % e.a[0])
                    return
                if not x.entails_eq(e.a[1] - items[i].data):
                    fail(x, 'callback', '%s: the release function of item %d gets %s' % (what, i, e.a[1]))
                if i not in pend:
                    fail(x, 'once', '%s: item %d is released twice' % (what, i))
                    return
                if not stack or not any(n in ('drain', 'dispatch', 'destroy', 'unref', 'stray') for n, _ in stack):
                    fail(x, 'once', '%s: item %d is released by %s' % (what, i, stack and stack[-1][0]))
                if not loose and pend[0] != i:
                    fail(x, 'order', '%s: item %d is released before item %d' % (what, i, pend[0]))
                pend.remove(i)
        self.pend = pend
        s = self.loop.sources()
        r, _ = x.lookup(self.p)
        dead = r is not None and r.freed
        if dead:
            check(x, not self.refs(), what + ': a referenced pool is not released', 'refcount')
            check(x, not pend, what + ': a released pool has released all its items', 'once')
            check(x, not s, what + ': no idle source outlives the pool', 'source')
        else:
            check(x, self.refs() or s, what + ': the pool is released with its last reference', 'refcount')
            if pend:
                check(x, len(s) == 1, what + ': an idle source is going to release the items', 'source')
        nothing(x, what)
        return dead

    def close(self, what):
        x = self.x
        dead = self.verify(what)
        x.cb_hook = None
        if self.refs():
            self.add()
            self.verify(what + ', then add')
            self.dispatch()
            self.verify(what + ', then idle')
            check(x, not self.pend, what + ', then idle: everything is released', 'once')
            while self.refs():
                self.unref()
        n = 0
        while self.loop.sources() and n < 4:
            n += 1
            self.dispatch()
            self.verify(what + ', then the remaining idle sources')
        dead = self.verify(what + ', at the end')
        check(x, dead, what + ': the pool is gone in the end', 'refcount')
        no_leaks(x)


PMAIN = ('drain', 'dispatch', 'unref', 'destroy')


def p_simple(n):
    @contract(['C06', 'C02'], 'pool of %d' % n, PM, **OPT)
    def f(x):
        p = Pool(x)
        for i in range(n):
            p.add()
        p.verify('add')
        if x.choose(2):
            p.ref()
        k = PMAIN[x.choose(4)]
        getattr(p, k)()
        p.close(k)
    return f


def p_nested(n, main, k=1, **kw):
    @contract(['C06', 'C04', 'C02', 'C01'], 'pool of %d, %d callbacks during %s' % (n, k, main), PM, **dict(OPT, **kw))
    def f(x):
        p = Pool(x, nested=k, ops=('add', 'drain', 'unref', 'destroy'))
        if x.choose(2):
            p.ref()
        for i in range(n):
            p.add()
        getattr(p, main)()
        p.close(main + ' with re-entrant release functions')
    return f


for _n in range(4):
    p_simple(_n)
for _n in (1, 2, 3):
    for _m in PMAIN:
        p_nested(_n, _m)
        p_nested(_n, _m, 2, thorough=_n > 2)


def p_hist(n, k, **kw):
    @contract(['C06', 'C02'], 'history of %d operations on a pool of %d' % (k, n), PM, **dict(OPT, **kw))
    def f(x):
        p = Pool(x)
        for i in range(n):
            p.add()
        h = []
        for i in range(k):
            m = ('drain', 'dispatch', 'add')[x.choose(3)]
            h.append(m)
            getattr(p, m)()
            p.verify(', '.join(h))
        p.close(', '.join(h))
    return f


p_hist(2, 3)
p_hist(3, 5, thorough=True)


@contract(['C06', 'C02'], 'pool used on another thread', PM, **OPT)
def c_thread(x):
    p = Pool(x)
    p.add()
    note(x, 'thread', 1)
    x.stub['g_thread_self'] = lambda x, a, i: L(sym('app', 'other_thread', (), 4096, PMAX, True))
    x.assume_ne(L(sym('app', 'other_thread', (), 4096, PMAX, True)) - L(sym('app', 'current_thread', (), 4096, PMAX, True)))
    n = len(evs(x, 'cb'))
    p.loop.dispatch(p.loop.sources()[0])
    check(x, len(evs(x, 'cb')) == n, 'items are not released by an idle callback on a wrong thread while the pool is referenced', 'thread')
    del x.stub['g_thread_self']
    p.add()
    check(x, len(p.loop.sources()) == 1, 'the next addition creates a new source', 'source')
    p.drain()
    p.close('wrong thread')


def p_orphans(nested, **kw):
    """items which no idle source is going to release (its callback came on a
    wrong thread) go with the last reference"""
    @contract(['C06', 'C04', 'C02', 'C01'], 'last reference to a pool without an idle source' + (', callbacks' if nested else ''), PM, **dict(OPT, **kw))
    def f(x):
        p = Pool(x, nested=nested, ops=('add', 'drain') if nested else ())
        other = L(sym('app', 'other_thread', (), 4096, PMAX, True))
        x.assume_ne(other - L(sym('app', 'current_thread', (), 4096, PMAX, True)))
        for i in range(1 + x.choose(3)):
            p.add()
        early = x.choose(2)
        if early:
            # the source has the last reference
            p.unref()
        here = x.stub.get('g_thread_self')
        x.stub['g_thread_self'] = lambda x, a, i: other
        p.op('stray')
        p.loop.dispatch(p.loop.sources()[0])
        p.end('stray')
        if here:
            x.stub['g_thread_self'] = here
        else:
            del x.stub['g_thread_self']
        if not early:
            check(x, not evs(x, 'cb'), 'items are not released by an idle callback on a wrong thread while the pool is referenced', 'thread')
            check(x, not p.loop.sources(), 'the idle source is gone', 'source')
            getattr(p, ('unref', 'destroy')[x.choose(2)])()
        p.close('last reference, no idle source')
    return f


p_orphans(0)
p_orphans(1)
p_orphans(2, thorough=True)


def kind_of(x, name):
    """(pointer, release event predicate) for a typed add function"""
    p = pptr(x, 'object', VOIDP, True)
    return p


def typed(name, ref):
    fn = 'gutil_idle_pool_add_' + name + ('_ref' if ref else '')

    @contract(['C06', 'C03', 'C02'], 'add_' + name + ('_ref' if ref else ''), PM, **OPT)
    def f(x):
        q = Pool(x)
        x.cb_hook = None
        if name == 'strv':
            if x.choose(2):
                o = ZERO
            else:
                r = buffer(x, 'strv', 8, {'k': 'ptr', 'to': CHAR_T}, alloc='g_malloc')
                x.rstore(r, ZERO, ZERO, 8)
                o = r.ptr()
        else:
            o = pptr(x, 'object', VOIDP, True)
        r = x.call(fn, q.p, o)
        x.prove_eq(r, o, fn + ' returns its argument')

        def refs_are(want, what):
            e = [e for e in evs(x, 'ref', 'unref') if e.a[1] == name]
            if check(x, len(e) == len(want), '%s: %d references are taken or dropped, expected %d' % (what, len(e), len(want)), 'refs'):
                for g, w in zip(e, want):
                    check(x, g.kind == w and x.entails_eq(g.a[0] - o), what + ': one reference of the object', 'refs')
            check(x, not [e for e in evs(x, 'ref', 'unref') if e.a[1] not in (name, 'source', 'object' if name == 'object' else name)], what + ': nothing else', 'refs')
        if x.decide_eq(o):
            refs_are([], fn + '(NULL)')
            return check(x, not q.loop.sources(), fn + '(NULL): nothing is added', 'source')
        refs_are(['ref'] if ref else [], fn)
        if not check(x, len(q.loop.sources()) == 1, fn + ': the object is in the pool', 'source'):
            return
        q.loop.dispatch(q.loop.sources()[0])
        if name == 'strv':
            r, _ = x.lookup(o)
            check(x, r.freed, fn + ': the vector is released', 'release')
        else:
            refs_are((['ref'] if ref else []) + ['unref'], fn + ', then idle')
        x.call('gutil_idle_pool_unref', q.p)
        no_leaks(x)


for _k in RELEASE:
    typed(_k, False)
    if _k != 'strv':
        typed(_k, True)


@contract(['C06', 'C03', 'C02'], 'add without a function', PM, **OPT)
def c_nofn(x):
    q = Pool(x)
    o = pptr(x, 'object', VOIDP, True)
    x.prove_eq(x.call('gutil_idle_pool_add', q.p, o, ZERO), o, 'add returns its argument')
    check(x, not q.loop.sources(), 'adding without a release function adds nothing', 'source')
    q.unref()
    no_leaks(x)


@contract(['C06', 'C02'], 'shared pool', PM, **OPT)
def c_shared(x):
    v = buffer(x, 'shared', 8, {'k': 'ptr', 'to': VOIDP})
    x.rstore(v, ZERO, ZERO, 8)
    P = Pool(x, p=0)
    p = x.call('gutil_idle_pool_get', v.ptr())
    x.prove_ne(p, 0, 'get: a pool')
    x.prove_eq(x.rload(v, ZERO, 8, True), p, 'get: the pointer to the shared pool is set', 'shared')
    x.prove_eq(x.call('gutil_idle_pool_get', v.ptr()), p, 'get: the pool is created once', 'shared')
    r, _ = x.lookup(p)
    P.p = p
    note(x, 'refs', 0)
    k = x.choose(4)
    if k == 0:
        # nobody references it
        P.dispatch()
        check(x, r.freed, 'an unused shared pool goes away by itself', 'refcount')
    elif k == 1:
        P.ref()
        P.dispatch()
        check(x, not x.lookup(p)[0].freed, 'a referenced shared pool stays', 'refcount')
        x.prove_eq(x.rload(v, ZERO, 8, True), p, 'a referenced shared pool stays shared', 'shared')
        P.add()
        P.unref()
        while P.loop.sources():
            P.dispatch()
        P.verify('shared pool')
    elif k == 2:
        P.add()
        P.dispatch()
        P.verify('shared pool')
    else:
        P.ref()
        P.drain()
        P.unref()
    P.verify('shared pool')
    check(x, x.lookup(p)[0].freed, 'the shared pool is gone', 'refcount')
    x.prove_eq(x.rload(v, ZERO, 8, True), 0, 'the shared pool is forgotten when it goes away', 'shared')
    check(x, not P.loop.sources(), 'no idle source outlives the pool', 'source')
    no_leaks(x)


@contract(['C06', 'C02'], 'shared pool, callbacks', PM, **OPT)
def c_shared_cb(x):
    v = buffer(x, 'shared', 8, {'k': 'ptr', 'to': VOIDP})
    x.rstore(v, ZERO, ZERO, 8)
    P = Pool(x, p=0, nested=1)
    p = P.p = x.call('gutil_idle_pool_get', v.ptr())
    note(x, 'refs', 0)
    P.add()

    def hook(x, fn, args, ins):
        # the release function asks for the shared pool and adds something
        if get(x, 'nested', 0):
            return
        note(x, 'nested', 1)
        q = x.call('gutil_idle_pool_get', v.ptr())
        r, _ = x.lookup(q)
        check(x, r is not None and not r.freed, 'get: a live pool', 'shared')
        x.call('gutil_idle_pool_add', q, pptr(x, 'more'), pptr(x, 'dmore', FUN, False))
    x.cb_hook = hook
    P.dispatch()
    n = 0
    while P.loop.sources() and n < 4:
        P.dispatch()
        n += 1
    check(x, sum(1 for e in evs(x, 'cb') if x.entails_eq(e.a[0] - pptr(x, 'dmore', FUN, False))) == 1, 'shared pool: what a release function adds is released, too', 'once')
    x.prove_eq(x.rload(v, ZERO, 8, True), 0, 'the shared pool is forgotten when it goes away', 'shared')
    no_leaks(x)


@contract(['C06', 'C03', 'C02'], 'default pool', PM, **OPT)
def c_default(x):
    note(x, 'private', ZERO)

    def pget(x, a, i):
        return get(x, 'private')

    def pset(x, a, i):
        note(x, 'private', x.c(a[1]))
        x.event('g_private_set', *a)

    def prep(x, a, i):
        x.taint('g_private_replace')
    x.stub.update(g_private_get=pget, g_private_set=pset, g_private_replace=prep)
    P = Pool(x, p=0)
    note(x, 'refs', 1)
    k = x.choose(3)
    if k == 0:
        P.p = x.call('gutil_idle_pool_get_default')
    else:
        P.p = ZERO
        P.add()
        if k == 2:
            # NULL is the default pool
            P.op('drain')
            x.call('gutil_idle_pool_drain', ZERO)
            P.end('drain')
            check(x, len(evs(x, 'cb')) == 1, 'drain(NULL) drains the default pool', 'once')
            check(x, not P.loop.sources(), 'drain(NULL): nothing is left to do', 'source')
        P.p = x.call('gutil_idle_pool_get_default')
    x.prove_ne(P.p, 0, 'get_default: a pool')
    x.prove_eq(get(x, 'private'), P.p, 'get_default: the pool is remembered', 'default')
    x.prove_eq(x.call('gutil_idle_pool_get_default'), P.p, 'get_default: the pool is created once', 'default')
    P.add()
    P.verify('default pool')
    check(x, len(evs(x, 'g_private_set')) == 1, 'get_default: the pool is created once', 'default')
    while P.loop.sources():
        P.dispatch()
    P.verify('default pool')
    # thread exit
    P.unref()
    P.verify('default pool')
    check(x, x.lookup(P.p)[0].freed, 'the default pool is gone when the thread exits', 'refcount')
    note(x, 'private', ZERO)
    no_leaks(x)


@contract(['C06', 'C03', 'C01', 'C02'], 'pool references and NULL', PM, **OPT)
def c_pnull(x):
    k = x.choose(4)
    if k == 0:
        x.prove_eq(x.call('gutil_idle_pool_ref', ZERO), 0, 'ref(NULL)')
    elif k == 1:
        x.call('gutil_idle_pool_unref', ZERO)
        x.call('gutil_idle_pool_destroy', ZERO)
    elif k == 2:
        P = Pool(x, p=0)
        P.p = x.call('gutil_idle_pool_get', ZERO)
        note(x, 'refs', 1)
        x.prove_ne(P.p, 0, 'get(NULL): a new pool')
        P.add()
        return P.close('get(NULL)')
    else:
        P = Pool(x)
        for i in range(x.choose(3)):
            P.add()
        P.ref()
        P.unref()
        P.verify('ref, unref')
        check(x, not evs(x, 'cb'), 'a referenced pool keeps its items', 'refcount')
        return P.close('ref, unref')
    check(x, not evs(x, 'cb', 'alloc', 'free'), 'NULL pool: nothing happens')
