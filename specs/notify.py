"""Inotify watches (C22) and the time notifier (C23), driven through the public
API against stand-ins for the kernel, the main loop, GObject and signals."""
from spec import *
import models
from idle import note, get, mark

FUN = {'k': 'func'}
OPT = dict(unrollall=40, rec_depth=6, maxpaths=40000)
U32MAX = (1 << 32) - 1
IN, ERR, HUP, NVAL = 1, 8, 16, 32


def gid(name, lo=1, hi=U32MAX):
    return L(sym('ghost', name, (), lo, hi))


class World:
    """every stand-in keeps its state in the abstract state, so that it is
    consistent on every trace"""
    STUBS = ('g_once_init_enter', 'g_once_init_leave', 'g_type_register_static_simple', 'g_type_class_peek_parent', 'g_object_new',
             'g_object_ref', 'g_object_unref', 'g_object_add_weak_pointer', 'g_object_remove_weak_pointer', 'g_signal_new', 'g_signal_connect_data',
             'g_signal_handler_disconnect', 'g_signal_emit', 'g_signal_emit_by_name', 'inotify_init', 'inotify_init1', 'inotify_add_watch', 'inotify_rm_watch',
             'timerfd_create', 'timerfd_settime', 'close', 'g_io_channel_unix_new', 'g_io_channel_ref', 'g_io_channel_unref',
             'g_io_channel_shutdown', 'g_io_channel_set_close_on_unref', 'g_io_channel_read_chars', 'read',
             'g_io_add_watch', 'g_io_add_watch_full', 'g_source_remove', 'g_hash_table_new', 'g_hash_table_new_full',
             'g_hash_table_insert', 'g_hash_table_replace', 'g_hash_table_lookup', 'g_hash_table_contains', 'g_hash_table_remove',
             'g_hash_table_size', 'g_hash_table_destroy', 'g_hash_table_unref', 'g_hash_table_remove_all', 'g_clear_object')

    def __init__(self, x, instance, get_type, fails=True, samewd=False):
        self.x, self.sname, self.get_type, self.fails, self.samewd = x, instance, get_type, fails, samewd
        x.ginit = True
        for n in self.STUBS:
            if hasattr(self, n):
                x.stub[n] = getattr(self, n)
        self.during = None
        self.pending = ()
        x.cb_hook = self.user

    # ------------------------------------------------------------- utilities
    def tab(self, key):
        return get(self.x, key, ())

    def add(self, key, *v):
        note(self.x, key, self.tab(key) + (v,))
        return len(self.tab(key))

    def find(self, key, v, col=0):
        """the row whose column is v"""
        v = self.x.c(v)
        for r in self.tab(key):
            if self.x.entails_eq(v - r[col]):
                return r
        return None

    def drop(self, key, row):
        note(self.x, key, tuple(r for r in self.tab(key) if r is not row))

    def put(self, key, row, new):
        note(self.x, key, tuple(new if r is row else r for r in self.tab(key)))

    def bad(self, kind, msg, v=None):
        x = self.x
        x.count(kind)
        x.fail(kind, msg, undecided=v is not None and x.c(v).imprecise())
        raise PathEnd()

    def may_fail(self):
        return self.fails and self.x.choose(2) == 1

    def ok(self, kind='once'):
        self.x.count(kind)

    # ----------------------------------------------------------- descriptors
    def newfd(self, kind):
        if self.may_fail():
            return K(-1)
        n = len(self.tab('fds'))
        fd = gid('%s%d' % (kind, n), 0, 1 << 20)
        self.add('fds', fd, kind)
        note(self.x, 'open', self.tab('open') + ((fd,),))
        return fd

    def inotify_init(self, x, a, i): return self.newfd('inotify_fd')

    def inotify_init1(self, x, a, i):
        self.flags(a[0], 'inotify_init1')
        return self.newfd('inotify_fd')

    def timerfd_create(self, x, a, i):
        self.flags(a[1], 'timerfd_create')
        return self.newfd('timer_fd')

    def flags(self, v, what):
        """only the non-blocking and the close-on-exec flag"""
        v = self.x.sview(v, 32)
        check(self.x, v.isconst() and not v.c & ~0o2004000, '%s refuses unknown flags' % what, 'post')

    def shut(self, fd, what):
        r = self.find('open', self.x.sview(fd, 32))
        if r is None:
            self.bad('descriptor', '%s: the file descriptor is not open (any more)' % what, fd)
        self.ok('descriptor')
        self.drop('open', r)
        note(self.x, 'kw', tuple(k for k in self.tab('kw') if not self.x.entails_eq(k[0] - r[0])))

    def close(self, x, a, i):
        self.shut(a[0], 'close')
        return ZERO

    def isopen(self, fd, what):
        fd = self.x.sview(fd, 32)
        if self.find('open', fd) is None:
            self.bad('descriptor', '%s: the file descriptor is not open' % what, fd)
        return fd

    def inotify_add_watch(self, x, a, i):
        fd = self.isopen(a[0], 'inotify_add_watch')
        n = models.cstr(x, a[1], 'inotify_add_watch')
        if self.may_fail():
            return K(-1)
        if self.samewd and self.tab('wds') and x.choose(2):
            wd = self.tab('wds')[0][0]
        else:
            wd = gid('wd%d' % len(self.tab('wds')), 1, (1 << 31) - 1)
            for w in self.tab('wds'):
                x.assume_ne(wd - w[0], False)
        self.add('wds', wd)
        if not any(x.entails_eq(k[1] - wd) for k in self.tab('kw')):
            self.add('kw', fd, wd)
        x.event('kernel-watch', fd, a[1], x.uview(a[2], 32), wd)
        return wd

    def inotify_rm_watch(self, x, a, i):
        fd = self.isopen(a[0], 'inotify_rm_watch')
        wd = x.sview(a[1], 32)
        for k in self.tab('kw'):
            if x.entails_eq(k[0] - fd) and x.entails_eq(k[1] - wd):
                self.ok()
                self.drop('kw', k)
                return ZERO
        self.bad('once', 'inotify_rm_watch(%s, %s): there is no such watch (any more)' % (fd, wd), wd)

    def timerfd_settime(self, x, a, i):
        fd = self.isopen(a[0], 'timerfd_settime')
        r, off = x.resolve(a[2], 'timerfd_settime')
        x.bounds_check(r, off, K(32), 'timerfd_settime')
        v = [x.sview(x.rload(r, x.c(off + k), 8), 64) for k in (0, 8, 16, 24)]
        okk = not self.may_fail()
        x.event('settime', fd, x.sview(a[1], 32), *v)
        return ZERO if okk else K(-1)

    # -------------------------------------------------------------- channels
    def g_io_channel_unix_new(self, x, a, i):
        fd = self.isopen(a[0], 'g_io_channel_unix_new')
        p = gid('channel%d' % len(self.tab('chs')), 4096, PMAX)
        self.add('chs', p)
        note(x, ('ch', p), dict(fd=fd, refs=1, shut=False, close=False))
        return p

    def chan(self, p, what):
        for r in self.tab('chs'):
            if self.x.entails_eq(p - r[0]):
                c = self.x.st.notes[('ch', r[0])]
                if not c['refs']:
                    self.bad('use-after-free', what + ': the channel does not exist any more')
                return r[0], c
        self.bad('channel', what + ': unknown channel', p)

    def upd(self, p, c, **kw):
        note(self.x, ('ch', p), dict(c, **kw))

    def g_io_channel_ref(self, x, a, i):
        p, c = self.chan(a[0], 'g_io_channel_ref')
        self.upd(p, c, refs=c['refs'] + 1)
        return a[0]

    def g_io_channel_unref(self, x, a, i):
        p, c = self.chan(a[0], 'g_io_channel_unref')
        self.upd(p, c, refs=c['refs'] - 1)
        if c['refs'] == 1 and c['close'] and not c['shut']:
            self.shut(c['fd'], 'g_io_channel_unref')

    def g_io_channel_shutdown(self, x, a, i):
        p, c = self.chan(a[0], 'g_io_channel_shutdown')
        self.shut(c['fd'], 'g_io_channel_shutdown')
        self.upd(p, c, shut=True, close=False)
        return ONE

    def g_io_channel_set_close_on_unref(self, x, a, i):
        p, c = self.chan(a[0], 'g_io_channel_set_close_on_unref')
        self.upd(p, c, close=x.entails_ne(a[1]))

    def g_io_add_watch(self, x, a, i):
        p, c = self.chan(a[0], 'g_io_add_watch')
        self.upd(p, c, refs=c['refs'] + 1)
        n = get(x, 'srcn', 0)
        note(x, 'srcn', n + 1)
        id = gid('io_source%d' % n)
        self.add('src', id, p, x.uview(a[1], 32), x.c(a[2]), x.c(a[3]))
        return id

    def g_io_add_watch_full(self, x, a, i):
        return self.g_io_add_watch(x, [a[0], a[2], a[3], a[4]], i)

    def g_source_remove(self, x, a, i):
        r = self.find('src', x.uview(a[0], 32))
        if r is None:
            self.bad('source', 'g_source_remove: there is no such source (any more)', a[0])
        self.ok('source')
        self.unsrc(r)
        return ONE

    def unsrc(self, r):
        self.drop('src', r)
        self.g_io_channel_unref(self.x, [r[1]], None)

    def dispatch(self, cond):
        """the main loop runs the (only) source"""
        x = self.x
        s = self.tab('src')[0]
        x.event('dispatch')
        # a source being dispatched is referenced by the main loop
        p, c = self.chan(s[1], 'dispatch')
        self.upd(p, c, refs=c['refs'] + 1)
        r = x.callback_library(s[3], [s[1], cond, s[4]])
        keep = is_true(x, r)
        for q in self.tab('src'):
            if q[0] == s[0] and not keep:
                self.unsrc(q)
        self.g_io_channel_unref(x, [s[1]], None)
        return keep

    # -------------------------------------------------------------- GObject
    def g_once_init_enter(self, x, a, i):
        return ONE if x.decide_eq(x.load(a[0], 8)) else ZERO

    def g_once_init_leave(self, x, a, i):
        x.store(a[0], a[1], 8)

    def g_type_register_static_simple(self, x, a, i):
        t = gid('type', 1 << 10, 1 << 60)
        self.add('type', t, x.c(a[2]), x.c(a[3]), x.c(a[4]), x.c(a[5]))
        return t

    def g_type_class_peek_parent(self, x, a, i):
        o = obj(x, 'parent_class', '_GObjectClass')
        o.set('finalize', pptr(x, 'parent_finalize', FUN, False))
        return o.ptr

    def g_object_new(self, x, a, i):
        t = self.find('type', a[0])
        if t is None:
            self.bad('post', 'g_object_new of an unknown type', a[0])
        if not self.tab('class'):
            r = x.region('class', 'ext', t[1], 'sym', struct_t('_GObjectClass'))
            r.info = {'sep': 1}
            note(x, 'class', r.ptr())
            x.callback_library(t[2], [r.ptr(), ZERO])
        self.instsize = t[3]
        r = x.alloc('g_object', t[3], 'zero', struct_t(self.sname))
        self.add('objs', r.ptr())
        note(x, ('obj', r.ptr()), 1)
        x.rstore(r, ZERO, get(x, 'class'), 8)
        x.callback_library(t[4], [r.ptr(), get(x, 'class')])
        return r.ptr()

    def object(self, p, what):
        for r in self.tab('objs'):
            if self.x.entails_eq(p - r[0]):
                n = self.x.st.notes[('obj', r[0])]
                if n <= 0:
                    self.bad('use-after-free', '%s of an object that does not exist any more' % what)
                return r[0], n
        self.bad('object', what + ' of an unknown object', p)

    def alive(self, p):
        return self.x.st.notes.get(('obj', p), 0) > 0

    def g_object_ref(self, x, a, i):
        p, n = self.object(a[0], 'g_object_ref')
        note(x, ('obj', p), n + 1)
        return a[0]

    def g_clear_object(self, x, a, i):
        p = x.load(a[0], 8, True)
        if not x.decide_eq(p):
            x.store(a[0], ZERO, 8)
            self.g_object_unref(x, [p], i)

    def g_object_unref(self, x, a, i):
        p, n = self.object(a[0], 'g_object_unref')
        if n > 1:
            note(x, ('obj', p), n - 1)
            return
        # weak pointers and handlers go first (dispose), then finalize
        for w in self.tab('weak'):
            if x.entails_eq(w[0] - p):
                x.store(w[1], ZERO, 8)
                self.drop('weak', w)
        for h in self.tab('handlers'):
            if x.entails_eq(h[1] - p):
                self.drop('handlers', h)
        k = len(x.st.events)
        cls = Obj(x, x.resolve(get(x, 'class'))[0], '_GObjectClass')
        # the object is dying: nobody may take a reference now
        note(x, 'dying', p)
        fin = cls.get('finalize')
        s = x.c(fin).single()
        if s is not None and s.kind == 'func':
            x.callback_library(fin, [p])
            up = [e for e in x.st.events[k:] if e.kind == 'cb' and x.entails_eq(e.a[0] - pptr(x, 'parent_finalize', FUN, False)) and
                  x.entails_eq(e.a[1] - p)]
            check(x, len(up) == 1, 'finalize chains up to the parent class once', 'once')
        note(x, ('obj', p), 0)
        x.event('dead', p)
        x.free_region(x.resolve(p)[0])

    def g_object_add_weak_pointer(self, x, a, i):
        p, n = self.object(a[0], 'g_object_add_weak_pointer')
        self.add('weak', p, x.c(a[1]))

    def g_object_remove_weak_pointer(self, x, a, i):
        p, n = self.object(a[0], 'g_object_remove_weak_pointer')
        for w in self.tab('weak'):
            if x.entails_eq(w[0] - p) and x.entails_eq(w[1] - a[1]):
                self.drop('weak', w)
                return
        self.bad('once', 'g_object_remove_weak_pointer: there is none')

    # --------------------------------------------------------------- signals
    def g_signal_new(self, x, a, i):
        id = gid('signal%d' % len(self.tab('signals')))
        n = models.conststr(x, a[0])
        x.prove_eq(a[3], 0, 'g_signal_new: the class has no method for the signal', 'signal')
        x.prove_eq(x.uview(a[8], 32), len(a) - 9, 'g_signal_new: as many parameter types as announced', 'signal')
        self.add('signals', id, n, tuple(x.c(v) for v in a[7:]), x.uview(a[2], 32))
        return id

    def g_signal_connect_data(self, x, a, i):
        p, n = self.object(a[0], 'g_signal_connect')
        name = models.conststr(x, a[1])
        sig = [s for s in self.tab('signals') if s[1] == name]
        if not sig:
            self.bad('post', 'g_signal_connect: there is no signal %s' % name)
        k = get(x, 'hn', 0)
        note(x, 'hn', k + 1)
        id = gid('handler%d' % k, 1, 1 << 60)
        self.add('handlers', id, p, x.c(a[2]), x.c(a[3]), sig[0][0])
        check(x, x.entails_eq(a[5]), 'the handler is connected without flags', 'post')
        return id

    def g_signal_handler_disconnect(self, x, a, i):
        p, n = self.object(a[0], 'g_signal_handler_disconnect')
        for h in self.tab('handlers'):
            if x.entails_eq(h[0] - a[1]) and x.entails_eq(h[1] - p):
                self.ok()
                self.drop('handlers', h)
                return
        self.bad('once', 'g_signal_handler_disconnect: there is no such handler (any more)', a[1])

    def g_signal_emit(self, x, a, i):
        p, n = self.object(a[0], 'g_signal_emit')
        sig = self.find('signals', a[1])
        if sig is None:
            self.bad('post', 'g_signal_emit: unknown signal', a[1])
        if not (sig[3].isconst() and sig[3].c & 16):
            x.prove_eq(x.uview(a[2], 32), 0, 'g_signal_emit: the signal is emitted without detail', 'signal')
        n = len(sig[2]) - 2
        check(x, len(a) - 3 >= n, 'g_signal_emit: too few arguments', 'post')
        self.g_object_ref(x, [p], None)
        x.event('emit', p, *a[3:3 + n])
        for h in self.tab('handlers'):
            if not x.entails_eq(h[1] - p) or not x.entails_eq(h[4] - sig[0]):
                continue
            # it may have been disconnected by another handler
            if any(q is h for q in self.tab('handlers')):
                x.event('deliver', h[2], p, *(tuple(x.c(v) for v in a[3:3 + n]) + (h[3],)))
                if self.during:
                    self.during()
        self.g_object_unref(x, [p], None)

    def g_signal_emit_by_name(self, x, a, i):
        name = models.conststr(x, a[1])
        sig = [s for s in self.tab('signals') if s[1] == name]
        if not sig:
            self.bad('post', 'g_signal_emit_by_name: there is no signal %s' % name)
        return self.g_signal_emit(x, [a[0], sig[0][0], ZERO] + list(a[2:]), i)

    def user(self, x, f, args, ins):
        return None

    # ----------------------------------------------------------- hash tables
    def newtab(self, x):
        p = gid('table%d' % len(self.tab('tabs')), 4096, PMAX)
        self.add('tabs', p)
        note(x, ('tab', p), ())
        note(x, ('tabrefs', p), 1)
        return p

    def g_hash_table_new(self, x, a, i):
        return self.newtab(x)

    def g_hash_table_new_full(self, x, a, i):
        for f in a[2:4]:
            if not x.entails_eq(f):
                x.taint('hash table with destroy functions')
        return self.newtab(x)

    def table(self, p, what):
        for r in self.tab('tabs'):
            if self.x.entails_eq(p - r[0]):
                if not self.x.st.notes[('tabrefs', r[0])]:
                    self.bad('use-after-free', what + ': the table does not exist any more')
                return r[0], self.x.st.notes[('tab', r[0])]
        self.bad('table', what + ': unknown table %s' % p, p)

    def row(self, t, key):
        for r in t:
            if self.x.decide_eq(key - r[0]):
                return r
        return None

    def g_hash_table_insert(self, x, a, i):
        p, t = self.table(a[0], 'g_hash_table_insert')
        r = self.row(t, a[1])
        if r is not None and not x.entails_eq(r[1] - a[2]):
            x.event('replaced', p, r[0], r[1], a[2])
        note(x, ('tab', p), tuple(q for q in t if q is not r) + ((x.c(a[1]), x.c(a[2])),))
        return ONE if r is None else ZERO

    g_hash_table_replace = g_hash_table_insert

    def g_hash_table_lookup(self, x, a, i):
        p, t = self.table(a[0], 'g_hash_table_lookup')
        r = self.row(t, a[1])
        return ZERO if r is None else r[1]

    def g_hash_table_contains(self, x, a, i):
        p, t = self.table(a[0], 'g_hash_table_contains')
        return ZERO if self.row(t, a[1]) is None else ONE

    def g_hash_table_remove(self, x, a, i):
        p, t = self.table(a[0], 'g_hash_table_remove')
        r = self.row(t, a[1])
        note(x, ('tab', p), tuple(q for q in t if q is not r))
        return ZERO if r is None else ONE

    def g_hash_table_remove_all(self, x, a, i):
        p, t = self.table(a[0], 'g_hash_table_remove_all')
        note(x, ('tab', p), ())

    def g_hash_table_size(self, x, a, i):
        p, t = self.table(a[0], 'g_hash_table_size')
        return K(len(t))

    def g_hash_table_destroy(self, x, a, i):
        p, t = self.table(a[0], 'g_hash_table_destroy')
        note(x, ('tabrefs', p), 0)
    g_hash_table_unref = g_hash_table_destroy

    # ------------------------------------------------------------------ input
    def g_io_channel_read_chars(self, x, a, i):
        """what the kernel has got, or an error"""
        p, c = self.chan(a[0], 'g_io_channel_read_chars')
        self.isopen(c['fd'], 'g_io_channel_read_chars')
        n = self.input(x, a[1], x.uview(a[2], 64))
        if n is None:
            if not x.decide_eq(a[3]):
                x.store(a[3], ZERO, 8)
            if not x.decide_eq(a[4]):
                e = gid('gerror%d' % len(x.st.events), 4096, PMAX)
                e = L(sym('ghost', 'gerror%d' % len(x.st.events), (), 4096, PMAX, True, {'k': 'struct', 'name': '_GError'}))
                x.store(a[4], e, 8, True)
                x.event('gerror', e)
            return ZERO
        if not x.decide_eq(a[3]):
            x.store(a[3], n, 8)
        return ONE

    def read(self, x, a, i):
        fd = self.isopen(a[0], 'read')
        n = self.input(x, a[1], x.uview(a[2], 64))
        return K(-1) if n is None else n

    # ------------------------------------------------------------- accounting
    def nothing_left(self, what):
        """no descriptor, kernel watch, channel, source, table or object"""
        x = self.x
        check(x, not self.tab('open'), what + ': the file descriptor is closed', 'cleanup')
        check(x, not self.tab('src'), what + ': the event source is removed', 'cleanup')
        check(x, not self.tab('weak'), what + ': no weak pointer is left', 'cleanup')
        for r in self.tab('chs'):
            check(x, not x.st.notes[('ch', r[0])]['refs'], what + ': the channel is released', 'cleanup')
        for r in self.tab('tabs'):
            check(x, not x.st.notes[('tabrefs', r[0])], what + ': the table is destroyed', 'cleanup')
        for r in self.tab('objs'):
            check(x, not self.alive(r[0]), what + ': the object is gone', 'cleanup')
        errs = [e for e in evs(x, 'gerror')]
        check(x, len(errs) == len(evs(x, 'g_error_free')), what + ': every error is freed', 'leak')
        no_leaks(x)


# ----------------------------------------------------------------- inotify
IMODS = ['gutil_inotify', 'gutil_misc']
W_INST = ('gutil_inotify_watch', 'gutil_inotify_watch_get_type')


class Notify(World):
    def __init__(self, x, **kw):
        World.__init__(self, x, *W_INST, **kw)
        self.w = []         # [(pointer, own references, alive)]
        self.nested = 0

    def input(self, x, buf, size):
        """writes the pending events into the buffer"""
        r, off = x.resolve(buf, 'read buffer')
        x.bounds_check(r, off, size, 'read buffer')
        if self.pending is None:
            return None
        need = 0
        o = x.c(off)
        for wd, mask, cookie, ln, have in self.pending:
            for k, v in enumerate((wd, mask, cookie, ln)):
                if have >= 0 or 4 * k + 4 <= 16 + have:
                    x.rstore(r, x.c(o + need + 4 * k), L(v), 4)
            if have > 0:
                src = x.region('name%d' % len(x.st.events), 'ext', have, 'sym', CHAR_T)
                r.head = absint.W('copy', x.c(o + need + 16), K(have), None, (src, ZERO, None), r.head)
                x.rstore(r, x.c(o + need + 16 + have - 1), ZERO, 1)
            need += 16 + have
        x.prove_ge(size - 16 - 255 - 1, 'the buffer has room for an event with the longest name')
        self.read_at = (r, o)
        return K(need)

    def new(self, path=None, mask=None):
        x = self.x
        k = len(self.w)
        path = path or cstring(x, 'path%d' % k)[0].ptr()
        mask = mask or pint(x, 'mask%d' % k, 4, False)
        n = len(x.st.events)
        p = x.call('gutil_inotify_watch_new', path, mask)
        kw = [e for e in x.st.events[n:] if e.kind == 'kernel-watch']
        if x.decide_eq(p):
            check(x, not kw, 'new: a watch that was added is returned')
            return None
        if not check(x, len(kw) == 1, 'new: one kernel watch'):
            raise PathEnd()
        x.prove_eq(kw[0].a[1], path, 'new: the path is watched')
        x.prove_eq(kw[0].a[2], mask, 'new: for the events asked for')
        w = dict(p=x.c(p), refs=1, wd=kw[0].a[3], live=True, k=k, h=[])
        self.w.append(w)
        return w

    def handler(self, w):
        x = self.x
        k = get(x, 'hn', 0)
        f, d = pptr(x, 'handler_fn%d' % k, FUN, False), pptr(x, 'handler_data%d' % k)
        id = x.call('gutil_inotify_watch_add_handler', w['p'], f, d)
        x.prove_ne(id, 0, 'add_handler: the identifier is not zero')
        w['h'].append((x.c(id), f, d))
        return w['h'][-1]

    def unhandler(self, w, h):
        self.x.call('gutil_inotify_watch_remove_handler', w['p'], h[0])
        w['h'].remove(h)

    def destroy(self, w):
        w['refs'] -= 1
        w['live'] = False
        self.x.call('gutil_inotify_watch_destroy', w['p'])

    def unref(self, w):
        w['refs'] -= 1
        if not w['refs'] and not self.emitting(w):
            w['live'] = False
        self.x.call('gutil_inotify_watch_unref', w['p'])

    def emitting(self, w):
        return w in self.stack

    def ref(self, w):
        w['refs'] += 1
        self.x.prove_eq(self.x.call('gutil_inotify_watch_ref', w['p']), w['p'], 'ref returns its argument')

    stack = ()

    def event(self, pending, cond=IN, body=None):
        """the main loop delivers input; returns (event, handler) pairs"""
        x = self.x
        self.pending = pending
        n = len(x.st.events)
        keep = self.dispatch(K(cond))
        return keep, [e for e in x.st.events[n:] if e.kind == 'deliver']

    def state(self, what):
        """the kernel watches are those of the live watches"""
        x = self.x
        live = [w for w in self.w if w['live']]
        kw = self.tab('kw')
        check(x, len(kw) == len(live) and all(any(x.entails_eq(k[1] - w['wd']) for k in kw) for w in live),
              what + ': exactly the live watches are in the kernel (%d, expected %d)' % (len(kw), len(live)), 'once')
        if any(w['refs'] for w in self.w):
            check(x, len(self.tab('open')) == 1, what + ': the descriptor stays open', 'cleanup')
        for w in self.w:
            check(x, self.alive(w['p']) == bool(w['refs']), what + ': the object lives as long as it is referenced', 'cleanup')

    def finish(self, what):
        for w in self.w:
            while w['refs']:
                self.unref(w)
        self.nothing_left(what)


def pend(x, k, ln=None, have=None):
    """a kernel event with an unknown descriptor"""
    ln = ln if ln is not None else [0, 16][x.choose(2)]
    return (pint(x, 'event_wd%d' % k, 4, True, -1, (1 << 31) - 1), pint(x, 'event_mask%d' % k, 4, False),
            pint(x, 'event_cookie%d' % k, 4, False), ln, ln if have is None else have)


@contract(['C22', 'C02'], 'inotify new', IMODS, **OPT)
def c_inew(x):
    m = Notify(x)
    w = m.new()
    if w:
        m.state('new')
        s = m.tab('src')
        if check(x, len(s) == 1, 'new: one event source'):
            check(x, x.entails_eq(s[0][2] - (IN | ERR | HUP | NVAL)) or x.entails_ge(s[0][2] - IN), 'new: input is watched')
        for row in m.tab('open'):
            x.prove_eq(row[0], m.tab('kw')[0][0], 'new: the descriptor is the one in use')
    m.finish('new, unref' if w else 'new failed')


def expected(x, m, pending, live):
    """(watch, event) pairs"""
    out = []
    for ev in pending:
        if ev[3] != ev[4]:
            break
        for w in live:
            if x.decide_eq(ev[0] - w['wd']):
                out.append((w, ev))
                break
    return out


def compare(x, m, got, want, what):
    """deliveries, in order: one per handler of the watch"""
    w2 = [(w, ev, h) for w, ev in want for h in w['h']]
    if not check(x, len(got) == len(w2), '%s: %d event(s) delivered, expected %d' % (what, len(got), len(w2)), 'delivery'):
        return
    for e, (w, ev, h) in zip(got, w2):
        x.prove_eq(e.a[0], h[1], what + ': the handler of the watch', 'delivery')
        x.prove_eq(e.a[1], w['p'], what + ': the watch', 'delivery')
        if not check(x, len(e.a) == 6, what + ': mask, cookie and name', 'delivery'):
            return
        x.prove_eq(x.uview(e.a[2], 32), ev[1], what + ': its mask', 'delivery')
        x.prove_eq(x.uview(e.a[3], 32), ev[2], what + ': its cookie', 'delivery')
        x.prove_eq(e.a[5], h[2], what + ': the data of the handler', 'delivery')
        if not ev[3]:
            x.prove_eq(e.a[4], 0, what + ': no name', 'delivery')
        else:
            r, o = m.read_at
            at = 16
            for q in m.pending:
                if q is ev:
                    break
                at += 16 + q[4]
            x.prove_eq(e.a[4], r.ptr() + o + at, what + ': its name', 'delivery')


def events(nw, ne, cut=False):
    @contract(['C22', 'C02'], 'inotify events %d watches %d events%s' % (nw, ne, ' cut' if cut else ''), IMODS, **OPT)
    def f(x):
        m = Notify(x, fails=False)
        for k in range(nw):
            w = m.new()
            for _ in range([1, 2, 0][k] if k else 1 + x.choose(2)):
                m.handler(w)
        p = [pend(x, k) for k in range(ne)]
        if cut:
            # the last event is announced to be longer than what was read,
            # or what was read ends within its header (the rest of the buffer
            # is left over from earlier reads)
            p[-1] = pend(x, ne - 1, 32, [0, 16, -1, -4, -8, -12, -15][x.choose(7)])
        keep, got = m.event(p)
        check(x, keep, 'events: the source is kept')
        compare(x, m, got, expected(x, m, p, m.w), 'events')
        m.state('events')
        m.finish('events')


events(1, 0)
events(1, 1)
events(1, 2)
events(2, 1)
events(2, 2)
events(1, 1, True)
events(1, 2, True)


@contract(['C22', 'C02'], 'inotify conditions', IMODS, **OPT)
def c_icond(x):
    """errors: the source goes away and nobody removes it again"""
    m = Notify(x, fails=False)
    w = m.new()
    m.handler(w)
    k = x.choose(5)
    if k == 4:
        keep, got = m.event(None)
    else:
        keep, got = m.event([pend(x, 0)], [ERR, HUP, NVAL, IN | ERR][k])
    check(x, not keep and not m.tab('src'), 'conditions: the source is removed after an error', 'source')
    check(x, not got, 'conditions: no event after an error', 'delivery')
    m.state('conditions')
    m.finish('conditions')


IOPS = ('new', 'handler', 'unhandler', 'ref', 'unref', 'destroy', 'event')


def operate(x, m, name, inner=False):
    """one operation on some watch; False if it is not possible now"""
    if name == 'new':
        if len(m.w) > 2:
            return False
        w = m.new()
        if w and not inner:
            m.handler(w)
        return True
    ws = [w for w in m.w if w['refs']]
    if name == 'event':
        if not m.tab('src') or inner:
            return False
        live = [w for w in m.w if w['live']]
        p = [pend(x, get(x, 'evn', 0), 0)]
        note(x, 'evn', get(x, 'evn', 0) + 1)
        keep, got = m.event(p)
        compare(x, m, got, expected(x, m, p, live), 'event')
        return True
    if not ws:
        return False
    w = ws[x.choose(len(ws))] if len(ws) > 1 else ws[0]
    if name == 'handler':
        m.handler(w)
    elif name == 'unhandler':
        if not w['h']:
            return False
        m.unhandler(w, w['h'][x.choose(len(w['h']))] if len(w['h']) > 1 else w['h'][0])
    elif name == 'ref':
        m.ref(w)
    elif name == 'unref':
        m.unref(w)
    elif name == 'destroy':
        m.destroy(w)
    return True


def sequence(n, first, thorough=False):
    @contract(['C22', 'C02', 'C01'], 'inotify sequence %d %s' % (n, first), IMODS, thorough=thorough, **OPT)
    def f(x):
        m = Notify(x, fails=False)
        operate(x, m, 'new')
        what = 'new, ' + first
        if not operate(x, m, first):
            return
        m.state(what)
        for k in range(n - 1):
            name = IOPS[x.choose(len(IOPS))]
            what += ', ' + name
            if not operate(x, m, name):
                return
            m.state(what)
        m.finish(what)


for _o in IOPS:
    sequence(4, _o)
    sequence(5, _o, True)


def inside(op):
    @contract(['C22', 'C04', 'C02'], 'inotify handler %s' % op, IMODS, **OPT)
    def f(x):
        m = Notify(x, fails=False)
        a = m.new()
        m.handler(a)
        two = x.choose(2)
        b = None
        if two:
            b = m.new()
            m.handler(b)
        else:
            m.handler(a)
        done = []

        def during():
            e = x.st.events[-1]
            m.log.append((e.a[0], e.a[1]))
            # the watch must not have been destroyed before
            for w in m.w:
                if x.entails_eq(e.a[1] - w['p']):
                    check(x, w['live'] or w is m.last, 'an event is delivered to a watch that was destroyed', 'delivery')
                    m.last = w
            if done:
                return
            done.append(1)
            m.stack = (m.last,)
            operate(x, m, op, True)
            m.stack = ()
        m.last = None
        m.log = []
        m.during = during
        p = [pend(x, 0, 0), pend(x, 1, 0)]
        m.event(p)
        m.during = None
        for w in m.w:
            if not w['refs']:
                w['live'] = False
        m.state('events')
        if m.tab('src'):
            q = [pend(x, 2, 0)]
            live = [w for w in m.w if w['live']]
            keep, got = m.event(q)
            compare(x, m, got, expected(x, m, q, live), 'next event')
        m.finish('events')


for _o in ('new', 'handler', 'unhandler', 'ref', 'unref', 'destroy'):
    inside(_o)


@contract(['C22', 'C02'], 'inotify callback', IMODS, **OPT)
def c_icallback(x):
    m = Notify(x)
    path, mask = cstring(x, 'path')[0].ptr(), pint(x, 'mask', 4, False)
    fn = pptr(x, 'fn', FUN, True)
    d = pptr(x, 'arg')
    cb = x.call('gutil_inotify_watch_callback_new', path, mask, fn, d)
    if x.decide_eq(cb):
        m.nothing_left('callback_new failed')
        return
    hs = m.tab('handlers')
    if x.decide_eq(fn):
        check(x, not hs, 'callback_new: no handler without a function')
    elif check(x, len(hs) == 1, 'callback_new: one handler'):
        x.prove_eq(hs[0][2], fn, 'callback_new: the function')
        x.prove_eq(hs[0][3], d, 'callback_new: its argument')
    kw = evs(x, 'kernel-watch')
    if check(x, len(kw) == 1, 'callback_new: one kernel watch'):
        x.prove_eq(kw[0].a[1], path, 'callback_new: the path is watched')
        x.prove_eq(kw[0].a[2], mask, 'callback_new: for the events asked for')
    x.call('gutil_inotify_watch_callback_free', cb)
    m.nothing_left('callback_free')


@contract(['C22', 'C04', 'C02'], 'inotify callback free inside', IMODS, **OPT)
def c_icbfree(x):
    """the callback is freed by its own function, which may keep the watch"""
    m = Notify(x, fails=False)
    path, mask = cstring(x, 'path')[0].ptr(), pint(x, 'mask', 4, False)
    fn, d = pptr(x, 'fn', FUN, False), pptr(x, 'arg')
    cb = x.call('gutil_inotify_watch_callback_new', path, mask, fn, d)
    x.prove_ne(cb, 0, 'callback_new')
    wd = evs(x, 'kernel-watch')[0].a[3]
    keepit = x.choose(2)
    kept = []

    def during():
        e = x.st.events[-1]
        check(x, not kept, 'the function is called after the callback was freed', 'delivery')
        if keepit:
            x.call('gutil_inotify_watch_ref', e.a[1])
        kept.append(e.a[1])
        x.call('gutil_inotify_watch_callback_free', cb)
    m.during = during
    p = [pend(x, k, 0) for k in range(2)]
    m.event(p)
    if kept and keepit:
        if m.tab('src'):
            m.event([pend(x, 2, 0)])
        x.call('gutil_inotify_watch_unref', kept[0])
    if not kept:
        x.call('gutil_inotify_watch_callback_free', cb)
    m.nothing_left('callback_free')


@contract('C22', 'inotify shared descriptor', IMODS, **OPT)
def c_ishared(x):
    """two watches for the same file: the kernel gives both the same descriptor"""
    m = Notify(x, fails=False, samewd=True)
    a = m.new()
    b = m.new()
    if x.entails_ne(a['wd'] - b['wd']):
        m.finish('different files')
        return
    for e in evs(x, 'replaced'):
        fail(x, 'shared', 'a watch is forgotten when another one is created for the same file')
    ok(x, 'shared')


@contract(['C22', 'C03', 'C27'], 'inotify null', IMODS, **OPT)
def c_inull(x):
    m = Notify(x, fails=False)
    mask = pint(x, 'mask', 4, False)
    fn, d = pptr(x, 'fn', FUN, True), pptr(x, 'arg')
    x.prove_eq(x.call('gutil_inotify_watch_new', ZERO, mask), 0, 'new: no path')
    x.prove_eq(x.call('gutil_inotify_watch_callback_new', ZERO, mask, fn, d), 0, 'callback_new: no path')
    x.prove_eq(x.call('gutil_inotify_watch_ref', ZERO), 0, 'ref of NULL')
    x.call('gutil_inotify_watch_unref', ZERO)
    x.call('gutil_inotify_watch_destroy', ZERO)
    x.call('gutil_inotify_watch_callback_free', ZERO)
    x.prove_eq(x.call('gutil_inotify_watch_add_handler', ZERO, fn, d), 0, 'add_handler: no object')
    x.call('gutil_inotify_watch_remove_handler', ZERO, pint(x, 'id', 8, False))
    m.nothing_left('nothing')
    w = m.new()
    x.prove_eq(x.call('gutil_inotify_watch_add_handler', w['p'], ZERO, d), 0, 'add_handler: no function')
    check(x, not m.tab('handlers'), 'add_handler: nothing is connected without a function')
    x.call('gutil_inotify_watch_remove_handler', w['p'], ZERO)
    m.finish('no handlers')


# ---------------------------------------------------------------- timenotify
TMODS = ['gutil_timenotify', 'gutil_misc']
T_INST = ('gutil_time_notify', 'gutil_time_notify_get_type')
CANCEL_ON_SET, ABSTIME = 2, 1


class Timer(World):
    def __init__(self, x, **kw):
        World.__init__(self, x, *T_INST, **kw)
        self.n = 0
        self.p = None
        self.h = []
        self.inner = 0

    def input(self, x, buf, size):
        """the clock was changed (an error) or the timer has expired"""
        r, off = x.resolve(buf, 'read buffer')
        x.bounds_check(r, off, size, 'read buffer')
        x.prove_ge(size - 8, 'the timer is read as eight bytes')
        self.reads = get(x, 'reads', 0) + 1
        note(x, 'reads', self.reads)
        if x.choose(2):
            return None
        x.rstore(r, off, pint(x, 'expirations', 8, False, 1), 8)
        return K(8)

    def new(self):
        x = self.x
        p = x.call('gutil_time_notify_new')
        x.prove_ne(p, 0, 'new: an object')
        if self.n or self.inner:
            x.prove_eq(p, self.p, 'new: the notifier is shared while it is referenced')
        self.p = x.c(p)
        self.n += 1
        self.state('new')

    def ref(self):
        x = self.x
        x.prove_eq(x.call('gutil_time_notify_ref', self.p), self.p, 'ref returns its argument')
        self.n += 1

    def unref(self):
        self.n -= 1
        self.x.call('gutil_time_notify_unref', self.p)
        if not self.n and not self.inner:
            self.h = []

    def handler(self):
        x = self.x
        k = get(x, 'hn', 0)
        f, d = pptr(x, 'handler_fn%d' % k, FUN, False), pptr(x, 'handler_data%d' % k)
        id = x.call('gutil_time_notify_add_handler', self.p, f, d)
        x.prove_ne(id, 0, 'add_handler: the identifier is not zero')
        self.h.append((x.c(id), f, d))

    def unhandler(self):
        h = self.h.pop(self.x.choose(len(self.h)) if len(self.h) > 1 else 0)
        self.x.call('gutil_time_notify_remove_handler', self.p, h[0])

    def change(self, body=None):
        """the kernel reports the change of the clock"""
        x = self.x
        s = self.tab('src')
        if not s:
            return False
        n = len(x.st.events)
        want = list(self.h)
        reads = get(x, 'reads', 0)
        self.inner = 1
        self.during = body
        keep = self.dispatch(K(IN))
        self.during = None
        self.inner = 0
        got = [e for e in x.st.events[n:] if e.kind == 'deliver']
        check(x, get(x, 'reads', 0) == reads + 1, 'change: the timer is read once', 'timer')
        if not body:
            check(x, keep and len(self.tab('src')) == 1, 'change: the source is kept', 'source')
            if check(x, len(got) == len(want), 'change: %d handler(s) called, expected %d' % (len(got), len(want)), 'delivery'):
                for e, h in zip(got, want):
                    x.prove_eq(e.a[0], h[1], 'change: the handler', 'delivery')
                    x.prove_eq(e.a[1], self.p, 'change: the notifier', 'delivery')
                    x.prove_eq(e.a[-1], h[2], 'change: the data of the handler', 'delivery')
        return True

    def state(self, what):
        x = self.x
        alive = [r[0] for r in self.tab('objs') if self.alive(r[0])]
        check(x, len(alive) == (1 if self.n or self.inner else 0), what + ': one object as long as it is referenced', 'cleanup')
        if self.tab('open'):
            check(x, len(self.tab('open')) == 1 and len(self.tab('src')) <= 1, what + ': one descriptor and one source', 'cleanup')

    def armed(self, what):
        """the timer never expires by itself and reports changes of the clock"""
        x = self.x
        s = evs(x, 'settime')
        if not check(x, len(s) == 1, what + ': the timer is armed once', 'timer'):
            return
        fl = s[0].a[1]
        check(x, fl.isconst() and fl.c == CANCEL_ON_SET | ABSTIME, what + ': the timer is cancelled by changes of the clock', 'timer')
        v = s[0].a[2:]
        x.prove_ge(v[2] - (1 << 61), what + ': the timer does not expire', 'timer')
        x.prove_eq(v[3], 0, what + ': the timer does not expire', 'timer')

    def finish(self, what):
        while self.n:
            self.unref()
        self.nothing_left(what)


@contract(['C23', 'C02'], 'timer new', TMODS, **OPT)
def c_tnew(x):
    m = Timer(x)
    m.new()
    if m.tab('fds'):
        m.armed('new')
        s = m.tab('src')
        if check(x, len(s) == 1, 'new: one event source'):
            x.prove_ge(s[0][2] - IN, 'new: input is watched')
            x.prove_eq(m.chan(s[0][1], 'new')[1]['fd'], m.tab('open')[0][0], 'new: the descriptor of the timer is watched')
        x.prove_eq(evs(x, 'settime')[0].a[0], m.tab('open')[0][0], 'new: the timer that is watched is armed')
    m.finish('new, unref')
    m.new()
    m.finish('new, unref, new, unref')


TOPS = ('new', 'ref', 'unref', 'handler', 'unhandler', 'change')


def top(m, name):
    if name != 'new' and not m.n or name == 'unhandler' and not m.h:
        return False
    return getattr(m, name)() is not False


def tsequence(n, first, thorough=False):
    @contract(['C23', 'C02', 'C01'], 'timer sequence %d %s' % (n, first), TMODS, thorough=thorough, **OPT)
    def f(x):
        m = Timer(x, fails=False)
        m.new()
        m.handler()
        what = 'new, ' + first
        if not top(m, first):
            return
        m.state(what)
        for k in range(n - 1):
            name = TOPS[x.choose(len(TOPS))]
            what += ', ' + name
            if not top(m, name):
                return
            m.state(what)
        m.finish(what)


for _o in TOPS:
    tsequence(4, _o)
    tsequence(6, _o, True)


def tinside(op):
    @contract(['C23', 'C04', 'C02'], 'timer handler %s' % op, TMODS, **OPT)
    def f(x):
        m = Timer(x, fails=False)
        m.new()
        m.handler()
        if x.choose(2):
            m.handler()
        done = []

        def body():
            if not done:
                done.append(1)
                if op == 'unref':
                    m.unref()
                else:
                    top(m, op)
        m.change(body)
        if not m.n:
            m.h = []
        m.state('change')
        if m.n:
            m.change()
        m.finish('change')


for _o in ('new', 'ref', 'unref', 'handler', 'unhandler'):
    tinside(_o)


@contract(['C23', 'C02'], 'timer conditions', TMODS, **OPT)
def c_tcond(x):
    m = Timer(x, fails=False)
    m.new()
    m.handler()
    n = len(x.st.events)
    keep = m.dispatch(K([ERR, HUP, NVAL, IN | ERR][x.choose(4)]))
    check(x, not keep and not m.tab('src'), 'conditions: the source is removed after an error', 'source')
    m.finish('conditions')


@contract(['C23', 'C03', 'C27'], 'timer null', TMODS, **OPT)
def c_tnull(x):
    m = Timer(x, fails=False)
    fn, d = pptr(x, 'fn', FUN, True), pptr(x, 'arg')
    x.prove_eq(x.call('gutil_time_notify_ref', ZERO), 0, 'ref of NULL')
    x.call('gutil_time_notify_unref', ZERO)
    x.prove_eq(x.call('gutil_time_notify_add_handler', ZERO, fn, d), 0, 'add_handler: no object')
    x.call('gutil_time_notify_remove_handler', ZERO, pint(x, 'id', 8, False))
    m.new()
    x.prove_eq(x.call('gutil_time_notify_add_handler', m.p, ZERO, d), 0, 'add_handler: no function')
    check(x, not m.tab('handlers'), 'add_handler: nothing is connected without a function')
    x.call('gutil_time_notify_remove_handler', m.p, ZERO)
    m.finish('no handlers')
