"""Functions called without the object they work on (C03)."""
from spec import *
import models

FUN = {'k': 'func'}
DATA = {'k': 'struct', 'name': 'gutil_data'}

# what is returned for a NULL object: 0 (NULL, FALSE), -1, or the number of
# the argument that is handed back
RING = dict(gutil_ring_ref=0, gutil_ring_unref=0, gutil_ring_set_free_func=0, gutil_ring_size=0, gutil_ring_max_size=0, gutil_ring_set_max_size=0,
            gutil_ring_clear=0, gutil_ring_compact=0, gutil_ring_reserve=0, gutil_ring_can_put=0, gutil_ring_put=0, gutil_ring_put_front=0,
            gutil_ring_get=0, gutil_ring_get_last=0, gutil_ring_drop=0, gutil_ring_drop_last=0, gutil_ring_data_at=0, gutil_ring_flatten=0)
INTS = dict(gutil_ints_ref=0, gutil_ints_unref=0, gutil_ints_unref_to_data=0, gutil_ints_new_from_ints=0, gutil_ints_get_count=0,
            gutil_ints_get_data=0, gutil_ints_contains=0, gutil_ints_find=-1, gutil_ints_hash=None)
ARRAY = {'gutil_int_array_' + k: v for k, v in dict(ref=0, unref=0, append=0, append_vals=0, prepend=0, prepend_vals=0, insert=0, insert_vals=0,
         contains=0, find=-1, free=0, free_to_ints=0, remove=0, remove_all=0, remove_all_fast=0, remove_fast=0, remove_index=0, remove_index_fast=0,
         remove_range=0, set_count=0, sort_ascending=0, sort_descending=0).items()}
HIST = {'gutil_int_history_' + k: v for k, v in dict(ref=0, unref=0, size=0, interval=0, clear=0, add=0, median=1).items()}
QUEUE = {'gutil_idle_queue_' + k: v for k, v in dict(ref=0, unref=0, free=0, add=0, add_tag=0, cancel_all=0, cancel_tag=0,
         contains_tag=0).items()}
POOL = {'gutil_idle_pool_' + k: v for k, v in dict(ref=0, unref=0, destroy=0).items()}
INOT = {'gutil_inotify_watch_' + k: v for k, v in dict(new=0, ref=0, unref=0, destroy=0, add_handler=0, remove_handler=0, callback_new=0, callback_free=0).items()}
TIME = {'gutil_time_notify_' + k: v for k, v in dict(ref=0, unref=0, add_handler=0, remove_handler=0).items()}
WEAK = {'gutil_weakref_' + k: v for k, v in dict(ref=0, unref=0, get=0, set=0).items()}
STRV = {'gutil_strv_' + k: v for k, v in dict(length=0, at=0, last=0, find=-1, find_last=-1, contains=0, remove=0, remove_at=0, remove_dups=0, sort=0,
        bsearch=-1, strip=0).items()}
STRV.update(gutil_ptrv_length=0, gutil_ptrv_free=0, gutil_strlen0=0, gutil_ptrv_is_empty=None)
OBJV = {'gutil_objv_' + k: v for k, v in dict(free=0, first=0, last=0, at=0, find=-1, find_last=-1, contains=0, remove=0, remove_at=0, copy=0).items()}
OBJV.update(gutil_object_ref=0, gutil_object_unref=0)
MISC = dict(gutil_data2hex=0, gutil_hex2bin=0, gutil_hex2bytes=0, gutil_parse_int=0, gutil_parse_uint=0, gutil_parse_int64=0, gutil_parse_uint64=0,
            gutil_source_clear=0, gutil_disconnect_handlers=0, gutil_memdup=0, gutil_data_copy=0, gutil_range_skip_prefix=0)
PACK = dict(gutil_signed_mbn_decode2=0, gutil_unsigned_mbn_decode2=0)

TABLE = (('gutil_ring', RING), ('gutil_ints', INTS), ('gutil_intarray', ARRAY), ('gutil_history', HIST), ('gutil_idlequeue', QUEUE), ('gutil_idlepool', POOL),
         ('gutil_inotify', INOT), ('gutil_timenotify', TIME), ('gutil_weakref', WEAK), ('gutil_strv', STRV), ('gutil_objv', OBJV), ('gutil_misc', MISC),
         ('gutil_datapack', PACK))
MODS = ['gutil_ring', 'gutil_ints', 'gutil_intarray', 'gutil_history', 'gutil_idlequeue', 'gutil_idlepool', 'gutil_inotify', 'gutil_timenotify',
        'gutil_weakref', 'gutil_strv', 'gutil_objv', 'gutil_misc', 'gutil_datapack']
# functions that fill in what another argument points to
FILLS = {'gutil_ints_get_data': 1, 'gutil_ints_unref_to_data': 1, 'gutil_ring_flatten': 1}


def param(x, n, ty):
    k = (ty or {}).get('k')
    if k == 'int' or k is None:
        size = (ty or {}).get('size') or 4
        return pint(x, 'arg%d' % n, size, bool((ty or {}).get('signed', True)), lo=NEGMAX if size == 4 and (ty or {}).get('signed', True) else None)
    if k == 'ptr':
        to = ty.get('to') or {}
        if to.get('k') == 'func':
            return pptr(x, 'fn%d' % n, FUN, True)
        if to.get('k') == 'int' and to.get('size') == 1:
            return cstring(x, 'string%d' % n)[0].ptr() if x.choose(2) else ZERO
        if to.get('k') == 'int' and x.choose(2):
            return buffer(x, 'out%d' % n, K(to['size']), to).ptr()
        return pptr(x, 'arg%d' % n, None, True)
    return pint(x, 'arg%d' % n, lo=NEGMAX)


def null(fname, want):
    @contract('C03', 'NULL ' + fname, MODS)
    def f(x):
        fn = x.mod.fns.get(fname)
        if fn is None:
            raise Anchor('%s is not defined' % fname)
        types = (fn.d.get('ditypes') or [None])[1:]
        tys = [types[i] if i < len(types) else None for i in range(fn.nargs)]
        args = [ZERO] + [param(x, i, tys[i]) for i in range(1, fn.nargs)]
        k = len(x.st.events)
        r = x.call(fname, *args)
        x.count('null')
        for e in x.st.events[k:]:
            if e.kind in ('cb', 'free', 'alloc', 'ref', 'unref', 'syscall', 'ext', 'source'):
                x.fail('effect', '%s(NULL) has an effect: %s' % (fname, e.kind))
        no_leaks(x)
        if want is None or r is None:
            return
        if want == -1:
            x.prove_eq(x.sview(r, 64), -1, '%s(NULL) returns -1' % fname)
        elif want > 0:
            x.prove_eq(r, args[want], '%s(NULL) returns its argument' % fname)
        else:
            x.prove_eq(r, 0, '%s(NULL) returns nothing' % fname)


for _m, _t in TABLE:
    for _n, _w in _t.items():
        null(_n, _w)
