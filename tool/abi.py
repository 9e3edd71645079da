#!/usr/bin/env python3
"""Writes specs/witness/abi.c, the published interface, from /repo's headers.
Run by hand when a release adds to the interface; no check runs it."""
import os, sys, re
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(TOP, 'engine'), os.path.join(TOP, 'specs')]
import headers
with headers.Tmp() as t:
    d = headers.declarations(t)
    out = ['/* Written by tool/abi.py: what the public headers promise. */', '#define GLOG_LEVEL_MAX 4', '#define GLOG_LEVEL_ASSERT 1']
    out += ['#include <%s>' % h for h in headers.headers()]
    out += ['#include <stddef.h>', '#include <stdarg.h>']
    A = lambda c, m: out.append('_Static_assert(%s, "%s");' % (c, m))
    for n, (k, ty, f, l) in sorted(d.items()):
        ty = ty.replace('struct __va_list_tag *', 'va_list')
        ty = re.sub(r' __attribute__\(\(.*\)\)$', '', ty)
        if k == 'function':
            A('__builtin_types_compatible_p(__typeof__(%s), %s)' % (n, ty), 'signature of ' + n)
        else:
            A('__builtin_types_compatible_p(__typeof__(%s), %s)' % (n, ty), 'type of ' + n)
    for n, ty in sorted(t.typedefs.items()):
        q = ty['qualType'].replace('struct __va_list_tag *', 'va_list')
        if q.startswith('enum ') or q.startswith('struct '):
            A('__builtin_types_compatible_p(%s, %s)' % (n, q), 'type ' + n)
        else:
            A('__builtin_types_compatible_p(%s, %s)' % (n, q), 'type ' + n)
    vals, asks = [], []
    for n, fl in sorted(t.records.items()):
        vals.append(('sizeof(struct %s)' % n, 'size of struct ' + n))
        for fn, ft, bit in fl:
            if bit:
                vals.append(None)
                continue
            vals.append(('offsetof(struct %s, %s)' % (n, fn), 'place of %s in struct %s' % (fn, n)))
            A('__builtin_types_compatible_p(__typeof__(((struct %s*)0)->%s), %s)' % (n, fn, re.sub(r'^const (?!.*[*(])', '', ft)), 'type of %s in struct %s' % (fn, n))
    for n, cs in sorted(t.enums.items()):
        vals += [(c, 'value of ' + c) for c in cs]
    text = t.clang(['-E', '-dM', '-x', 'c', '-DGLOG_LEVEL_MAX=4', '-DGLOG_LEVEL_ASSERT=1', t.file('m.c', headers.everything())]).stdout
    own = set()
    for h in headers.headers():
        own |= set(re.findall(r'^\s*#\s*define\s+(\w+)', open(os.path.join(headers.INC, h)).read(), re.M))
    for m in re.finditer(r'^#define (\w+) (.*)$', text, re.M):
        if m.group(1) in own and m.group(1) not in ('GLOG_LEVEL_MAX', 'GLOG_LEVEL_ASSERT', 'GLOG_LEVEL_DEFAULT') and \
                re.match(r'\(?\(?-?(0x)?[0-9a-f]+\)?\)?$', m.group(2)) and 'VERSION' not in m.group(1):
            vals.append((m.group(1), 'value of ' + m.group(1)))
    vals.append(('GUTIL_HISTORY_SEC', 'value of GUTIL_HISTORY_SEC'))
    src = '\n'.join(out[1:3] + [o for o in out if o.startswith('#include')]) + '\n' + \
        ''.join('long witness_%d = (long)(%s);\n' % (i, v[0]) for i, v in enumerate(vals) if v)
    r = t.clang(['-S', '-emit-llvm', '-o', '-', t.file('vals.c', src)])
    assert not r.returncode, r.stderr[:800]
    for i, v in enumerate(vals):
        if v:
            m = re.search(r'@witness_%d = .*global i64 (-?\d+)' % i, r.stdout)
            A('%s == %s' % (v[0], m.group(1)), v[1])
seen = set()
open(os.path.join(TOP, 'specs', 'witness', 'abi.c'), 'w').write('\n'.join(o for o in out if not (o in seen or seen.add(o))) + '\n')
