"""Public headers (C25): declarations, exports, versions, ABI; their macros (C29)."""
import json, os, re, subprocess, tempfile, shutil, fnmatch, glob
from spec import *
import build

INC = os.path.join(build.REPO, 'include')
LANGS = (('c', 'gnu99'), ('c', 'gnu17'), ('c++', 'c++11'), ('c++', 'c++20'))
# what the Makefile says
MAXV = ['-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32', '-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_MAX_ALLOWED']


def headers():
    h = sorted(os.path.basename(p) for p in glob.glob(os.path.join(INC, '*.h')))
    if not h:
        raise Anchor('there are no public headers')
    return h


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='gutilsa.')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def file(self, name, text):
        p = os.path.join(self.d, name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def clang(self, args, path=INC):
        return subprocess.run([build.LLVM + 'clang', '-w', '-I' + path] + build.pkgflags() + args, capture_output=True, text=True)


def errors(stderr):
    """(file, line, message) of every compiler error"""
    out = []
    for l in stderr.splitlines():
        m = re.match(r'(.*?):(\d+):(\d+): (?:fatal )?error: (.*)', l)
        if m:
            out.append((m.group(1), int(m.group(2)), m.group(4)))
    if not out and stderr:
        out.append(('', 0, stderr.splitlines()[0]))
    return out


def everything():
    return ''.join('#include <%s>\n' % h for h in headers())


def declarations(t):
    """public functions and variables: {name: (kind, type, file, line)}"""
    out = declarations1(t, ['-DDEBUG'])
    out.update(declarations1(t, []))
    return out


def declarations1(t, flags):
    src = t.file('all.c', everything())
    r = t.clang(flags + ['-fsyntax-only', '-Xclang', '-ast-dump=json', src])
    if r.returncode:
        raise Broken('the public headers do not compile together: ' + str(errors(r.stderr)[:1]))
    ast = json.loads(r.stdout)
    cur = ['', 0]
    out = {}
    typedefs, records, enums = {}, {}, {}

    def loc(d):
        """positions are printed relative to the previous one"""
        for k in ('spellingLoc', 'expansionLoc'):
            if k in d:
                loc(d[k])
        if 'file' in d:
            cur[0] = d['file']
        if 'line' in d:
            cur[1] = d['line']

    def walk(d):
        at = None
        for k, v in d.items():
            if k == 'loc':
                loc(v)
                at = tuple(cur)
            elif k == 'range':
                loc(v.get('begin', {}))
                loc(v.get('end', {}))
            elif k == 'inner':
                for q in v:
                    if isinstance(q, dict):
                        walk(q)
            elif isinstance(v, dict) and 'kind' in v and 'loc' in v:
                walk(v)
        return at
    for d in ast['inner']:
        at = walk(d)
        f = os.path.realpath(at[0]) if at else ''
        if not f.startswith(os.path.realpath(INC) + os.sep):
            continue
        k = d['kind']
        if k == 'FunctionDecl':
            if d.get('storageClass') == 'static' or d.get('inline'):
                continue
            out[d['name']] = ('function', d['type']['qualType'], at[0], at[1])
        elif k == 'VarDecl':
            if d.get('storageClass') == 'static':
                continue
            out[d['name']] = ('variable', d['type']['qualType'], at[0], at[1])
        elif k == 'TypedefDecl':
            typedefs[d['name']] = d['type']
        elif k == 'RecordDecl' and d.get('completeDefinition'):
            records[d.get('name', '?')] = [(q['name'], q['type']['qualType'], q.get('isBitfield')) for q in d['inner'] if q['kind'] == 'FieldDecl' and 'name' in q]
        elif k == 'EnumDecl':
            enums[d.get('name', '?')] = [q['name'] for q in d.get('inner', []) if q['kind'] == 'EnumConstantDecl']
    t.typedefs, t.records, t.enums = typedefs, records, enums
    if len(out) < 10:
        raise Anchor('hardly anything is declared in the public headers')
    return out


def definitions(t):
    """symbols the sources define: {name: (source, line, is it local, visibility)}"""
    out = {}
    for s in build.sources():
        p = os.path.join(t.d, os.path.basename(s) + '.ll')
        r = t.clang(MAXV + ['-O0', '-fPIC', '-S', '-emit-llvm', s, '-o', p])
        if r.returncode:
            raise Broken('cannot compile %s: %s' % (s, errors(r.stderr)[:1]))
        for l in open(p):
            m = re.match(r'define (.*?)@"?([\w.]+)"?\(', l)
            if not m:
                m = re.match(r'@"?([\w.]+)"? = (.*?)(global|constant|alias) ', l)
                if not m or re.search(r'\bexternal\b', m.group(2)):
                    continue
                n, attr = m.group(1), m.group(2)
            else:
                attr, n = m.group(1), m.group(2)
            local = bool(re.search(r'\b(internal|private|available_externally)\b', attr))
            if n in out and local:
                continue
            out[n] = (os.path.relpath(s, build.REPO), local, 'hidden' if re.search(r'\bhidden\b', attr) else 'default')
    return out


def version_script():
    """(global patterns, local patterns) of the export list, with line numbers"""
    c = glob.glob(os.path.join(build.REPO, '*.ver'))
    if len(c) != 1:
        raise Anchor('no version script')
    text = open(c[0]).read()
    text = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    text = re.sub(r'#[^\n]*', '', text)
    sec, out = 'global', {'global': [], 'local': []}
    for i, l in enumerate(text.splitlines(), 1):
        for tok in re.findall(r'global\s*:|local\s*:|[\w*?\[\]]+\s*;', l):
            m = re.match(r'(global|local)\s*:', tok)
            if m:
                sec = m.group(1)
            else:
                out[sec].append((tok.rstrip('; \t'), i))
    return c[0], out['global'], out['local']


@lint('C25', 'declared, defined, exported', [])
def l_exports(M, rep):
    with Tmp() as t:
        decl, defs = declarations(t), definitions(t)
        path, glo, loc = version_script()
        lits = {p for p, _ in glo if not set(p) & set('*?[')}
        pats = [(p, i) for p, i in glo if set(p) & set('*?[')]
        everything_else = any(p == '*' for p, _ in loc)

        def exported(n):
            if n in lits:
                return True
            if any(p == n for p, _ in loc):
                return False
            if any(fnmatch.fnmatchcase(n, p) for p, _ in pats):
                return True
            return not everything_else and not any(fnmatch.fnmatchcase(n, p) for p, _ in loc)
        for n, (kind, ty, f, line) in sorted(decl.items()):
            rep.site('defined', n, n if kind == 'function' else None)
            d = defs.get(n)
            if d is None or d[1]:
                rep.violation('undefined', '%s is declared in a public header but %s' % (n, 'is not defined' if d is None else 'is a private function of ' + d[0]), n, f, line)
                continue
            rep.site('exported', n)
            if d[2] != 'default':
                rep.violation('hidden', '%s is declared in a public header but hidden in %s' % (n, d[0]), n, d[0], 0)
            elif not exported(n):
                rep.violation('unexported', '%s is declared in a public header but not exported by %s' % (n, os.path.basename(path)), n, f, line)
        for n, d in sorted(defs.items()):
            if d[1] or d[2] != 'default':
                continue
            rep.site('private', n)
            if n not in decl and exported(n) and not re.match('gutil_|GLOG_|GUTIL_', n):
                i = [i for p, i in glo if fnmatch.fnmatchcase(n, p)]
                rep.violation('leaked', '%s (%s) is exported but neither declared in a public header nor in the name space of the library' % (n, d[0]), n, path, i[0] if i else 0)
        for n, i in glo:
            if n in lits:
                rep.site('export-exists', n)
                if n not in defs or defs[n][1]:
                    rep.violation('export', '%s is in the export list but not defined' % n, n, path, i)


@lint('C25', 'signatures', [])
def l_signatures(M, rep):
    """every source is compiled with all the public headers in front of it"""
    with Tmp() as t:
        al = t.file('all.h', everything())
        defs = definitions(t)
        for s in build.sources():
            rep.site('signature', os.path.relpath(s, build.REPO))
            names = '|'.join(re.escape(n) for n, d in defs.items() if not d[1]) or '-'
            r = t.clang(MAXV + ['-fsyntax-only', '-ferror-limit=0', '-include', al, s])
            for f, line, msg in errors(r.stderr) if r.returncode else []:
                if re.search(r"conflicting types|different (type|linkage)|redefinition of '(%s)' with" % names, msg):
                    rep.violation('signature', msg, '', f, line)


@lint('C25', 'headers compile alone', [])
def l_alone(M, rep):
    with Tmp() as t:
        jobs = []
        for h in headers():
            src = t.file('one_%s.c' % h, '#include <%s>\n#include <%s>\nint gutil_witness;\n' % (h, h))
            for lang, std in LANGS:
                jobs.append((h, lang, std, ['-x', lang, '-std=' + std, '-fsyntax-only', src]))
        src = t.file('all.c', everything())
        rev = t.file('rev.c', ''.join('#include <%s>\n' % h for h in reversed(headers())))
        for lang, std in LANGS:
            jobs.append(('all headers', lang, std, ['-x', lang, '-std=' + std, '-fsyntax-only', src]))
            jobs.append(('all headers (reverse)', lang, std, ['-x', lang, '-std=' + std, '-fsyntax-only', rev]))
        w = os.path.join(build.TOP, 'specs', 'witness', 'logmacros.c')
        for mx in ('', '-DGLOG_LEVEL_MAX=0', '-DGLOG_LEVEL_MAX=1', '-DGLOG_LEVEL_MAX=2', '-DGLOG_LEVEL_MAX=3', '-DGLOG_LEVEL_MAX=4', '-DGLOG_LEVEL_MAX=5'):
            for mod in ('', '-DGLOG_MODULE_NAME=witness_module'):
                for gnu in ('', '-DNO_GNU', '-DDEBUG'):
                    for lang, std in LANGS[1:3]:
                        if lang == 'c++' and gnu == '-DNO_GNU':
                            continue
                        a = [q for q in (mx, mod, gnu) if q]
                        jobs.append(('gutil_log.h with all its macros', lang, ' '.join([std] + a), ['-x', lang, '-std=' + std, '-fsyntax-only'] + MAXV + a + [w]))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: t.clang(j[3]), jobs))
        seen = set()
        for (h, lang, std, a), r in zip(jobs, res):
            rep.site('compiles', '%s as %s (%s)' % (h, lang, std))
            if r.returncode:
                f, line, msg = errors(r.stderr)[0]
                if (f, line, msg) not in seen:
                    seen.add((f, line, msg))
                    rep.violation('compiles', '%s does not compile as %s (%s): %s' % (h, lang, std, msg), '', f, line)


@lint('C25', 'C linkage in C++', [])
def l_linkage(M, rep):
    with Tmp() as t:
        decl = declarations(t)
        src = everything() + 'const void* witness[] = {\n' + ''.join('    (const void*)&%s,\n' % n for n in sorted(decl)) + '};\n'
        p = t.file('link.cpp', src)
        ll = os.path.join(t.d, 'link.ll')
        r = t.clang(['-DDEBUG', '-x', 'c++', '-S', '-emit-llvm', p, '-o', ll])
        if r.returncode:
            f, line, msg = errors(r.stderr)[0]
            rep.site('linkage', 'all')
            rep.violation('linkage', 'the API does not compile in C++: ' + msg, '', f, line)
            return
        text = open(ll).read()
        syms = set(re.findall(r'@"?([\w.]+)"?', text))
        for n in sorted(decl):
            rep.site('linkage', n)
            if n not in syms:
                rep.violation('linkage', '%s has no C linkage in C++ programs' % n, n, decl[n][2], decl[n][3])


def macro_names(t):
    p = t.file('v.c', '#include <gutil_version.h>\n')
    r = t.clang(['-E', '-dM', p])
    return [l.split()[1].split('(')[0] for l in r.stdout.splitlines() if l.startswith('#define GUTIL_VERSION')], r.stdout


def define(text, n):
    m = re.search(r'^#define %s (.*)$' % n, text, re.M)
    if not m:
        raise Anchor('%s is not defined' % n)
    return m.group(1).strip()


@lint('C25', 'versions', [])
def l_versions(M, rep):
    with Tmp() as t:
        names, text = macro_names(t)
        ver = sorted(tuple(int(q) for q in m.groups()) for n in names for m in [re.match(r'GUTIL_VERSION_(\d+)_(\d+)_(\d+)$', n)] if m)
        if not ver:
            raise Anchor('no version macros')
        hdr = os.path.join(INC, 'gutil_version.h')

        def line(n):
            for i, l in enumerate(open(hdr), 1):
                if re.search(r'\b%s\b' % n, l):
                    return i
            return 0
        asserts = []

        def need(cond, msg, at):
            asserts.append((cond, msg, at))
        for v in ver:
            n = 'GUTIL_VERSION_%d_%d_%d' % v
            need('%s == %d' % (n, (v[0] << 24) | (v[1] << 12) | v[2]), '%s is not the number of version %d.%d.%d' % ((n,) + v), line(n))
            need('%s <= GUTIL_VERSION' % n, '%s is newer than the library' % n, line(n))
        for a, b in zip(ver, ver[1:]):
            na, nb = 'GUTIL_VERSION_%d_%d_%d' % a, 'GUTIL_VERSION_%d_%d_%d' % b
            need('%s < %s' % (na, nb), '%s is not less than %s' % (na, nb), line(nb))
        need('GUTIL_VERSION == GUTIL_VERSION_%d_%d_%d' % ver[-1], 'the newest version macro is not the one of this version', line('GUTIL_VERSION_%d_%d_%d' % ver[-1]))
        need('GUTIL_VERSION == GUTIL_VERSION_(GUTIL_VERSION_MAJOR, GUTIL_VERSION_MINOR, GUTIL_VERSION_MICRO)', 'GUTIL_VERSION is not the current version', line('GUTIL_VERSION'))
        need('GUTIL_VERSION > 0', 'GUTIL_VERSION is not positive', line('GUTIL_VERSION'))
        mic = [v[2] for v in ver if v[:2] == ver[-1][:2]]
        for k in range(mic[0], mic[-1]):
            rep.site('version-macro', '%d.%d.%d' % (ver[-1][0], ver[-1][1], k))
            if k not in mic:
                rep.violation('version', 'there is no macro for version %d.%d.%d' % (ver[-1][0], ver[-1][1], k), '', hdr, line('GUTIL_VERSION_1_0_%d' % mic[0]))
        cur = [define(text, 'GUTIL_VERSION_' + q) for q in ('MAJOR', 'MINOR', 'MICRO')]
        need('__builtin_strcmp(GUTIL_VERSION_STRING, "%s") == 0' % '.'.join(cur), 'GUTIL_VERSION_STRING is not %s' % '.'.join(cur), line('GUTIL_VERSION_STRING'))
        vc = os.path.join(build.REPO, 'src', 'gutil_version.c')
        src = '#include <gutil_version.h>\n'
        n0 = 1
        for c, m, at in asserts:
            src += '_Static_assert(%s, "");\n' % c
        p = t.file('versions.c', src)
        r = t.clang(['-fsyntax-only', '-ferror-limit=0', p])
        bad = {line for f, line, msg in errors(r.stderr) if f == p} if r.returncode else set()
        for i, (c, m, at) in enumerate(asserts):
            rep.site('version', c)
            if n0 + i + 1 in bad:
                rep.violation('version', m, '', hdr, at)
        # compile time and run time
        defs = definitions(t)
        ll = ''.join(open(os.path.join(t.d, q)).read() for q in os.listdir(t.d) if q.endswith('.ll'))
        for q, v in zip(('major', 'minor', 'micro'), cur):
            n = 'gutil_version_' + q
            rep.site('version-variable', n)
            m = re.search(r'^@%s = (.*?)constant i32 (\d+)' % n, ll, re.M)
            if n not in defs:
                raise Anchor('%s is not defined' % n)
            if not m:
                rep.violation('version', '%s is not a constant' % n, n, vc, 0)
            elif m.group(2) != v:
                rep.violation('version', '%s is %s, the headers say %s' % (n, m.group(2), v), n, vc, 0)
        want = '.'.join(cur)
        for pat, rx in (('rpm/*.spec', r'^Version:\s*(\S+)'), ('debian/changelog', r'^\S+ \(([^)]+)\)')):
            for f in glob.glob(os.path.join(build.REPO, pat)):
                rep.site('packaging', f)
                m = re.search(rx, open(f).read(), re.M)
                if m and '%' not in m.group(1) and m.group(1).split('-')[0] != want:
                    rep.violation('packaging', '%s has version %s, the headers say %s' % (os.path.relpath(f, build.REPO), m.group(1), want), '', f, 0)


@lint('C25', 'interface stays compatible', [])
def l_abi(M, rep):
    """the recorded interface of this library version (written by tool/abi.py)
    as assertions which the current headers have to satisfy"""
    w = os.path.join(build.TOP, 'specs', 'witness', 'abi.c')
    with Tmp() as t:
        r = t.clang(['-fsyntax-only', '-ferror-limit=0', w])
        bad = {}
        for f, line, msg in (errors(r.stderr) if r.returncode else []):
            bad.setdefault((f, line), msg)
        lines = open(w).read().splitlines()
        for i, l in enumerate(lines, 1):
            m = re.match(r'_Static_assert\(.*, "(.*)"\);$', l)
            if m:
                rep.site('interface', m.group(1))
                if (w, i) in bad:
                    rep.violation('interface', '%s: not as published (%s)' % (m.group(1), bad[(w, i)][:120]), m.group(1).split()[-1], INC, 0)
        for (f, line), msg in bad.items():
            if f != w or lines[line - 1].startswith('#include'):
                rep.violation('interface', msg, '', f, line)


# ------------------------------------------------------------------- macros
def gu(x, v):
    return x.uview(v, 32)


@contract('C29', 'version word', [], extra='headermacros.c')
def c_vpack(x):
    a, b, c = (pint(x, n, 4, False, 0, h) for n, h in (('major', 127), ('minor', 4095), ('micro', 4095)))
    v = x.call('w_version', a, b, c)
    x.prove_eq(gu(x, v), a * (1 << 24) + b * (1 << 12) + c, 'GUTIL_VERSION_: major, minor and micro version in their places')
    x.prove_ge(x.sview(v, 32), 'GUTIL_VERSION_: not negative')


@contract('C29', 'version parts', [], extra='headermacros.c')
def c_vparts(x):
    a, b, c = (pint(x, n, 4, False, 0, h) for n, h in (('major', 127), ('minor', 4095), ('micro', 4095)))
    v = a * (1 << 24) + b * (1 << 12) + c
    x.prove_eq(gu(x, x.call('w_major', v)), a, 'GUTIL_VERSION_MAJOR_')
    x.prove_eq(gu(x, x.call('w_minor', v)), b, 'GUTIL_VERSION_MINOR_')
    x.prove_eq(gu(x, x.call('w_micro', v)), c, 'GUTIL_VERSION_MICRO_')


@contract('C29', 'version runtime', ['gutil_version'], extra='headermacros.c')
def c_vrun(x):
    x.ginit = True
    x.prove_eq(gu(x, x.call('w_runtime')), gu(x, x.call('w_compiletime')), 'gutil_version(): the version of the headers')


def align(n, ty, size, signed):
    @contract('C29', 'align %d %s' % (n, ty), [], extra='headermacros.c')
    def f(x):
        lo, hi = irange(size, signed)
        v = pint(x, 'value', size, signed, lo, hi - n)
        r = x.call('w_align%d_%s' % (n, ty), v)
        r = x.sview(r, 8 * size) if signed else x.uview(r, 8 * size)
        what = 'G_ALIGN%d of %s' % (n, ty)
        x.prove_ge(r - v, what + ': not less than the value')
        x.prove_ge(v + n - 1 - r, what + ': the next multiple')
        q, m = x.divmod_const(r, n)
        x.prove_eq(m, 0, what + ': a multiple')


for _n in (2, 4, 8):
    align(_n, 'int', 4, True)
    align(_n, 'guint', 4, False)
    align(_n, 'gsize', 8, False)
    align(_n, 'gint64', 8, True)


@contract('C29', 'cast', [], extra='headermacros.c')
def c_cast(x):
    r = obj(x, 'outer', 'witness_outer')
    x.prove_eq(x.call('w_cast', r.addr('field')), r.ptr, 'G_CAST: the containing structure')
    x.prove_eq(x.call('w_cast0', r.ptr), r.ptr, 'G_CAST: of the first field')


@contract('C29', 'slice free', [], extra='headermacros.c')
def c_slice(x):
    x.call('w_slice')
    no_leaks(x)


def verify(defs, asserts):
    @contract('C29', 'asserts %s' % ' '.join(defs), [], defs, extra='headermacros.c')
    def f(x):
        n = 0
        for name, holds in (('verify', lambda v: not x.decide_eq(v)), ('verify_false', lambda v: x.decide_eq(v)),
                            ('verify_eq', lambda v: x.decide_eq(v - 7)), ('verify_ne', lambda v: not x.decide_eq(v - 7)),
                            ('verify_ge', lambda v: x.decide_ge(v - 7)), ('verify_gt', lambda v: x.decide_ge(v - 8)),
                            ('verify_le', lambda v: x.decide_ge(K(7) - v)), ('verify_lt', lambda v: x.decide_ge(K(6) - v)),
                            ('assert', lambda v: not x.decide_eq(v))):
            k = len(x.st.events)
            v = pint(x, 'v_' + name)

            def value(x, a, i):
                x.event('evaluated')
                return v
            x.stub['w_value'] = value
            x.stub['gutil_log_assert'] = lambda x, a, i: x.event('asserted', *[q for q in a if q is not None]) and None
            x.call('w_' + name)
            ev = [e for e in x.st.events[k:] if e.kind == 'evaluated']
            fired = [e for e in x.st.events[k:] if e.kind == 'asserted']
            G = 'G' + name.upper()
            want = 0 if name == 'assert' and not asserts else 1
            check(x, len(ev) == want, '%s: the expression is evaluated %s' % (G, 'once' if want else 'never'))
            if asserts:
                ok = holds(v)
                if check(x, len(fired) == (0 if ok else 1), '%s: %s' % (G, 'nothing is reported when it holds' if ok else 'a failure is reported')) and fired:
                    x.prove_eq(x.sview(fired[0].a[1], 32), 1, G + ': as an error')
            else:
                check(x, not fired, '%s: compiled out' % G)


verify(['DEBUG'], True)
verify(['NDEBUG'], False)


@contract('C29', 'error message', [], extra='headermacros.c')
def c_errmsg(x):
    e = obj(x, 'error', '_GError')
    m = pptr(x, 'message')
    e.set('message', m)
    r = x.call('w_errmsg', e.ptr)
    if x.decide_eq(m):
        x.prove_ne(r, 0, 'GERRMSG: something for an error without a message')
    else:
        x.prove_eq(r, m, 'GERRMSG: the message')
    x.prove_ne(x.call('w_errmsg', ZERO), 0, 'GERRMSG: something for no error')
