#!/usr/bin/env python3
"""Decide one property: python3 engine/check.py <ID> [--tier quick|thorough]"""
import sys, os, time, json, importlib, glob, traceback, signal, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(TOP, 'specs'))
import build, absint, models, spec, lin
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

MODS = {}
TIER = 'quick'
LIMIT = {'quick': 240, 'thorough': 600}
BUDGET = {'quick': 660, 'thorough': 5400}      # seconds, for all contracts of a property
AFTER = 60                                     # and for the rest of them, once one has found a violation
STOP = multiprocessing.Value('d', 0.0)
KNOWN = []


class Timeout(Exception):
    pass


def run_contract(arg):
    kind, prop, i = arg
    c = (spec.REG if kind == 'c' else spec.LINTS)[prop][i]
    t0 = time.time()
    out = dict(name=c.name, kind=kind, status='ok', violations=[], undecided=[], obligations={}, traces=0, paths=0,
               functions=[], callsites=[], loops={}, note='')

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.alarm(max(1, int(min(c.opts.get('limit', LIMIT[TIER]), STOP.value - time.time()))))
    try:
        M = MODS[(c.mods, c.defs, c.opts.get('extra'))]
        if kind == 'l':
            rep = Report(c.name)
            c.fn(M, rep)
            out['violations'] = rep.violations
            out['obligations'] = rep.obl
            out['functions'] = sorted(rep.functions)
            out['callsites'] = rep.sites
            if not sum(rep.obl.values()):
                raise spec.Anchor('rule %s matches nothing' % c.name)
        else:
            x = absint.X(M, models, c.opts.get('maxpaths', 6000 if TIER == 'quick' else 20000))
            # one violation is enough: little time for looking for more of them
            x.on_violation = lambda: signal.alarm(max(1, min(signal.alarm(0), AFTER)))
            x.nsw_assume = c.opts.get('nsw_assume', False)
            x.trial_limit = c.opts.get('trial', 300)
            x.unrollall = c.opts.get('unrollall', 0)
            if 'unroll' in c.opts:
                x.unroll_cap = c.opts['unroll']
            if 'rec_depth' in c.opts:
                x.rec_depth = c.opts['rec_depth']
            x.check_iter_leaks = c.opts.get('leaks', True)
            out['traces'] = 0
            try:
                def body(x):
                    x.iter_hook = None
                    x.cb_hook = None
                    x.mat_hook = None
                    x.va_hook = None
                    x.stub = {}
                    x.words = False
                    x.ginit = False
                    x.recursion_model = {}
                    c.fn(x)
                out['traces'] = x.explore(body, c.name)
            finally:
                out.update(paths=x.paths, violations=x.violations, undecided=x.undecided, obligations=x.obl,
                           functions=sorted(x.functions), callsites=['%s:%d %s' % s for s in sorted(x.callsites)],
                           loops={'%s@%s' % k: v for k, v in x.loops_seen.items()})
            if not x.paths and not x.violations and not x.undecided:
                raise absint.Broken('contract has no feasible trace')
            if not sum(v for k, v in x.obl.items() if k not in ('bounds', 'nonnull', 'cstring')) and not x.violations and not x.undecided:
                raise absint.Broken('contract checked nothing')
    except spec.Anchor as e:
        out['status'] = 'broken'
        out['note'] = str(e)
    except absint.Broken as e:
        out['status'] = 'broken' if 'anchor' in str(e) else 'limit'
        out['note'] = str(e)
    except Timeout:
        out['status'] = 'limit'
        out['note'] = 'time limit'
    except RecursionError:
        out['status'] = 'limit'
        out['note'] = 'recursion limit'
    except MemoryError:
        out['status'] = 'limit'
        out['note'] = 'memory limit'
    except Exception:
        out['status'] = 'limit'
        out['note'] = 'internal: ' + ''.join(traceback.format_exc().splitlines(True)[-5:])
    finally:
        signal.alarm(0)
    out['wall'] = round(time.time() - t0, 2)
    # equal reports from different traces are one report
    for k in ('violations', 'undecided'):
        seen, lst = set(), []
        for v in out[k]:
            if kind == 'c' and not spec.about(c, v):
                continue
            key = (v['kind'], v['function'], v['line'], v['message'][:60])
            if key not in seen:
                seen.add(key)
                lst.append(v)
        out[k] = lst[:25]
    if any(not listed(prop, out['name'], v) for v in out['violations']):
        with STOP.get_lock():
            STOP.value = min(STOP.value, time.time() + AFTER)
    return out


def listed(prop, name, v):
    """the known finding that this violation is"""
    for d in KNOWN:
        if d.get('property') == prop and d.get('function', v['function']) == v['function'] and d.get('kind') == v['kind'] and \
                d.get('contract', name).replace('_', ' ') == name.replace('_', ' '):
            return d
    return None


class Report:
    def __init__(self, name):
        self.name = name
        self.violations = []
        self.obl = {}
        self.functions = set()
        self.sites = []

    def site(self, kind, where, fn=None):
        self.obl[kind] = self.obl.get(kind, 0) + 1
        self.sites.append('%s %s' % (kind, where))
        if fn:
            self.functions.add(fn)

    def violation(self, kind, message, function='', file='', line=0, **kw):
        self.violations.append(dict(kind=kind, message=message, function=function, file=file, line=line,
                                    contract=self.name, stack=[], constraints=[], events=[], **kw))


def known():
    out = []
    p = os.path.join(TOP, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(kv.split('=', 1) for kv in l.split(' -- ')[0].split()[1:])
                d['text'] = l.split(' -- ', 1)[1] if ' -- ' in l else l
                out.append(d)
    return out


def main():
    global TIER
    prop = sys.argv[1]
    TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if TIER not in LIMIT:
        TIER = 'quick'
    only = [a[2:] for a in sys.argv[2:] if a.startswith('-k')]
    t0 = time.time()
    for f in sorted(glob.glob(os.path.join(TOP, 'specs', '*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    jobs = [('c', prop, i) for i, c in enumerate(spec.REG.get(prop, [])) if (TIER == 'thorough' or not c.opts.get('thorough')) and (not only or any(o in c.name for o in only))]
    jobs += [('l', prop, i) for i, c in enumerate(spec.LINTS.get(prop, [])) if not only or any(o in c.name for o in only)]
    if not jobs:
        print('no contracts for %s' % prop)
        return 2
    try:
        for k, p, i in jobs:
            c = (spec.REG if k == 'c' else spec.LINTS)[p][i]
            key = (c.mods, c.defs, c.opts.get('extra'))
            if k == 'l' and c.mods == ():
                MODS[key] = None        # works on the sources itself
            elif key not in MODS:
                MODS[key] = build.load(list(c.mods) if c.mods is not None else None, ['-D' + d for d in c.defs], [c.opts['extra']] if c.opts.get('extra') else [])
    except absint.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    res = []
    KNOWN[:] = known()
    STOP.value = time.time() + BUDGET[TIER]
    ctx = multiprocessing.get_context('fork')
    with ProcessPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8')), mp_context=ctx) as ex:
        for r in ex.map(run_contract, jobs):
            res.append(r)
    viol, und, broken, limit = [], [], [], []
    hits = []
    for r in res:
        for v in r['violations']:
            k = listed(prop, r['name'], v)
            if k:
                hits.append(k)
            else:
                viol.append(v)
        und += r['undecided']
        if r['status'] == 'broken':
            broken.append(r)
        elif r['status'] == 'limit':
            limit.append(r)
    obl = {}
    for r in res:
        for k, n in r['obligations'].items():
            obl[k] = obl.get(k, 0) + n
    fns = sorted(set(f for r in res for f in r['functions']))
    cs = sorted(set(s for r in res for s in r['callsites']))
    loops = {}
    for r in res:
        loops.update(r['loops'])
    total = sum(obl.values())
    ev = dict(property=prop, tier=TIER, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              assumptions=['external functions behave as specified in engine/models.py (GLib and libc contracts)',
                           'signed additions and subtractions do not wrap unless the contract checks them',
                           'memory allocation does not fail (GLib aborts)'],
              coverage=dict(explanation='Static analysis of the LLVM IR of /repo/src, compiled on this run with the release flags: each contract puts a public function into an arbitrary state '
                            'satisfying the documented precondition, interprets it abstractly (linear forms and polyhedra, memory regions with ownership typestate, loop invariants) '
                            'along every partition of the control flow and discharges the obligations counted here; lints count the matched sites.',
                            contracts=len(res), traces=sum(r['traces'] for r in res), completed_partitions=sum(r['paths'] for r in res),
                            obligations=total, discharged=total - len(viol) - len(und), obligations_by_kind=obl,
                            functions_analysed=len(fns), functions=fns, call_sites=len(cs), loops=loops,
                            undecided=len(und), unfinished=[dict(contract=r['name'], why=r['note']) for r in limit + broken],
                            samples=[dict(contract=r['name'], traces=r['traces'], obligations=r['obligations'], wall=r['wall']) for r in res],
                            sample_sites=cs[:12]))
    os.makedirs(os.path.join(TOP, 'evidence'), exist_ok=True)
    with open(os.path.join(TOP, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if '-v' in sys.argv:
        for r in res:
            print('%-28s %-7s traces %d paths %d obl %d viol %d und %d %.1fs %s' % (r['name'], r['status'], r['traces'], r['paths'], sum(r['obligations'].values()), len(r['violations']), len(r['undecided']), r['wall'], r['note']))
            for v in r['violations']:
                print('   V', v['kind'], v['function'], v['line'], v['message'])
                if '-vv' in sys.argv:
                    for c in v['constraints'] + v['stack'] + v['events']:
                        print('        ', c)
            for v in r['undecided']:
                print('   U', v['kind'], v['function'], v['line'], v['message'])
                if '-vv' in sys.argv:
                    for c in v['constraints'] + v['stack'] + v['events']:
                        print('        ', c)
        print('loops', loops)
    for d in {id(h): h for h in hits}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, d['text']))
    for v in und[:5]:
        print('UNDECIDED property=%s %s:%s %s: %s' % (prop, v['function'], v['line'], v['kind'], v['message']))
    for r in limit:
        print('UNFINISHED property=%s contract %s: %s' % (prop, r['name'], r['note'].strip().splitlines()[-1] if r['note'] else ''))
    print('property=%s contracts=%d obligations=%d functions=%d undecided=%d violations=%d wall=%.1fs' %
          (prop, len(res), total, len(fns), len(und), len(viol), time.time() - t0))
    if viol:
        p = os.path.join(TOP, 'evidence', prop + '.violations.json')
        with open(p, 'w') as f:
            json.dump(viol, f, indent=1)
        for v in viol[:10]:
            print('%s:%s: in %s: [%s] %s (contract %s)' % (v['file'], v['line'], v['function'], v['kind'], v['message'], v['contract']))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if broken:
        for r in broken:
            print('ANALYSIS-BROKEN property=%s contract %s: %s' % (prop, r['name'], r['note']))
        return 2
    if len(limit) == len(res):
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
