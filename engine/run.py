"""check driver: prove, replay, search; write evidence; decide the exit code"""
import os, sys, json, time, traceback, multiprocessing as mp, importlib, random, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def setup_paths():
    from . import world
    for r in reversed(world.ROOTS):
        if r not in sys.path: sys.path.insert(0, r)
    sys.dont_write_bytecode = True

def contract_files(prop):
    d = os.path.join(VERIF, 'contracts')
    idx = json.load(open(os.path.join(d, 'index.json')))
    return [os.path.join(d, f) for f in idx.get(prop, [])]

def load_concrete(prop):
    from . import api
    import importlib.util
    api.REGISTRY.clear(); api.LOOPS.clear()
    for f in contract_files(prop):
        name = 'contracts_' + os.path.basename(f)[:-3]
        spec = importlib.util.spec_from_file_location(name, f)
        m = importlib.util.module_from_spec(spec); sys.modules[name] = m
        spec.loader.exec_module(m)
    return [c for c in api.REGISTRY if c.prop == prop], dict(api.LOOPS)

def load_symbolic(prop, w):
    from . import api
    api.REGISTRY.clear(); api.LOOPS.clear()
    for f in contract_files(prop):
        w.load_file('contracts_' + os.path.basename(f)[:-3], f)
    return [c for c in api.REGISTRY if c.prop == prop], dict(api.LOOPS)

def resolve(w, path):
    mod, _, q = path.partition(':')
    o = w.load(mod)
    parts = q.split('.')
    for p in parts[:-1]: o = getattr(o, p)
    return o, parts[-1]

def sym_task(prop, cname, part, tier, unroll, conn):
    """prove one contract; with unroll, look for a failing input among short ones, loops executed as they are"""
    import z3
    from . import core, world, api, loops
    t0 = time.time()
    out = {'contract': cname, 'part': part, 'kind': 'search' if unroll else 'sym', 'obligations': {}, 'undecided': [], 'cases': [], 'crash': None}
    ex = None
    def report():
        if ex is not None:
            out['obligations'] = {k: dict(kind=o.kind, instances=o.instances, discharged=o.discharged, failed=o.failed,
                                          unknown=o.unknown, time=round(o.time, 3)) for k, o in ex.obl.items()}
            out['undecided'] = ex.undecided[:10]; out['paths'] = ex.stats.paths; out['completed'] = ex.completed
            out['queries'] = ex.stats.queries; out['solver_s'] = round(ex.stats.solver_s, 2)
            out['assumptions'] = sorted(ex.assumptions); out['functions'] = sorted(ex.functions)
            out['loops_cut'] = sorted(ex.loops_cut); out['loop_bodies'] = sorted(ex.loop_bodies)
            out['notes'] = ex.notes[:6]
        out['wall_s'] = round(time.time() - t0, 2)
        conn.send(out)
    try:
        sys.setrecursionlimit(3000)
        w = world.World()
        cons, lps = load_symbolic(prop, w)
        con = [c for c in cons if c.name == cname][0]
        ccons, _ = load_concrete(prop)
        ccon = [c for c in ccons if c.name == cname][0]
        limit = con.tmax if tier == 'thorough' else SEARCH_S if unroll else con.timeout
        api.SymCtx.small = unroll
        ex = core.Explorer(timeout_ms=con.query_ms * (4 if tier == 'thorough' else 1), deadline_s=limit, max_paths=con.max_paths)
        ex.notes = []
        replays = {}
        def concretize(path, model):
            """replay a counterexample on the real code"""
            n = replays.get('n', 0)
            if n >= 12: return None
            replays['n'] = n + 1
            src = api.ModelSource(model, dict(path.inputs))
            saved, core.CUR = core.CUR, None
            try: r, detail, log = api.run_limited(ccon, src, part, 20)
            finally: core.CUR = saved
            case = {'result': r, 'detail': detail, 'inputs': log}
            out['cases'].append(case)
            return case
        ex.concretize = concretize
        loops.SPECS.clear()
        cuts = () if unroll else con.cuts(part) if callable(con.cuts) else con.cuts
        for key in cuts: loops.SPECS[key.split(':')[0]] = lps[key]
        for path, fn in con.models:
            o, attr = resolve(w, path)
            w.patch(o, attr, fn(w, o.__dict__.get(attr)) if not isinstance(fn, (staticmethod, classmethod)) else fn)
        def body():
            con.fn(api.SymCtx(w, part=part))
        ex.run(body)
        if ex.undecided and getattr(ex, 'last_tb', None): out['tb'] = ex.last_tb[-2500:]
        for key in (k.split(':')[0] for k in cuts):
            if key not in ex.loops_cut: ex.undecided.append('loop %s was not reached' % key)
            elif key not in ex.loop_bodies: ex.notes.append('loop %s body never completed' % key)
        if not ex.obl: ex.undecided.append('no obligation was generated')
        if ex.completed == 0 : ex.undecided.append('no path reaches the end of the contract')
        report()
    except BaseException as e:
        out['crash'] = '%s: %s' % (type(e).__name__, traceback.format_exc()[-2500:])
        try: report()
        except Exception: pass

def conc_task(prop, cname, part, tier, seed, n, budget, conn):
    from . import api
    t0 = time.time()
    out = {'contract': cname, 'part': part, 'kind': 'conc', 'run': 0, 'skipped': 0, 'checks': 0, 'fail': None, 'findings': {}, 'crash': None,
           'samples': []}
    try:
        sys.setrecursionlimit(4000)
        cons, _ = load_concrete(prop)
        con = [c for c in cons if c.name == cname][0]
        h = int(hashlib.sha256(('%s/%s/%s' % (cname, part, seed)).encode()).hexdigest()[:12], 16)
        distinct = set()
        for i in range(n):
            if time.time() - t0 > budget: break
            src = api.RandomSource(h + i)
            if PROGRESS is not None: PROGRESS[:] = (h + i + 1).to_bytes(16, 'little')
            r, detail, log = api.run_limited(con, src, part, 45)
            if r == 'slow': r = 'fail'
            out['checks'] += src.checks
            out['findings'].update(src.findings)
            if r == 'skip': out['skipped'] += 1; continue
            out['run'] += 1
            if src.checks: distinct.add(hashlib.sha256(json.dumps(log, sort_keys=True).encode()).hexdigest()[:16])
            if i < 2 and len(json.dumps(log)) < 600: out['samples'].append(log)
            if r == 'fail':
                out['fail'] = {'detail': detail, 'inputs': log}; break
        out['distinct'] = len(distinct)
    except BaseException as e:
        out['crash'] = '%s: %s' % (type(e).__name__, traceback.format_exc()[-2500:])
    out['wall_s'] = round(time.time() - t0, 2)
    conn.send(out)

SEARCH_S = 60
PROGRESS = None          # (in a worker) which sample is being evaluated, seen by the parent
import mmap, signal
CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGABRT)
def fn_of(args): return conc_task if len(args) > 6 else sym_task
def run_tasks(tasks, procs, deadline):
    global PROGRESS
    """tasks: list of (fn, args, hard_limit); yields results"""
    ctx = mp.get_context('fork')
    pend = list(tasks); live = []; results = []
    while pend or live:
        while pend and len(live) < procs:
            fn, args, lim = pend.pop(0)
            a, b = ctx.Pipe(False)
            PROGRESS = mmap.mmap(-1, 16)
            p = ctx.Process(target=fn, args=args + (b,)); p.start(); b.close()
            live.append((p, a, time.time() + lim, args)); p.progress = PROGRESS
        for item in list(live):
            p, a, lim, args = item
            try:
                if a.poll(0.01):
                    results.append(a.recv()); p.join(5)
                    if p.is_alive(): p.kill()
                    live.remove(item); a.close(); continue
            except EOFError:
                p.join(2); d = {'contract': args[1], 'part': args[2], 'kind': 'dead', 'crash': 'worker died'}; results.append(d)
                at = int.from_bytes(p.progress[:], 'little')
                if fn_of(args) is conc_task and at and p.exitcode is not None and -p.exitcode in CRASHES: d['signal'] = -p.exitcode; d['at'] = at - 1
                live.remove(item); continue
            if time.time() > lim or time.time() > deadline:
                p.kill(); p.join()
                results.append({'contract': args[1], 'part': args[2], 'kind': 'dead', 'crash': 'time limit'})
                live.remove(item); a.close()
    return results

def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv: tier = 'thorough'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    only = None
    for a in argv[1:]:
        if a.startswith('--only='): only = a[7:]
    verbose = '-v' in argv
    t0 = time.time()
    setup_paths()
    hard = 840 if tier == 'quick' else 3000
    evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    rpd = os.path.join(evd, 'replay'); os.makedirs(rpd, exist_ok=True)
    try:
        cons, _ = load_concrete(prop)
        loaderr = None
    except BaseException as e:
        # the tree cannot even be imported by the contracts
        loaderr = traceback.format_exc()[-3000:]; cons = []
    if only: cons = [c for c in cons if only in c.name]
    tasks = []
    mult = 1 if tier == 'quick' else 20
    for c in cons:
        for part in (c.parts or [None]):
            if c.conc:
                tasks.append((c.weight, (conc_task, (prop, c.name, part, tier, seed, c.samples * mult, 25 if tier == 'quick' else 400),
                              90 if tier == 'quick' else 600)))
            if c.sym and not '--conc' in argv:
                lim = c.tmax if tier == 'thorough' else c.timeout
                tasks.append((c.weight + 1, (sym_task, (prop, c.name, part, tier, False), lim + 40)))
    if '--sym' in argv: tasks = [t for t in tasks if t[1][0] is sym_task]
    tasks.sort(key=lambda t: -t[0])
    results = run_tasks([t[1] for t in tasks], int(os.environ.get('VF_PROCS', '8')), t0 + hard)
    # ---------------- a proof that fails: look harder for a failing input
    def settled(r): return r.get('signal') or r.get('fail') or any(x['result'] == 'fail' for x in r.get('cases', ()))
    def clean(r): return not (r.get('crash') or r.get('undecided') or any(o['failed'] or o['unknown'] for o in r.get('obligations', {}).values()))
    if not any(settled(r) for r in results) and '--nosearch' not in argv:
        open_ = [(r['contract'], r['part']) for r in results if r['kind'] in ('sym', 'dead') and not clean(r)]
        more = []
        byname = {c.name: c for c in cons}
        for cn, part in sorted(set(open_), key=str)[:24]:
            c = byname[cn]
            if c.conc: more.append((conc_task, (prop, cn, part, tier, 'search%d' % seed, c.samples * 40, SEARCH_S), SEARCH_S + 60))
            if c.sym: more.append((sym_task, (prop, cn, part, 'quick', True), SEARCH_S + 40))
        if more: results += run_tasks(more, int(os.environ.get('VF_PROCS', '8')), min(time.time() + 240, t0 + hard))
    # ---------------- verdict
    known = {}
    kf = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith('known:') and ('property=%s ' % prop) in line:
                rest = line.split('property=%s ' % prop, 1)[1].strip()
                known[rest.split(' ', 1)[0]] = rest
    violations = []; undecided = []; nobl = ndis = 0; oblist = []; assumptions = set(); functions = set(); loopset = set()
    evals = distinct = 0; samples = []; solver = 0.0; paths = 0; proved = []; findings = {}; notes = []; queries = 0
    bounded = [c.name + ': ' + c.bounded for c in cons if c.bounded]
    status = {}
    if loaderr: violations.append(('import', 'the contracts cannot import the code under test', {'detail': loaderr}, True))
    def replay_file(tag, data):
        f = os.path.join(rpd, '%s-%s.json' % (prop, tag.replace('/', '_').replace(' ', '_')[:60]))
        json.dump(data, open(f, 'w'), indent=1, default=str)
        return f
    for r in sorted(results, key=lambda r: (r['contract'], str(r['part']), r['kind'])):
        cn = r['contract'] if r['part'] is None else '%s[%s]' % (r['contract'], r['part'])
        if r.get('signal'):
            violations.append((cn, 'the code crashed the interpreter (signal %d)' % r['signal'], dict(property=prop, contract=r['contract'], part=r['part'], detail='signal %d' % r['signal'], random=r['at']), True)); continue
        if r['kind'] == 'search':
            real = [c for c in r['cases'] if c['result'] == 'fail']
            if real: violations.append((cn, real[0]['detail'], dict(property=prop, contract=r['contract'], part=r['part'], **real[0]), True))
            continue
        if r['kind'] == 'dead': undecided.append('%s: %s' % (cn, r['crash'])); status[cn] = 'undecided'; continue
        if r['kind'] == 'conc':
            if r['crash']: undecided.append('%s (concrete): %s' % (cn, r['crash'])); continue
            evals += r['run']; distinct += r.get('distinct', 0); samples += [dict(contract=cn, inputs=s) for s in r['samples'][:1]]
            findings.update(r['findings'])
            if r['fail']:
                violations.append((cn, r['fail']['detail'], dict(property=prop, contract=r['contract'], part=r['part'], **r['fail']), True))
            continue
        # symbolic
        for k, o in r['obligations'].items():
            nobl += 1
            ok = not o['failed'] and not o['unknown']
            if ok: ndis += 1
            oblist.append({'contract': cn, 'obligation': k, 'kind': o['kind'], 'instances': o['instances'],
                           'status': 'discharged' if ok else 'failed' if o['failed'] else 'unknown', 'time': o['time']})
        solver += r.get('solver_s', 0); paths += r.get('paths', 0); queries += r.get('queries', 0)
        assumptions.update(r.get('assumptions', ())); functions.update(r.get('functions', ())); loopset.update(r.get('loops_cut', ()))
        real = [c for c in r['cases'] if c['result'] == 'fail']
        if real:
            violations.append((cn, real[0]['detail'], dict(property=prop, contract=r['contract'], part=r['part'], **real[0]), True))
            status[cn] = 'refuted'; continue
        if r['crash']: undecided.append('%s: engine: %s' % (cn, r['crash'])); status[cn] = 'undecided'; continue
        failed = {k: o for k, o in r['obligations'].items() if o['failed']}
        unk = {k: o for k, o in r['obligations'].items() if o['unknown']}
        aux = [k for k, o in failed.items() if o['kind'] == 'unexpected']
        post = [k for k, o in failed.items() if o['kind'] in ('post', 'loop', 'lemma')]
        if post and not aux and not unk and not r['undecided'] and not os.environ.get('VF_NO_NFI'):
            violations.append((cn, 'obligation not provable: ' + '; '.join(post),
                               dict(property=prop, contract=r['contract'], part=r['part'], failed=post, notes=r.get('notes'), cases=r['cases'][:3]), False))
            status[cn] = 'refuted'; continue
        if failed or unk or r['undecided']:
            undecided.append('%s: %s' % (cn, '; '.join(list(failed)[:4] + ['unknown: ' + k for k in list(unk)[:4]] + r['undecided'][:3])))
            if verbose and r.get('tb'): print(r['tb'])
            status[cn] = 'undecided'
            notes += r.get('notes', [])
        else:
            status[cn] = 'proved'; proved.append(cn)
        if verbose: print('  %-50s %-9s obl=%d paths=%s q=%s %.1fs' % (cn, status[cn], len(r['obligations']), r.get('paths'), r.get('queries'), r['wall_s']))
    lines = []
    for fid, what in sorted(findings.items()):
        if fid in known: lines.append('KNOWN-FINDING: property=%s %s' % (prop, known[fid]))
        else: violations.append(('finding', '%s: %s' % (fid, what), {'property': prop, 'finding': fid, 'detail': what}, True))
    meta = {}
    for m in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks'] if os.path.exists(os.path.join(VERIF, 'MANIFEST.json')) else []:
        if m['property'] == prop: meta = m
    level = meta.get('level', 'proof')
    where = json.load(open(os.path.join(VERIF, 'contracts', 'callees.json')))
    callees = ['%s: contract discharged in %s' % (m, where[m]) if m in where else '%s: contract assumed' % m
               for m in sorted({m[0] for c in cons if c.sym for m in c.models})]
    assumptions.update(GENERAL); assumptions.update(json.load(open(os.path.join(VERIF, 'contracts', 'assumptions.json'))).get(prop, ()))
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'bin/check %s' % prop,
        'trusted_base': ['engine/ (symbolic executor and VC generator, cross-checked by running the repository tests through it)',
                         'z3 %s' % _z3v(), 'specifications in contracts/'],
        'contracts_proved': proved, 'contracts_undecided': undecided, 'bounded_stand_ins': bounded,
        'functions_under_contract': sorted(f for f in functions if not f.startswith('contracts')), 'functions_replaced_by_their_contract': callees, 'loops_cut_by_invariant': sorted(loopset),
        'paths': paths, 'solver_queries': queries, 'solver_s': round(solver, 1), 'back_end': 'z3 (python bindings)',
        'evaluations': evals, 'distinct_nontrivial': distinct,
        'rule': 'inputs drawn from the precondition with edge-biased values (seeded); a case counts when it satisfies the precondition and at least one postcondition was evaluated on the real code; distinct by the drawn inputs',
        'samples': (samples[:5] or [{'none': True}]), 'obligation_list': oblist[:400],
    }
    if level != 'proof':
        cov['explanation'] = 'contract obligations discharged where possible (obligations/discharged); contracts executed on the real code over sampled inputs as bounded stand-in (evaluations)'
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumptions) + (['UNDECIDED: ' + u.replace('\n', ' ')[:300] for u in undecided]),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1, default=str)
    for l in lines: print(l)
    for u in undecided: print('UNDECIDED (not counted as proved): %s' % (u if verbose else u[:400]))
    if verbose:
        for n in notes: print('NOTE', n)
    print('%s: %d/%d obligations discharged, %d contracts proved, %d undecided; %d concrete evaluations (%d distinct); %.1fs' %
          (prop, ndis, nobl, len(proved), len(undecided), evals, distinct, time.time() - t0))
    if violations:
        violations.sort(key=lambda v: not v[3])
        cn, detail, data, replayed = violations[0]
        for v in violations[:5]: print('  violated: %s: %s' % (v[0], str(v[1])[:600]))
        f = replay_file(cn, data)
        print('VIOLATION property=%s replay=%s%s' % (prop, f, '' if replayed else ' no-failing-input-found'))
        return 1
    return 0

GENERAL = ('integers are mathematical (they are in Python); memory is unbounded and recursion is deep enough',
           'the engine gives the instrumented operations and the library stand-ins (struct, io, hashlib, binascii, ctypes, socket) the meaning CPython gives them')

def _z3v():
    import z3
    return z3.get_version_string()

def replay(path):
    setup_paths()
    from . import api
    d = json.load(open(path))
    cons, _ = load_concrete(d['property'])
    con = [c for c in cons if c.name == d['contract']][0]
    src = api.RandomSource(d['random']) if 'random' in d else api.RecordedSource(d.get('inputs', {}))
    r, detail, log = api.run_concrete(con, src, d.get('part'))
    print(r, detail)
    return 0 if r == 'ok' else 1

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay': rc = replay(sys.argv[2])
        else: rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        # a failure of the driver itself is no verdict about the code
        print('UNDECIDED: the driver failed'); rc = 3
    sys.stdout.flush()
    os._exit(rc)
