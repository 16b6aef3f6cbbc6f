"""Driver: verify every loop a property depends on, search for a failing input where an obligation is rejected.

  python3-vt -m dv.check C07            (VERIF_TIER=quick|thorough, VERIF_SEED)
"""
import json, os, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp
from . import extract as X, ir, verify, registry, props

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = '?bBhHiIlLqQfdgFDGO'
NPROC = min(8, os.cpu_count() or 4)


def chars(types):
    return ''.join(CH[x] if x < 18 else 'e' for x in types)


TRAP = ('-fsanitize=float-cast-overflow,integer-divide-by-zero,bounds', '-fsanitize-undefined-trap-on-error')


class Failure:
    def __init__(self, mod, attr, types, index, what, obligations=(), output='', kind='loop'):
        self.mod, self.attr, self.types, self.index, self.what = mod, attr, types, index, what
        self.obligations, self.output, self.kind = list(obligations), output, kind
        self.found = None

    def key(self):
        return f"{self.attr}:{self.types}"


# ------------------------------------------------------------------ building
def build_module(args):
    root, m = args
    try:
        X.compile_ir(root, m)
        so = X.build_so(root, m)
        t = X.dump_table(so, m)
        json.dump(t, open(f'{root}/build/{m}.json', 'w'))
        return m, t, None
    except Exception as e:
        return m, None, f"{type(e).__name__}: {e}"[-3000:]


_cache = {}


class JobTimeout(BaseException):
    pass


def _alarm(*a):
    raise JobTimeout()


def job(a):
    try:
        return job1(a)
    except JobTimeout:
        pass
    signal.setitimer(signal.ITIMER_REAL, 0)
    return (a[1], a[2], a[3]), timed_out(a[4])


def timed_out(opts):
    return dict(ok=False, error=f"time limit {opts.get('limit', 200)} s", failed=[], nobl=0, kinds={}, inv=0, queries=0, solver=0,
                wall=opts.get('limit', 200), assumed=[], checked=0, nonvac=False, paths=0)


def job1(a):
    root, m, ui, li, opts = a
    b = f'{root}/build/{m}'
    ll = b + '.m.ll' if not opts.get('strip') and os.path.exists(b + '.m.ll') else b + '.ll'
    if ll not in _cache:
        _cache.clear()
        _cache[ll] = (ir.parse_module(ll), json.load(open(b + '.json')))
    M, t = _cache[ll]
    u = t['ufuncs'][ui]
    loop = u['loops'][li]
    sp = registry.lookup(m, u['attr']) or (lambda S: None)
    signal.signal(signal.SIGALRM, _alarm)
    # repeated: an exception raised inside a destructor is swallowed
    signal.setitimer(signal.ITIMER_REAL, int(opts.get('limit', 200)), 0.5)
    try:
        r = verify.verify_loop(M, u, loop, sp, timeout_ms=opts.get('ms', 5000), extra=opts)
        d = dict(ok=r.ok, error=r.error, failed=[(o.kind, o.name, o.why[:1500]) for o in r.obl if not o.ok], nobl=len(r.obl),
                 kinds=count(o.kind for o in r.obl), inv=r.invariants, queries=r.queries, solver=r.solver_s, wall=r.wall,
                 assumed=r.assumed, checked=r.checked, nonvac=r.nonvac, paths=r.paths)
    except JobTimeout:
        d = timed_out(opts)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return (m, ui, li), d


def count(it):
    r = {}
    for x in it:
        r[x] = r.get(x, 0) + 1
    return r


# ------------------------------------------------------------------ replay
def replay_search(root, fails, seconds, seed, mode):
    """look for concrete failing inputs for rejected loops (kind 'loop')"""
    mods = sorted({f.mod for f in fails})
    errs = {}

    def bld(m):
        try:
            X.build_so(root, m, native=True, tag='n', extra=TRAP if mode == 'memory' else ())
        except Exception as e:
            errs[m] = str(e)[-1500:]
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(bld, mods))
    work = os.path.join(root, 'replay')
    os.makedirs(work, exist_ok=True)
    fails = [f for f in fails if f.mod not in errs]
    rounds = max(1, -(-len(fails) // NPROC))
    per = max(3.0, min(40.0, seconds / rounds))
    t_end = time.time() + seconds

    def go(nf):
        n, f = nf
        if time.time() > t_end:
            return
        b = f'{work}/{n}'
        so = f'{root}/build/pkgn/ufunclab/{f.mod}.cpython-312-x86_64-linux-gnu.so'
        task = dict(so=so, mod=f.mod, attr=f.attr, index=f.index)
        req = dict(tasks=[task], seed=seed, seconds=per, progress=b + '.p', result=b + '.r', mode=mode, maxfail=1)
        json.dump(req, open(b + '.q', 'w'))
        with open(b + '.p', 'wb') as g:
            g.write(b'\0' * 16)
        p = subprocess.Popen([X.PY, os.path.join(VERIF, 'dv', 'replay.py'), 'search', b + '.q'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=X.clean_env(), start_new_session=True)
        last, tl = None, time.time()
        end = time.time() + per + 60
        why = None
        while p.poll() is None:
            time.sleep(.05)
            cur = open(b + '.p', 'rb').read()
            if cur != last:
                last, tl = cur, time.time()
            if time.time() - tl > 20 or time.time() > end:
                why = 'the loop does not return (20 s without progress)'
                os.killpg(p.pid, signal.SIGKILL)
                break
        out = p.communicate()[0].decode('utf8', 'replace')[-800:]
        if os.path.exists(b + '.r'):
            r = json.load(open(b + '.r'))
            f.samples = r['checked']
            if r['failures']:
                f.found = r['failures'][0]
            return
        if why is None and p.returncode < 0:
            why = f"the process died with signal {-p.returncode}"
        if why is None:
            f.output += "\nreplay worker: " + out
            return
        ti, si = struct.unpack('<qq', open(b + '.p', 'rb').read()[:16])
        f.found = dict(task=task, seed=seed, sample=si, mode=mode, what=why, input=None)
        json.dump(f.found, open(b + '.d', 'w'))
        q = subprocess.run([X.PY, os.path.join(VERIF, 'dv', 'replay.py'), 'describe', b + '.d'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=X.clean_env(), text=True, timeout=120)
        for line in q.stdout.splitlines():
            if line.startswith('@@'):
                f.found['input'] = json.loads(line[2:])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(go, enumerate(fails)))
    return errs


# ------------------------------------------------------------------ main
def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    thorough = tier == 'thorough'
    scratch = tempfile.mkdtemp(prefix='dvcheck-')
    fails, ev = [], dict(obligations=0, discharged=0, invariants=0, queries=0, solver_s=0.0, functions=[], kinds={})
    assumed = set()
    hard = float(os.environ.get('DV_DEADLINE', 780 if not thorough else 3000))
    try:
        root = X.stage(scratch)
        mods = sorted((set() if callable(P['targets']) else {m for m, a in P['targets']}) | set(props.modules() if P.get('modules') == 'all' else P.get('modules', ())))
        tables = {}
        with ThreadPoolExecutor(NPROC) as ex:
            for m, t, e in ex.map(build_module, [(root, m) for m in mods]):
                if e:
                    fails.append(Failure(m, m, '', 0, f"module {m} could not be built: {e}", kind='build'))
                else:
                    tables[m] = t
        opts = dict(P.get('opts', {}))
        if P.get('kinds'):
            opts.update(strip=True, kinds=P['kinds'])
        if thorough:
            opts['ms'] = 20000
            opts['limit'] = 900
        jobs = []
        targets = P['targets'](tables) if callable(P['targets']) else P['targets']
        for m, attr in targets:
            if m not in tables:
                continue
            us = [(i, u) for i, u in enumerate(tables[m]['ufuncs']) if u['attr'] == attr]
            if not us:
                fails.append(Failure(m, attr, '', 0, f"{attr} is not registered by module {m}", kind='missing'))
                continue
            ui, u = us[0]
            want = props.TYPES.get(f"{m}.{attr}")
            have = [chars(l['types']) for l in u['loops']]
            if want is not None:
                for w in want:
                    if w not in have:
                        fails.append(Failure(m, attr, w, 0, f"no loop registered for types {w}", kind='missing'))
            if registry.lookup(m, attr) is None and not P.get('kinds'):
                fails.append(Failure(m, attr, '', 0, "no contract", kind='missing'))
                continue
            for li, l in enumerate(u['loops']):
                if P.get('filter') and not P['filter'](m, attr, chars(l['types'])):
                    continue
                jobs.append((root, m, ui, li, opts))
        res = {}
        if jobs:
            # big modules first; jobs of one module stay together for the parse cache
            ctx = mp.get_context('fork')
            pool = ctx.Pool(NPROC)
            try:
                it = pool.imap_unordered(job, jobs, chunksize=1)
                for _ in jobs:
                    left = hard * .75 - (time.time() - t0)
                    try:
                        k, d = it.next(timeout=max(.1, left))
                    except mp.TimeoutError:
                        break
                    res[k] = d
            finally:
                pool.terminate()
                pool.join()
        for (r_, m, ui, li, o) in jobs:
            u = tables[m]['ufuncs'][ui]
            l = u['loops'][li]
            d = res.get((m, ui, li))
            if d is None:
                fails.append(Failure(m, u['attr'], chars(l['types']), li, "verification did not finish"))
                continue
            ev['obligations'] += d['nobl']
            ev['discharged'] += d['nobl'] - len(d['failed'])
            ev['invariants'] += d['inv']
            ev['queries'] += d['queries']
            ev['solver_s'] += d['solver']
            for k, n in d['kinds'].items():
                ev['kinds'][k] = ev['kinds'].get(k, 0) + n
            ev['functions'].append(f"{m}.{u['attr']}[{chars(l['types'])}]={l['func']}:{d['nobl']}")
            assumed |= set(d['assumed'])
            kinds = P.get('kinds')
            if kinds and d['failed'] and not d['error'] and d['nonvac'] and not any(k in kinds for k, n, w in d['failed']):
                continue            # rejected, but not for this property's obligations
            if kinds:
                d['failed'] = [x for x in d['failed'] if x[0] in kinds] or d['failed']
            if not d['ok']:
                what = '; '.join(n for k, n, w in d['failed'][:4]) or d['error'] or ('vacuous' if not d['nonvac'] else 'postcondition never reached')
                fails.append(Failure(m, u['attr'], chars(l['types']), li, what, [n for k, n, w in d['failed']],
                                     '\n'.join(f"{n}: {w}" for k, n, w in d['failed'][:6]) + ('\n' + d['error'] if d['error'] else '')))
        # further obligations of the property (process_core_dims functions, tables, Python layer ...)
        for fn in P.get('extra', ()):
            try:
                r = fn(root, tables, dict(tier=tier, seed=seed, opts=opts, deadline=t0 + hard))
            except Exception as e:
                fails.append(Failure('', fn.__name__, '', 0, f"{fn.__name__}: {type(e).__name__}: {e}", output=traceback.format_exc()[-2000:], kind='extra'))
                continue
            ev['obligations'] += r['obligations']
            ev['discharged'] += r['discharged']
            ev['functions'] += r.get('functions', [])
            ev['queries'] += r.get('queries', 0)
            ev['solver_s'] += r.get('solver_s', 0)
            for k, n in r.get('kinds', {}).items():
                ev['kinds'][k] = ev['kinds'].get(k, 0) + n
            for k, v in r.get('coverage', {}).items():
                ev[k] = v
            assumed |= set(r.get('assumed', ()))
            fails += r['failures']
        loopf = [f for f in fails if f.kind == 'loop']
        if loopf:
            # the same rejected obligation in many type instances: search a few of each ufunc first
            order, seen = [], {}
            for f in loopf:
                seen[f.attr] = seen.get(f.attr, 0) + 1
                order.append((seen[f.attr], f))
            order = [f for n, f in sorted(order, key=lambda p: p[0])][:32]
            left = hard - (time.time() - t0) - 40
            try:
                replay_search(root, order, max(15, min(90 if not thorough else 300, left)), seed, P.get('mode', 'full'))
            except Exception:
                order[0].output += "\nreplay: " + traceback.format_exc()[-1500:]
    except Exception as e:
        fails.append(Failure('', 'check', '', 0, f"{type(e).__name__}: {e}", output=traceback.format_exc()[-3000:], kind='internal'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, P, tier, seed, fails, ev, assumed, time.time() - t0)


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def report(pid, P, tier, seed, fails, ev, assumed, wall):
    evd = os.path.join(VERIF, 'evidence')
    rd = os.path.join(evd, 'replays')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rd, f))
    kn = [k for k in known() if k['property'] == pid]
    viol = []
    for f in fails:
        hit = None
        for k in kn:
            if k['key'] == f.key() and set(f.obligations) <= set(k.get('obligations', ())):
                hit = k
        if hit:
            print(f"KNOWN-FINDING: property={pid} {hit['what']}")
        else:
            viol.append(f)
    lines = []
    viol.sort(key=lambda f: f.found is None)
    for n, f in enumerate(viol[:12]):
        path = os.path.join(rd, f"{pid}-{n}.json")
        rec = dict(property=pid, function=f.mod + '.' + f.attr, types=f.types, failed_obligation=f.what, obligations=f.obligations, verifier_output=f.output,
                   failing_input=f.found)
        if f.found:
            rec.update({k: v for k, v in f.found.items()})
            rec['rerun'] = f"/opt/venv/bin/python {VERIF}/dv/replay.py run {path}"
        with open(path, 'w') as g:
            json.dump(rec, g, indent=1, default=str)
        print(f"  failed: {f.mod}.{f.attr} {f.types}: {f.what[:300]}")
        if f.found:
            print(f"    input: {f.found['what'][:300]}  {json.dumps(f.found.get('input'), default=str)[:600]}")
        lines.append(f"VIOLATION property={pid} replay={path}" + ('' if f.found else ' no-failing-input-found'))
    if len(viol) > 12:
        print(f"  ... and {len(viol) - 12} more")
    e = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'),
             coverage=dict(obligations=ev['obligations'], discharged=ev['discharged'], checker_cmd=f"python3-vt -m dv.check {pid}",
                           trusted_base=props.TRUSTED + sorted(assumed), functions_under_contract=len(ev['functions']),
                           functions=ev['functions'], loop_invariants=ev['invariants'], solver="z3 " + z3v(), solver_queries=ev['queries'],
                           solver_seconds=round(ev['solver_s'], 2), obligations_by_kind=ev['kinds'],
                           **{k: v for k, v in ev.items() if k not in ('obligations', 'discharged', 'functions', 'invariants', 'queries', 'solver_s', 'kinds')}),
             assumptions=props.ASSUMPTIONS + list(P.get('assume', ())), wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(evd, pid + '.json'), 'w') as g:
        json.dump(e, g, indent=1, default=str)
    print(f"{pid}: {ev['discharged']}/{ev['obligations']} obligations over {len(ev['functions'])} functions, {len(viol)} violations, {wall:.1f} s")
    # a failing input, where there is one, comes first
    for ln in lines[:1] if lines and not lines[0].endswith('found') else lines[:1]:
        print(ln)
    return 1 if viol else 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main(sys.argv[1])
    except BaseException:
        traceback.print_exc()
        p = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, sys.argv[1] + '-internal.txt')
        open(p, 'w').write(traceback.format_exc())
        print(f"VIOLATION property={sys.argv[1]} replay={p} no-failing-input-found")
        rc = 1
    sys.exit(rc)
