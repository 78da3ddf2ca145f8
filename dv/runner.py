"""Runs one property: discharges the proof obligations of its verification tasks and executes the native
oracles on the real code; decides; writes the evidence file."""
import importlib, json, multiprocessing as mp, os, queue, random, re, resource, subprocess, sys, time, traceback
from . import build, engine, solve, term as tm

VERIF = build.VERIF
sys.setrecursionlimit(200000)


# ---------------------------------------------------------------- verification tasks
def _task_child(q, mod, spec, fname, tier):
    t0 = time.time()
    out = dict(task='%s.%s' % (spec, fname), error=None, obls=[], notes=[], used={}, contracts={}, assumed=[], loops={})
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        engine.TIER = tier
        r = getattr(importlib.import_module(spec), fname)(mod)
        for ex in (r if isinstance(r, list) else [r]):
            engine.verify_obls(ex.obls, ex.facts, procs=4)
            for o in ex.obls:
                out['obls'].append((o.name, o.kind, o.where, o.status, o.backend, round(o.time, 3), {k: str(v) for k, v in list((o.model or {}).items())[:60]} if o.status == 'refuted' else None))
            for k, v in ex.used.items(): out['used'][k] = out['used'].get(k, 0) + v
            for k, v in ex.called_contract.items(): out['contracts'][k] = out['contracts'].get(k, 0) + v
            out['assumed'] += sorted(ex.assumed)
            out['loops'].update(ex.loops_seen)
            out['notes'] += ex.notes
            # vacuity: the assumptions made along the way must be consistent
            st, _, _ = solve.check(ex.facts, tm.FALSE, 1500, modes=('lin',))
            out['vacuous'] = out.get('vacuous') or st == 'valid'
    except engine.Unsupported as e:
        out['error'] = 'outside the verifier\'s reach: %s' % e
    except (KeyError, AttributeError) as e:
        out['error'] = 'the specification does not match the code: %s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-1500:]
    except BaseException as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-1500:]
    out['wall'] = round(time.time() - t0, 2)
    out['stats'] = dict(solve.STATS)
    q.put(out)


def run_tasks(mod, tasks, tier, budget, par):
    """tasks: [(spec module, function)] -> list of results; every task in its own process"""
    ctx = mp.get_context('fork')
    pend = list(tasks); live = []; res = []
    t_end = time.time() + budget
    while pend or live:
        while pend and len(live) < par:
            s, f = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_task_child, args=(q, mod, s, f, tier))
            p.start()
            live.append((p, q, s, f, time.time()))
        time.sleep(0.02)
        for x in list(live):
            p, q, s, f, t0 = x
            got = None
            try: got = q.get_nowait()
            except queue.Empty:
                if not p.is_alive():
                    try: got = q.get(timeout=1)
                    except queue.Empty: got = dict(task='%s.%s' % (s, f), error='the verifier process ended with code %s' % p.exitcode, obls=[], notes=[], used={}, contracts={}, assumed=[], loops={}, stats={}, wall=round(time.time() - t0, 1))
                elif time.time() > t_end:
                    os.kill(p.pid, 9)
                    subprocess.run(['pkill', '-9', '-P', str(p.pid)])
                    got = dict(task='%s.%s' % (s, f), error='time budget used up', obls=[], notes=[], used={}, contracts={}, assumed=[], loops={}, stats={}, wall=round(time.time() - t0, 1))
            if got is not None:
                live.remove(x)
                p.join(5)
                res.append(got)
    res.sort(key=lambda r: r['task'])
    return res


# ---------------------------------------------------------------- native oracles
class Native:
    def __init__(s, tree): s.tree = tree; s.exes = {}

    def build(s, name, san):
        k = (name, san)
        if k not in s.exes: s.exes[k] = s.tree.native(name, san=san)
        return s.exes[k]

    def env(s):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4000'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        e['LC_ALL'] = 'C'
        return e

    def run(s, name, oracle, seed, cases, san, procs, timeout):
        """-> dict(cases, nontrivial, samples, fails=[...], cmd)"""
        exe = s.build(name, san)
        ps = []
        n = min(procs, max(1, cases))
        for k in range(n):
            ps.append(subprocess.Popen([exe, oracle, str(seed), str(k), str(cases), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=s.env(), cwd=s.tree.dir))
        r = dict(oracle='%s:%s' % (name, oracle), sanitizers=san, cases=0, nontrivial=0, samples=[], fails=[], stderr='', incomplete=0)
        t_end = time.time() + timeout
        for p in ps:
            try: out, err = p.communicate(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); out, err = p.communicate(); r['incomplete'] += 1
            for l in out.split('\n'):
                if l.startswith('SAMPLE'): r['samples'].append(l[7:])
                elif l.startswith('FAIL'): r['fails'].append(l)
                elif l.startswith('OK'):
                    m = re.search(r'cases=(\d+) nontrivial=(\d+)', l)
                    r['cases'] += int(m.group(1)); r['nontrivial'] += int(m.group(2))
            if p.returncode not in (0, -9) and not any(l.startswith('FAIL') for l in out.split('\n')):
                r['fails'].append('FAIL oracle=%s: the program ended with code %s' % (oracle, p.returncode))
            if p.returncode != 0: r['stderr'] += err[-3000:]
        r['fails'].sort(key=lambda l: int((re.search(r'case=(\d+)', l) or [0, 10 ** 9])[1]))
        return r


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l.strip())
            if m: out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def check(pid, P, tier, seed):
    t0 = time.time()
    rep_dir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    replay = os.path.join('evidence', 'replay', pid + '.txt')
    lines = []
    violations = []
    def say(x): lines.append(x)

    try:
        tree = build.Tree()
    except Exception as e:
        print('cannot copy or generate the sources: %s' % e)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
        open(os.path.join(VERIF, replay), 'w').write('the sources cannot be built: %s\n' % e)
        return 1
    mod = None
    broken = []
    tasks = list(P.get('tasks', []))
    if tier == 'thorough': tasks += P.get('thorough_tasks', [])
    res = []
    if tasks:
        try: mod = tree.module()
        except Exception as e:
            broken.append('the sources do not compile to a module: %s' % str(e)[-1500:])
            tasks = []
        res = run_tasks(mod, tasks, tier, 560 if tier == 'quick' else 3000, P.get('par', 4))
    nat = Native(tree)
    nres = []
    for o in P.get('native', []):
        cases = o['cases'] * (o.get('scale', 20) if tier == 'thorough' else 1)
        try: r = nat.run(o['file'], o['oracle'], seed, cases, o.get('san', True), o.get('procs', 8), 250 if tier == 'quick' else 2400)
        except Exception as e:
            broken.append('the native oracle %s cannot be built or run against these sources: %s' % (o['file'], str(e)[-1500:]))
            continue
        r['planned'] = cases
        r['what'] = o.get('what', '')
        nres.append(r)

    # ---- verdict
    expected_open = [re.compile(x) for x in P.get('bounded_obligations', [])]
    failed, bounded, ok, tot = [(b, None, None) for b in broken], [], 0, 0
    by_backend = {}
    for r in res:
        if r['error']: failed.append(('%s: %s' % (r['task'], r['error']), None, r)); continue
        if r.get('vacuous'): failed.append(('%s: the assumptions of the proof became inconsistent' % r['task'], None, r))
        if not r['obls']: failed.append(('%s: no obligation was generated' % r['task'], None, r))
        for o in r['obls']:
            tot += 1
            if o[3] == 'valid':
                ok += 1
                by_backend[o[4]] = by_backend.get(o[4], 0) + 1
            elif any(x.search(r['task'] + ': ' + o[0]) for x in expected_open): bounded.append('%s: %s' % (r['task'], o[0]))
            else: failed.append(('%s: %s (%s) [%s]' % (r['task'], o[0], o[3], o[2]), o, r))
    nfails = [(r, f) for r in nres for f in r['fails']]

    known = load_known().get(pid, [])
    hits = {}
    new = []
    for r, f in nfails:
        for key, what in known:
            if key in f: hits.setdefault(key, what); break
        else: new.append((r, f))
    for key, what in hits.items(): print('KNOWN-FINDING: property=%s %s' % (pid, what))

    code = 0
    if failed or new:
        code = 1
        with open(os.path.join(VERIF, replay), 'w') as f:
            f.write('property %s\n%s\n\n' % (pid, P['title']))
            if new:
                f.write('Failing executions of the real code (rebuild and rerun with: cd %s && python3-vt check.py %s --replay FILE ORACLE SEED CASE):\n' % (VERIF, pid))
                for r, x in new[:20]:
                    m = re.search(r'case=(\d+)', x)
                    nm, orc = r['oracle'].split(':')
                    f.write('%s\n   reproduce: python3-vt check.py %s --replay %s %s %d %s\n' % (x, pid, nm, orc, seed, m.group(1) if m else '?'))
                for r in nres:
                    if r['stderr']: f.write('\n--- diagnostics of %s\n%s\n' % (r['oracle'], r['stderr'][-6000:]))
            if failed:
                f.write('\nObligations the verifier does not accept on this source:\n')
                for name, o, r in failed:
                    f.write('  %s\n' % name)
                    if o and o[6]: f.write('     countermodel: %s\n' % ', '.join('%s=%s' % kv for kv in sorted(o[6].items())))
                for r in res:
                    if r.get('trace'): f.write('\n--- %s\n%s\n' % (r['task'], r['trace']))
                    if r['notes']: f.write('\n--- %s\n%s\n' % (r['task'], '\n'.join(r['notes'])))
        for name, o, r in failed[:12]: print('FAILED OBLIGATION %s' % name)
        for r, x in new[:6]: print(x)
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if new else ' no-failing-input-found'))

    # ---- evidence
    used = {}
    for r in res:
        for k, v in r['used'].items(): used[k] = used.get(k, 0) + v
    contracts = {}
    assumed = set(P.get('assumptions', []))
    loops = {}
    zt = 0
    for r in res:
        for k, v in r['contracts'].items(): contracts[k] = contracts.get(k, 0) + v
        assumed |= set(r['assumed']); loops.update(r['loops'])
        zt += r.get('stats', {}).get('z3_time', 0) + r.get('stats', {}).get('cvc5_time', 0) + sum(o[5] for o in r['obls'])
    samples = []
    for r in res[:6]:
        for o in [o for o in r['obls'] if o[1] in ('post', 'inv')][:3]: samples.append('%s: %s -> %s by %s' % (r['task'], o[0], o[3], o[4]))
    for r in nres: samples += ['%s %s' % (r['oracle'], s) for s in r['samples'][:2]]
    cov = dict(evaluations=sum(r['cases'] for r in nres), distinct_nontrivial=sum(r['nontrivial'] for r in nres), samples=samples[:40],
               rule='native oracles: case i is generated from (seed, i) by the oracle\'s generator; non-trivial when it exercised the behaviour the property is about (each oracle counts it)')
    if tasks:
        cov.update(obligations=tot, discharged=ok, checker_cmd='python3-vt check.py %s' % pid,
                   trusted_base=['clang-18 front end and opt (sroa, early-cse, simplifycfg) produce IR with the meaning of the C source', 'dv/ verification-condition generator', 'z3', 'cvc5'] + P.get('trusted', []),
                   discharged_by=by_backend, solver_seconds=round(zt, 1), functions_under_contract=sorted(used), calls_replaced_by_contract=contracts, loops=loops,
                   tasks=[dict(task=r['task'], obligations=len(r['obls']), discharged=sum(1 for o in r['obls'] if o[3] == 'valid'), seconds=r['wall'], error=r['error']) for r in res],
                   obligations_left_to_the_bounded_check=bounded)
    cov['native_oracles'] = [dict(oracle=r['oracle'], planned=r['planned'], run=r['cases'], nontrivial=r['nontrivial'], sanitizers=r['sanitizers'], what=r['what'], label='bounded') for r in nres]
    if not tasks: cov['explanation'] = P.get('explanation', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof' if tasks else 'exploration'), coverage=cov, assumptions=sorted(assumed), wall_s=round(time.time() - t0, 2), violations=len(failed) + len(new))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged%s, %d native cases (%d non-trivial), %.1f s' % (pid, 'FAILED' if code else 'ok', ok, tot, ' (%d left to the bounded check)' % len(bounded) if bounded else '', cov['evaluations'], cov['distinct_nontrivial'], ev['wall_s']))
    return code


def replay_case(args):
    tree = build.Tree()
    n = Native(tree)
    name, orc, seed, case = args
    exe = n.build(name, True)
    p = subprocess.run([exe, orc, seed, case, str(int(case) + 1), '1'], env=n.env(), cwd=tree.dir)
    return p.returncode
