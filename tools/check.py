#!/usr/bin/env python3
"""Decide one property:  check.py PROPERTY [quick|thorough]

Builds the symbolic executor, the symbolic-execution build of std and the harness crates (which
compile /repo's current sources), executes every harness case symbolically, replays every
counterexample on V8 and writes evidence/PROPERTY.json.
Exit 0: no violation within the bounds.  Exit 1: VIOLATION line printed.  Exit 2: the check failed."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import PROPS, ASSUME
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, '.build'))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS'): ENV.pop(k, None)
WSYM = os.path.join(BUILD, 'wsym/release/wsym')
CPUS = min(8, os.cpu_count() or 8)
T0 = time.time()

class Broken(Exception): pass
def log(*a): print(f'[{time.time() - T0:6.1f}s]', *a, file=sys.stderr, flush=True)
def run(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0: raise Broken(f'{what} failed:\n{r.stdout[-6000:]}')
    return r.stdout
def build_wsym():
    run(['cargo', 'build', '--release', '--offline'], 'building wsym', cwd=os.path.join(ROOT, 'wsym'), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'wsym')))
def build_sysroot():
    return run([sys.executable, os.path.join(HERE, 'sysroot.py'), os.path.join(BUILD, 'std')], 'building std', env=ENV).strip().split('\n')[-1]
def build_harness(crate, sysroot):
    td = os.path.join(BUILD, crate)
    # cargo does not see that the standard library was rebuilt
    stamp, mark = open(os.path.join(BUILD, 'std', 'stamp')).read(), os.path.join(td, 'std-stamp')
    if not os.path.exists(mark) or open(mark).read() != stamp: shutil.rmtree(td, ignore_errors=True); os.makedirs(td); open(mark, 'w').write(stamp)
    run(['cargo', 'build', '--release', '--offline', '--locked', '--target', 'wasm32-unknown-unknown'], f'building harness {crate} from /repo',
        cwd=os.path.join(ROOT, 'harness', crate), env=dict(ENV, CARGO_TARGET_DIR=td, RUSTFLAGS=f'--sysroot {sysroot}'))
    return os.path.join(td, 'wasm32-unknown-unknown/release', f'h_{crate}.wasm')

def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('finding:') and f'property={pid} ' in l:
            m = re.match(r'finding: property=(\S+) harness=(\S+) case=(\S+) match=/(.*)/ -- (.*)$', l)
            if not m: raise Broken('malformed known-findings.txt line: ' + l)
            out.append(dict(harness=m[2], case=m[3], rx=re.compile(m[4]), text=m[5], seen=False))
    return out
def finding_for(findings, func, case, v):
    d = v['msg'] + ' | ' + ' '.join(f'{n}={x}' for n, _, x in v['inputs']) + ' | ' + ' '.join(f'{a}:{b}' for a, b in v.get('extra', []))
    for f in findings:
        if f['harness'] == func and f['case'] in ('*', str(case)) and f['rx'].search(d): return f
    return None

def replay(wasm, func, case, inputs, workdir):
    fd, p = tempfile.mkstemp(suffix='.json', dir=workdir); os.write(fd, json.dumps(inputs).encode()); os.close(fd)
    try: r = subprocess.run(['node', '--stack-size=4000', os.path.join(HERE, 'replay.mjs'), wasm, 'h_' + func, str(case), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, env=dict(ENV, WSYM=WSYM))
    except subprocess.TimeoutExpired: return dict(outcome='timeout', msg='replay timed out')
    finally: os.unlink(p)
    try: return json.loads(r.stdout.strip().split('\n')[-1])
    except Exception: return dict(outcome='unsupported', msg=(r.stderr or r.stdout)[-500:])

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True); ev_dir = os.path.join(ROOT, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    for f in os.listdir(ev_dir):
        if f.startswith(f'{pid}-replay'): os.unlink(os.path.join(ev_dir, f))
    work = tempfile.mkdtemp(prefix=f'check-{pid}-', dir=BUILD)
    try: return decide(pid, tier, seed, P, ev_dir, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(pid, tier, seed, P, ev_dir, work):
    findings = known_findings(pid)
    groups = [g for g in P['groups'] if tier in g.get('tiers', ('quick', 'thorough'))]
    crates = sorted({g['crate'] for g in groups})
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_wsym); b = ex.submit(build_sysroot); a.result(); sysroot = b.result()
    log('executor and std built')
    with cf.ThreadPoolExecutor(3) as ex: wasm = dict(zip(crates, ex.map(lambda c: build_harness(c, sysroot), crates)))
    t_build = time.time() - T0
    log('harnesses built from /repo:', ', '.join(crates))
    budget = P.get('budget', {}).get(tier, 420 if tier == 'quick' else 3600)
    jobs = []
    for c in crates:
        gs = [g for g in groups if g['crate'] == c]
        n = json.loads(run(['node', os.path.join(HERE, 'cases.mjs'), wasm[c]] + sorted({g['func'] for g in gs}), 'listing cases'))
        for g in gs:
            if n[g['func']] < 0: raise Broken(f"no harness {g['func']} in {c}")
            sel = g.get(tier, 'all')
            cases = list(range(n[g['func']])) if sel == 'all' else [k for k in sel if k < n[g['func']]]
            for k in cases: jobs.append((g, k))
    jobs.sort(key=lambda j: -j[0].get('cost', 1))
    stop = threading.Event(); lock = threading.Lock(); procs = set()
    results = []; violations = []; unconfirmed = []; incomplete = []; validated = []; mismatches = []
    deadline = time.time() + budget
    def job(j):
        g, k = j; name = f"{g['crate']}/{g['func']}/{k}"
        if stop.is_set(): return
        left = deadline - time.time()
        if left < 3:
            with lock: incomplete.append(f'{name}: not started within the time budget')
            return
        out = os.path.join(work, f"{g['crate']}-{g['func']}-{k}.json")
        limit = int(min(left, g.get('limit', {}).get(tier, 120 if tier == 'quick' else 1800)))
        kf = [f for f in findings if f['harness'] == g['func'] and f['case'] in ('*', str(k))]
        cmd = [WSYM, wasm[g['crate']], '--func', 'h_' + g['func'], '--case', str(k), '--limit', str(limit), '--timeout-ms', str(g.get('query_ms', 20000)), '--max-violations', '64' if kf else '2', '--out', out]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        with lock: procs.add(p)
        try: _, err = p.communicate(timeout=limit + 120)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            with lock: incomplete.append(f'{name}: stopped after {limit + 120} s')
            return
        finally:
            with lock: procs.discard(p)
        if stop.is_set(): return
        if p.returncode not in (0, 1) or not os.path.exists(out):
            if p.returncode in (-9, 137):
                with lock: incomplete.append(f'{name}: ended (out of memory)')
                return
            raise Broken(f'{name}: the executor failed ({p.returncode}): {err[-800:]}')
        d = json.load(open(out)); d['job'] = name; d['g'] = g['func']
        new = []
        for v in d['violations']:
            if 'harness: ' in v['msg']: raise Broken(f"{name}: {v['msg']}")  # a limit of this machinery, no verdict on the code
            f = finding_for(kf, g['func'], k, v)
            if f: f['seen'] = True; continue
            new.append(v)
        for v in new:
            r = replay(wasm[g['crate']], g['func'], k, v['inputs'], work)
            rec = dict(property=pid, harness=g['func'], crate=g['crate'], case=k, message=v['msg'], inputs=v['inputs'], detail=v['extra'], v8=r,
                       rerun=f".build/wsym/release/wsym .build/{g['crate']}/wasm32-unknown-unknown/release/h_{g['crate']}.wasm --func h_{g['func']} --case {k} --inputs " + ','.join(x for n, _, x in v['inputs'] if not n.startswith('byte:')) + ' --bytes ' + ','.join(n[5:] + '=' + x for n, _, x in v['inputs'] if n.startswith('byte:')))
            if r.get('outcome') == 'violation':
                with lock: violations.append(rec)
                stop.set()
                with lock:
                    for q in procs: q.kill()
                break
            with lock: unconfirmed.append(rec)
        for s in (d.get('samples') or [])[-(1 if tier == 'quick' else 4):] if not new else []:
            if not g.get('sample', True) or time.time() > deadline: break
            r = replay(wasm[g['crate']], g['func'], k, s, work)
            with lock:
                if r.get('outcome') in ('ok', 'panic-expected'): validated.append((name, s))
                else: mismatches.append((name, r, s))
        with lock:
            results.append(d)
            for m in d['incomplete']: incomplete.append(f'{name}: {m}')
            if d['unknown']: incomplete.append(f"{name}: {d['unknown']} solver queries undecided")
            if d['cut'] and not d['incomplete']: incomplete.append(f"{name}: {d['cut']} paths cut")
    with cf.ThreadPoolExecutor(CPUS) as ex:
        fs = [ex.submit(job, j) for j in jobs]
        err = None
        for f in cf.as_completed(fs):
            e = f.exception()
            if e and not err:
                err = e; stop.set()
                with lock:
                    for q in procs: q.kill()
        if err and not violations: raise err if isinstance(err, Broken) else Broken(f'{type(err).__name__}: {err}')
    wall = time.time() - T0
    S = lambda k: sum(d[k] for d in results)
    wit = {}
    for d in results:
        for k, n in d['witnesses'].items(): wit[f"{d['g']}: {k}"] = wit.get(f"{d['g']}: {k}", 0) + n
    fns = set()
    for d in results: fns.update(d['functions'])
    dem = subprocess.run(['c++filt'], input='\n'.join(sorted(fns)), stdout=subprocess.PIPE, text=True).stdout.split('\n') if fns and shutil.which('c++filt') else sorted(fns)
    repo_crates = P.get('crates', [])
    enc = sorted({re.sub(r'\[[0-9a-f]+\]', '', f) for f in dem if any(re.search(rf'\b{c}(\[[0-9a-f]+\])?::', f) for c in repo_crates)})
    cov = dict(states=S('paths'), transitions=S('instrs'), traces_validated_against_impl=len(validated),
               samples=[dict(job=n, inputs=[[a, x] for a, _, x in s][:60]) for n, s in validated[:6]] or [dict(job=d['job'], paths=d['paths']) for d in results[:6]],
               harness_cases=len(results), harness_cases_planned=len(jobs), forks=S('forks'), assertions_checked=S('checks'), assertions_with_symbolic_condition=S('checks_symbolic'),
               solver_queries=S('queries'), solver_queries_undecided=S('unknown'), solver_cache_hits=S('cache_hits'), solver_seconds=round(S('solver_ms') / 1000, 2), solver='z3 ' + (results[0]['z3'] if results else ''),
               programs_executed=S('programs'), functions_of_executed_programs=max([d.get('world_fns', 0) for d in results] or [0]), expected_panics=S('expected_panics'), infeasible_paths=S('infeasible'),
               witnesses=wit, functions_encoded=enc, functions_encoded_total=len(fns), bounds=P['bounds'], outside=P.get('outside', []), incomplete=sorted(incomplete)[:40], incomplete_count=len(incomplete),
               exhaustive=not incomplete and len(results) == len(jobs), build_seconds=round(t_build, 1),
               unit='states = execution paths of the compiled code (each covering every input that follows it); transitions = instructions executed symbolically')
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=ASSUME + P.get('assume', []), wall_s=round(wall, 1), violations=len(violations)), open(os.path.join(ev_dir, f'{pid}.json'), 'w'), indent=1)
    log(f"{len(results)}/{len(jobs)} cases, {cov['states']} paths, {cov['solver_queries']} queries ({cov['solver_seconds']} s), {len(validated)} replays agree, incomplete {len(incomplete)}")
    for i in sorted(incomplete)[:8]: log('incomplete:', i)
    if violations:
        for n, v in enumerate(violations[:3]):
            p = os.path.join(ev_dir, f'{pid}-replay{n}.json'); json.dump(v, open(p, 'w'), indent=1)
            log('violated:', v['harness'], v['case'], v['message'])
            print(f'VIOLATION property={pid} replay={p}', flush=True)
        return 1
    for f in findings:
        if f['seen']: print(f"KNOWN-FINDING: property={pid} {f['text']}", flush=True)
    if unconfirmed:
        json.dump(unconfirmed, open(os.path.join(ev_dir, f'{pid}-replay-unconfirmed.json'), 'w'), indent=1)
        u = unconfirmed[0]
        raise Broken(f"a counterexample did not reproduce on V8 (executor or stub is wrong): {u['harness']} case {u['case']}: {u['message']}: {u['v8']}")
    if mismatches: raise Broken(f'a completed path does not replay on V8: {mismatches[0]}'[:3000])
    if not incomplete:
        missing = [f"{g['func']}: {w}" for g in groups for w in g.get('witnesses', []) if f"{g['func']}: {w}" not in wit]
        if missing: raise Broken('vacuous: never reached ' + ', '.join(missing))
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Broken as e: print('ERROR:', e, file=sys.stderr); sys.exit(2)
