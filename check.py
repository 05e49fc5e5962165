#!/usr/bin/env python3
"""Decide one property: python3 check.py C05   (VERIF_TIER=quick|thorough, VERIF_SEED)

Builds the executor, compiles the property's harnesses together with /repo's current source to LLVM bitcode, runs every
harness symbolically to the end, replays what it finds against native builds, and writes evidence/<property>.json.
`check.py --setup` only builds."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SCX_REPO', '/repo')
TARGET = os.path.join(HERE, '.target')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'): ENV.pop(k, None)
JOBS = max(2, min(8, os.cpu_count() or 2))
DEADLINE = float(os.environ.get('SCX_DEADLINE', 3 * 3600 if THOROUGH else 800))
T0 = time.time()
NAMES = {p: p.lower() for p in [f'C{i:02d}' for i in range(1, 26)]}

class Broken(Exception): pass
def say(*a): print(*a, file=sys.stderr, flush=True)

# ---- building --------------------------------------------------------------------------------------------------------
def source_hash(extra):
    h = hashlib.sha256()
    roots = [os.path.join(HERE, 'harness'), os.path.join(HERE, 'engine')] + [REPO]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.target', 'node_modules'))
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml', '.lock')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(extra.encode())
    return h.hexdigest()

def cargo(args, cwd, target, env=None):
    e = dict(ENV, CARGO_TARGET_DIR=target, **(env or {}))
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode: raise Broken('build failed: cargo ' + ' '.join(args) + '\n' + r.stderr[-6000:])

def fresh(target, stamp):
    """True if this target directory was built from the present sources; else forget our crates' build state in it."""
    f = os.path.join(target, 'stamp')
    if os.path.exists(f) and open(f).read() == stamp: return True
    for p in glob.glob(os.path.join(target, '*', '.fingerprint', 'scale-decode*')) + glob.glob(os.path.join(target, '*', '.fingerprint', 'scxh*')):
        shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(os.path.join(target, '*', 'deps', 'scxh*')): os.remove(p)
    if os.path.exists(f): os.remove(f)
    return False
def done(target, stamp): open(os.path.join(target, 'stamp'), 'w').write(stamp)

def build_engine():
    cargo(['build', '--release', '--offline'], os.path.join(HERE, 'engine'), os.path.join(TARGET, 'engine'))
    return os.path.join(TARGET, 'engine', 'release', 'scx')

def build_bitcode(feature, profile):
    target, stamp = os.path.join(TARGET, 'bc-' + profile), source_hash(feature + profile)
    os.makedirs(target, exist_ok=True)
    out = os.path.join(target, feature + '.bc')
    if fresh(target, stamp) and os.path.exists(out): return out
    cargo(['rustc', '--offline', '--lib', '--profile', profile, '--crate-type', 'cdylib', '--features', feature, '--', '-C', 'save-temps', '--emit=llvm-bc'],
          os.path.join(HERE, 'harness'), target)
    c = [f for f in glob.glob(os.path.join(target, profile, 'deps', 'scxh*.bc')) if 'rcgu' not in f]
    if len(c) != 1: raise Broken(f'expected one bitcode module, found {c}')
    shutil.copyfile(c[0], out)
    for p in glob.glob(os.path.join(target, profile, 'deps', 'scxh*')): os.remove(p)
    done(target, stamp)
    return out

def build_native(feature, profile):
    target, stamp = os.path.join(TARGET, 'native-' + profile), source_hash(feature + profile)
    os.makedirs(target, exist_ok=True)
    out = os.path.join(target, 'debug' if profile == 'dev' else profile, 'replay')
    if fresh(target, stamp) and os.path.exists(out): return out
    cargo(['build', '--offline', '--bin', 'replay', '--profile', profile, '--features', 'native,' + feature], os.path.join(HERE, 'harness'), target)
    done(target, stamp)
    return out

# ---- native replay ---------------------------------------------------------------------------------------------------
def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f
def replay_many(binary, lines, timeout=300):
    """Result line per request line; a request on which the process dies or hangs gets CRASH/HANG."""
    res, i = [], 0
    while i < len(lines):
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limits(6 << 30))
        try:
            o, _ = p.communicate('\n'.join(lines[i:]) + '\n', timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); o, _ = p.communicate()
            got = (o or '').splitlines()
            res += got; i += len(got)
            if i < len(lines): res.append('HANG'); i += 1
            continue
        got = o.splitlines()
        res += got; i += len(got)
        if i < len(lines): res.append(f'CRASH {p.returncode}'); i += 1
    return res

def confirm(task, v, natives):
    """Does a counterexample show natively?"""
    line = f"{task['h']} {task['raw']} {v['input']}"
    out = {}
    for name, b in natives.items():
        try: r = replay_many(b, [line], timeout=20)[0]
        except Exception as e: r = f'ERROR {e}'
        out[name] = r
    bad = [r for r in out.values() if r.startswith(('FAIL', 'PANIC', 'CRASH', 'HANG'))]
    return bool(bad), out

KNOWN = json.load(open(os.path.join(HERE, 'known-findings.json')))['findings']
# ---- the symbolic runs -----------------------------------------------------------------------------------------------
STOP = threading.Event()
PROCS = set()
def run_task(scx, bc, t, dump):
    if STOP.is_set(): return dict(t, skipped=True)
    left = DEADLINE - (time.time() - T0)
    if left < 5: return dict(t, error='out of time before it started')
    os.makedirs(os.path.join(TARGET, 'out'), exist_ok=True)
    out = os.path.join(TARGET, 'out', f"{t['h']}-{t['p']}-{t['cfg']}.json")
    if os.path.exists(out): os.remove(out)
    cmd = [scx, 'run', bc[t['cfg']], t['h'], '--param', str(t['raw']), '--out', out, '--seconds', str(left), '--samples', '60' if not THOROUGH else '200',
           '--query-ms', '60000', '--paths', '20000000', '--max-violations', '6', '--linger', '20']
    for k in KNOWN:
        if k['harness'] == t['h']: cmd += ['--expected', k['message']]
    for o in t['own'].split():
        k, x = o.split('='); cmd += ['--' + k, x]
    if dump:
        d = os.path.join(dump, f"{t['h']}-{t['p']}-{t['cfg']}"); os.makedirs(d, exist_ok=True)
        cmd += ['--dump', d, '--dump-every', '7' if not THOROUGH else '3']
    s = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limits(20 << 30))
    PROCS.add(p)
    try: _, err = p.communicate(timeout=left + 30)
    except subprocess.TimeoutExpired: p.kill(); _, err = p.communicate(); err = 'timed out ' + (err or '')
    PROCS.discard(p)
    if STOP.is_set() and not os.path.exists(out): return dict(t, skipped=True)
    if not os.path.exists(out): return dict(t, error=f'executor ended with {p.returncode}: ' + '; '.join((err or '').splitlines()[:3])[:500])
    r = dict(t, res=json.load(open(out)), wall=time.time() - s)
    os.remove(out)
    return r

def solve_again(dump, budget):
    """Put the dumped queries to two other solvers."""
    files = sorted(glob.glob(os.path.join(dump, '*', '*.smt2')))
    step = max(1, len(files) // budget)
    files = files[SEED % step::step][:budget]
    res = dict(queries=len(files), agreed={}, unknown={}, disagreed=[])
    def one(f):
        o = {}
        for name, cmd in (('z3-new', ['z3-new', '-T:20', f]), ('cvc5', ['cvc5', '--tlimit=20000', f])):
            if not shutil.which(cmd[0]): continue
            r = subprocess.run(cmd, capture_output=True, text=True)
            a = r.stdout.split()
            o[name] = a[0] if a and a[0] in ('sat', 'unsat') and '(error' not in r.stdout else 'unknown'
        return f, o
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f, o in ex.map(one, files):
            want = f.split('.')[-2]
            for name, a in o.items():
                k = 'agreed' if a == want else 'unknown'
                if a not in (want, 'unknown'): res['disagreed'].append(f'{name} {a}, Z3 {want}: {os.path.basename(f)}')
                else: res[k][name] = res[k].get(name, 0) + 1
    return res

IDENT = re.compile(r'\d+')
def plain(mangled):
    """The path inside a v0-mangled name, roughly."""
    out, i, s = [], 0, mangled
    while i < len(s):
        m = IDENT.match(s, i)
        if m:
            n = int(m.group()); j = m.end()
            if j < len(s) and s[j] == '_': j += 1
            w = s[j:j + n]
            if 1 < n < 80 and len(w) == n and re.match(r'^[A-Za-z_]\w*$', w): out.append(w); i = j + n; continue
        i += 1
    return out
def function_names(mangled):
    names = set()
    for m in mangled:
        p = plain(m)
        if 'scale_decode' in p:
            q = p[p.index('scale_decode'):]
            q = [x for x in q if x not in ('scale_decode', 'scxh', 'core', 'alloc') ]
            lead = m.startswith('_RNvX') or m.startswith('_RINvX')
            names.add('::'.join(q[:5]))
    return sorted(names)

def main(prop):
    feature = NAMES[prop]
    known = KNOWN
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, 'lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    cfgs = ['release'] + (['plain'] if THOROUGH else [])
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fb = {c: ex.submit(build_bitcode, feature, c) for c in cfgs}
        fn = {p: ex.submit(build_native, feature, p) for p in ('dev', 'native')}
        scx, bc, natives = fe.result(), {c: f.result() for c, f in fb.items()}, {p: f.result() for p, f in fn.items()}
    t_build = time.time() - T0
    hs = [h for h in json.loads(subprocess.run([natives['dev'], '--list'], capture_output=True, text=True, check=True).stdout) if h['property'] == prop]
    if not hs: raise Broken('no harnesses')
    selftest = subprocess.run([scx, 'selftest', '--n', '20000' if THOROUGH else '2000', '--seed', str(SEED)], capture_output=True, text=True)
    if selftest.returncode: raise Broken('executor self-test failed: ' + selftest.stderr[-500:])
    tasks = [dict(h=h['name'], p=p, cfg=c, raw=p + ((1 << 32) if THOROUGH else 0), own=h['own'])
             for c in cfgs for h in hs for p in range(h['deep_params'] if THOROUGH else h['params'])]
    dump = os.path.join(TARGET, 'smt'); shutil.rmtree(dump, ignore_errors=True); os.makedirs(dump)
    results, confirmed, unconfirmed, seen_known, errors = [], [], [], {}, []
    def is_known(task, v):
        for k in known:
            if k['property'] == prop and k['harness'] == task['h'] and k['kind'] == v['kind'] and k['message'] in v['msg']: return k
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(run_task, scx, bc, t, dump) for t in tasks]
        for f in cf.as_completed(fs):
            r = f.result()
            results.append(r)
            if 'error' in r: errors.append(f"{r['h']} {r['p']} ({r['cfg']}): {r['error']}"); continue
            if r.get('skipped'): continue
            j = r['res']
            say(f"[{time.time()-T0:6.1f}] {r['h']}({r['p']}) {r['cfg']}: {j['paths']} paths, {j['queries']} queries, {r['wall']:.1f}s" + (f", INCOMPLETE {j['incomplete']}" if j['incomplete'] else '') + (f", {j['violation_paths']} violating" if j['violation_paths'] else ''))
            if j['incomplete']: errors.append(f"{r['h']} {r['p']} ({r['cfg']}): incomplete: {j['incomplete']}")
            for v in j['violations']:
                k = is_known(r, v)
                ok, how = confirm(r, v, natives)
                if not ok: unconfirmed.append((r, v, how)); continue
                if k: seen_known[k['id']] = (k, r, v, how); continue
                confirmed.append((r, v, how))
                # One is enough: stop what is still running.
                STOP.set()
                for p in list(PROCS):
                    try: p.kill()
                    except Exception: pass
                break
            if STOP.is_set(): pass
    # Every harness must have reached each of its witnesses.
    if not confirmed:
        for h in hs:
            got = set()
            for r in results:
                if r['h'] == h['name'] and 'res' in r: got |= set(r['res']['covers'])
            miss = [c for c in h['covers'] if c not in got]
            if miss: errors.append(f"{h['name']}: never reached {miss}")
        for k in known:
            if k['property'] == prop and k['id'] not in seen_known: errors.append(f"known finding {k['id']} did not show") if k.get('must_show', True) else None
    # Replay the sampled paths natively: same outcome, same outputs.
    lines, expect = [], []
    for r in results:
        if 'res' not in r: continue
        ss = r['res']['samples']
        n = 40 if THOROUGH else 12
        step = max(1, len(ss) // n)
        for s in ss[SEED % step::step][:n]:
            if s['end'] not in ('returned', 'assumed'): continue
            lines.append(f"{r['h']} {r['raw']} {s['input']}"); expect.append(s)
    validated, mismatches, samples = 0, [], []
    for name, b in natives.items():
        for l, s, g in zip(lines, expect, replay_many(b, lines, timeout=120)):
            ok = g == 'ASSUMED' if s['end'] == 'assumed' else g == ('OK ' + s['out'])
            if ok: validated += 1
            else: mismatches.append(f'{name}: {l}: executor {s["end"]} {s["out"]}, native {g}')
    for l, s in list(zip(lines, expect))[:: max(1, len(lines) // 12)][:12]:
        samples.append(dict(run=l, out=s['out'], path_conditions=s['conds'], instructions=s['steps']))
    cross = solve_again(dump, 400 if THOROUGH else 24)
    if cross['disagreed']: errors.append('solvers disagree: ' + '; '.join(cross['disagreed'][:3]))
    if mismatches and not confirmed: errors.append('native replay disagrees with the executor: ' + '; '.join(mismatches[:3]))
    res = [r['res'] for r in results if 'res' in r]
    tot = lambda k: sum(j[k] for j in res)
    lines_hit = {}
    for j in res:
        for f, l in j['lines'].items():
            if f.startswith(REPO + '/'): lines_hit.setdefault(f[len(REPO) + 1:], set()).update(l)
    fns = function_names(set(m for j in res for m in j['functions']))
    shutil.rmtree(dump, ignore_errors=True)
    ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking', wall_s=round(time.time() - T0, 1), violations=len(confirmed),
        coverage=dict(
            explanation='Symbolic execution of the compiled code (LLVM bitcode of /repo with the harnesses). states: complete paths, each standing for all inputs that satisfy its path condition; transitions: branches on symbolic data executed; every path was explored to its end.',
            states=tot('paths'), transitions=tot('symbolic_branches'), traces_validated_against_impl=validated, samples=samples,
            instructions=tot('steps'), forks=tot('forks'), queries_discharged=tot('queries'), queries_sat=tot('sat'), queries_unsat=tot('unsat'), queries_answered_from_cache=tot('query_cache_hits'),
            solver=res[0]['solver'] if res else '', solver_s=round(tot('solver_s'), 2), slowest_query_ms=max([j['max_query_ms'] for j in res] or [0]),
            symbolic_executions=len(res), build_s=round(t_build, 1),
            harnesses=[dict(name=h['name'], bounds=h['bounds'], shapes=h['deep_params'] if THOROUGH else h['params'],
                            paths=sum(r['res']['paths'] for r in results if r['h'] == h['name'] and 'res' in r),
                            most_input_bytes=max([r['res']['input_bytes'] for r in results if r['h'] == h['name'] and 'res' in r] or [0]),
                            witnesses={c: sum(r['res']['covers'].get(c, {'n': 0})['n'] for r in results if r['h'] == h['name'] and 'res' in r) for c in h['covers']}) for h in hs],
            functions_encoded=fns, repo_lines_executed={f: len(l) for f, l in sorted(lines_hit.items())},
            other_solvers=cross, executor_selftest=selftest.stdout.strip(), configurations=cfgs,
            known_findings=[k for k in seen_known], native_mismatches=mismatches[:5], exhaustive=False),
        assumptions=['Bounds are those listed per harness; nothing is claimed outside them.',
                     'Code as compiled by rustc stable at opt-level 1 for x86-64; the optimiser and the executor are trusted, the latter checked by replaying sampled paths natively.',
                     'Allocation never fails; decimal formatting of symbolic integers in error messages is replaced by the empty string.'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k, r, v, how in seen_known.values(): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if confirmed:
        r, v, how = confirmed[0]
        path = os.path.join(HERE, 'evidence', f'{prop}.replay.json')
        json.dump(dict(property=prop, harness=r['h'], param=r['raw'], bounds=[h['bounds'] for h in hs if h['name'] == r['h']], input=v['input'], kind=v['kind'], message=v['msg'], at=v['at'], trace=v['trace'], native=how,
                       command=f"echo '{r['h']} {r['raw']} {v['input']}' | {natives['dev']}"), open(path, 'w'), indent=1)
        say(f"{r['h']}({r['p']}) input {v['input']}: {v['msg']}; natively: {how}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    for r, v, how in unconfirmed: errors.append(f"{r['h']}({r['p']}): counterexample {v['input']} ({v['kind']}: {v['msg']}) does not show natively: {how}")
    if errors:
        for e in errors[:20]: say('ERROR:', e)
        return 2
    print(f"{prop} held: {tot('paths')} paths, {tot('queries')} queries ({tot('solver_s'):.1f}s in the solver), {validated} traces validated, {time.time()-T0:.0f}s")
    return 0

def setup():
    """Warm the build directories: everything but our own crates is built once."""
    os.makedirs(TARGET, exist_ok=True)
    build_engine()
    with cf.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(build_bitcode, 'c05', 'release'), ex.submit(build_native, 'c05', 'dev'), ex.submit(build_native, 'c05', 'native')]: f.result()

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup': setup(); sys.exit(0)
        sys.exit(main(sys.argv[1]))
    except Broken as e:
        say('ERROR:', e); sys.exit(2)
