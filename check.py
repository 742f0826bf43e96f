#!/usr/bin/env python3
"""Driver: decides one property by solver-based symbolic execution of /repo's current sources.

  check.py ID [--tier quick|thorough] [--keep] [--only HARNESS]

Builds the engine, the LLVM-instrumented /repo sources and the harness, explores every path with
the solver, replays each counterexample (and a sample of solved paths) natively against
uninstrumented builds of the same sources, and writes evidence/ID.json.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
Z = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
B = os.path.join(V, 'build')
NJ = os.cpu_count() or 4
sys.path.insert(0, V)
from props import PROPS, GROUPS  # noqa: E402

PKGS = ['controller_interface', 'controller_manager', 'hardware_interface', 'joint_limits', 'transmission_interface']
INC = ['-I' + V + '/engine', '-I' + V + '/harness', '-I' + V + '/stubs/include', '-I' + B + '/gen'] + \
      ['-I%s/%s/include' % (REPO, p) for p in PKGS] + ['-isystem', '/usr/include/urdfdom']
CXX = ['-std=c++20', '-O1', '-g0', '-w', '-ffp-contract=off', '-fno-math-errno', '-DVERIF_SYM=1', '-pthread']
SYMF = ['-fno-vectorize', '-fno-slp-vectorize', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
LIBS = ['-lpthread']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b'\0')
    return m.hexdigest()[:24]


_locks, _locks_guard = {}, threading.Lock()


def cached(key, suffix, make):
    """make(tmp) writes tmp; result is stored under its content key."""
    os.makedirs(B + '/obj', exist_ok=True)
    p = '%s/obj/%s%s' % (B, key, suffix)
    with _locks_guard:
        lock = _locks.setdefault(p, threading.Lock())
    with lock:
        if not os.path.exists(p):
            t = '%s.%d.tmp%s' % (p, os.getpid(), suffix)
            make(t)
            os.rename(t, p)
    return p


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def engine():
    e = V + '/engine/'
    src = h(*[rd(f) for f in sorted(glob.glob(e + '*'))])
    so = cached('pass' + h(src), '.so', lambda t: sh(
        ['clang++', '-O1', '-fPIC', '-shared', '-std=c++17', '-fno-rtti', '-I/usr/include/llvm-18',
         '-I/usr/lib/llvm-18/include', '-I/usr/include/llvm-c-18', e + 'SymPass.cpp', '-o', t]))
    return so, src


def rt(src):
    e = V + '/engine/'
    return cached('rt' + h(src), '.o', lambda t: sh(['clang++', '-O2', '-std=c++17', '-c', '-I' + Z + '/include', e + 'rt.cpp', '-o', t]))


def libc(src, so):
    e = V + '/engine/'
    return cached('libc' + h(src), '.o', lambda t: sh(
        ['clang', '-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fpass-plugin=' + so, '-c', e + 'libc_sym.c', '-o', t]))


def replayrt(src):
    return cached('replay' + h(src), '.o', lambda t: sh(['clang++', '-O1', '-std=c++17', '-c', V + '/engine/replay.cpp', '-o', t]))


def objkey(src, flags, extra):
    pre = subprocess.run(['clang++'] + CXX + flags + INC + ['-E', '-P', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise BuildError('preprocessing %s\n%s' % (src, pre.stderr.decode()[-6000:]))
    return h(pre.stdout, CXX, flags, extra, rd(V + '/harness/sim.syms'))


def compile_sym(src, flags, so, esrc):
    flags = SYMF + flags
    k = objkey(src, flags, esrc)
    fn = '%s/obj/%s.funcs' % (B, k)

    def mk(t):
        env = dict(os.environ, SYM_FUNCS=fn + '.tmp')
        if os.path.exists(fn + '.tmp'):
            os.remove(fn + '.tmp')
        sh(['clang++'] + CXX + flags + INC + ['-fpass-plugin=' + so, '-c', src, '-o', t], env=env)
        os.rename(fn + '.tmp', fn)
        sh(['objcopy', '--redefine-syms=' + V + '/harness/sim.syms', t])
    return cached(k, '.o', mk), fn


def compile_nat(src, flags):
    flags = ['-DVERIF_REPLAY=1'] + flags
    k = 'n' + objkey(src, flags, 'nat')

    def mk(t):
        sh(['clang++'] + CXX + flags + INC + ['-c', src, '-o', t])
        sh(['objcopy', '--redefine-syms=' + V + '/harness/sim.syms', t])
    return cached(k, '.o', mk)


def build(groups, native=False):
    """-> {group: binary}, set of function names encoded"""
    with _locks_guard:
        if 'gen' not in _locks:
            os.makedirs(B, exist_ok=True)
            sh([sys.executable, V + '/stubs/gen.py', REPO, B + '/gen'])
            _locks['gen'] = True
    out, funcs = {}, set()
    with cf.ThreadPoolExecutor(NJ) as ex:
        fe = ex.submit(engine)
        if native:
            so, esrc = fe.result()
            frt = [ex.submit(replayrt, esrc)]
        else:
            frt0 = ex.submit(lambda: rt(h(*[rd(f) for f in sorted(glob.glob(V + '/engine/*'))])))
            so, esrc = fe.result()
            frt = [frt0, ex.submit(libc, esrc, so)]
        jobs = {}
        for g in groups:
            G = GROUPS[g]
            js = []
            for s in G['repo']:
                js.append((REPO + '/' + s, G.get('flags', [])))
            for s in G['harness']:
                js.append((V + '/' + s, G.get('flags', [])))
            jobs[g] = [ex.submit(compile_nat, a, f) if native else ex.submit(compile_sym, a, f, so, esrc) for a, f in js]
        rts = [f.result() for f in frt]
        for g in groups:
            r = [j.result() for j in jobs[g]]
            objs = r if native else [x[0] for x in r]
            if not native:
                for x in r:
                    funcs |= set(rd(x[1]).decode().split('\n'))
            libs = GROUPS[g].get('libs', []) + LIBS
            link = (['clang++'] + objs + rts + libs) if native else \
                (['clang++'] + objs + rts + libs + ['-L' + Z + '/lib', '-lz3', '-Wl,-rpath,' + Z + '/lib'])
            out[g] = cached(('N' if native else 'B') + h(*[rd(o) for o in objs + rts], libs), '.bin', lambda t: sh(link + ['-o', t]))
    return out, funcs


def replay(binary, harness, infile, timeout=120):
    try:
        r = subprocess.run([binary, harness, infile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    o = r.stdout.decode(errors='replace')
    if r.returncode == 3:
        return 'assume', o
    if r.returncode == 0:
        return 'ok', o
    return 'violation', o


def known_findings(pid):
    res = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                d = json.loads(l)
                if d['property'] == pid:
                    res.append(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    if a.setup:
        os.makedirs(B, exist_ok=True)
        so, src = engine()
        rt(src), libc(src, so), replayrt(src)
        print('engine built')
        return
    pid, tier = a.id, a.tier
    P = PROPS[pid]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    runs = [r for r in P['runs'] if tier in r.get('tiers', ('quick', 'thorough')) and (not a.only or a.only == r['h'])]
    groups = sorted({r['g'] for r in runs})
    with cf.ThreadPoolExecutor(2) as ex:
        fn = ex.submit(build, groups, True)
        bins, funcs = build(groups)
        natbins = fn.result()[0]
    t_build = time.time() - t0
    vd = '%s/build/viol/%s' % (V, pid)
    shutil.rmtree(vd, ignore_errors=True)
    os.makedirs(vd)
    kn = known_findings(pid)
    klabels = ';'.join(sorted({k['label'] for k in kn}))
    total_budget = P.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    if a.budget:
        total_budget = a.budget
    results = []
    weight = sum(r.get('weight', 1) for r in runs)
    left_w, spent = weight, 0.0
    t1 = time.time()
    natbin = natbins.__getitem__
    violations, validated, disagree, printed_known = [], 0, [], []
    fatal = []
    for r in runs:
        w = r.get('weight', 1)
        rem = total_budget - (time.time() - t1)
        bud = max(20.0, rem * w / left_w, min(.5 * rem, 2.5 * rem * w / left_w))
        left_w -= w
        out = '%s/%s.json' % (vd, r['h'])
        o = dict(r.get('opts', {}))
        o.update(r.get(tier, {}))
        env = dict(os.environ)
        for k, v in o.pop('env', {}).items():
            env[k] = str(v)
        cmd = [bins[r['g']], '--harness', r['h'], '--out', out, '--viol', vd, '--jobs', str(NJ), '--budget', '%.0f' % bud]
        if klabels:
            cmd += ['--known', klabels]
        for k, v in o.items():
            cmd += ['--' + k] if v is True else ['--' + k, str(v)]
        env['VERIF_TIER'] = tier
        rr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if rr.returncode or not os.path.exists(out):
            fatal.append('%s: explorer failed (%d): %s' % (r['h'], rr.returncode, rr.stdout.decode(errors='replace')[-500:]))
            continue
        d = json.load(open(out))
        d['group'] = r['g']
        d['env'] = {k: v for k, v in r.get(tier, {}).get('env', {}).items()}
        d['expect_covers'] = r.get('covers', [])
        results.append(d)
        if a.v:
            print(json.dumps({k: d[k] for k in d if k not in ('samples', 'native', 'labels')}))
        # ---- validate sampled solved paths natively
        if os.environ.get('VERIF_NO_NATIVE') is None:
            nb = natbin(r['g'])
            os.environ.update({k: str(v) for k, v in r.get(tier, {}).get('env', {}).items()})
            for i, s in enumerate(d['samples']):
                sf = '%s/%s.sample%d.input' % (vd, r['h'], i)
                open(sf, 'w').write(s)
            with cf.ThreadPoolExecutor(NJ) as ex:
                rs = list(ex.map(lambda i: replay(nb, r['h'], '%s/%s.sample%d.input' % (vd, r['h'], i), 60), range(len(d['samples']))))
            for i, (st, o2) in enumerate(rs):
                if st in ('ok', 'assume'):
                    validated += 1
                elif st == 'violation':
                    # native run contradicts the symbolic verdict: a real failing run decides
                    m = re.search(r'REPLAY-VIOLATION (.*)', o2)
                    disagree.append((r, m.group(1) if m else 'crash', '%s/%s.sample%d.input' % (vd, r['h'], i)))
        # ---- confirm counterexamples on the real code
        for label, f in d['violations'].items():
            st, o2 = replay(natbin(r['g']), r['h'], f)
            conf = st == 'violation' or (st == 'timeout' and 'timeout' in label)
            d.setdefault('replays', {})[label] = st
            if conf:
                violations.append((r, label, f, o2))
            elif a.v:
                print('UNCONFIRMED', r['h'], label, st, o2[-300:])
    for r, label, f in disagree:
        violations.append((r, label, f, ''))
    # ---- report
    real = []
    for r, label, f, o2 in violations:
        m = re.search(r'REPLAY-VIOLATION (.*)', o2)
        k = [x for x in kn if x['label'] == label and x.get('harness', r['h']) == r['h']]
        if k:
            line = 'KNOWN-FINDING: property=%s %s' % (pid, k[0]['what'])
            if line not in printed_known:
                printed_known.append(line)
                print(line)
            continue
        real.append((r, label, f))
    # known findings are identified by label; they must still be printed when listed
    for k in kn:
        line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
        if line not in printed_known:
            printed_known.append(line)
            print(line)
    S = lambda k: sum(d[k] for d in results)  # noqa: E731
    dem = demangle(funcs)
    enc = sorted(x for x in dem if re.search(r'(hardware_interface|controller_manager|controller_interface|joint_limits|transmission_interface|ros2_control|semantic_components|mock_components)::', x) and not x.startswith('std::'))
    missing = [(d['harness'], c) for d in results for c in d['expect_covers'] if c not in d['covers']]
    incomplete = [d['harness'] for d in results if not d['complete']]
    bounds = P.get('bounds', '')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'assumptions': P.get('assumptions', []),
        'violations': len(real), 'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'states': S('paths'), 'transitions': S('branches'),
            'traces_validated_against_impl': validated,
            'samples': [{'harness': d['harness'], 'inputs': d['samples'][:2]} for d in results][:8] or ['none'],
            'exhaustive': not incomplete and not fatal,
            'explanation': 'states = symbolic paths of the real code fully explored (each stands for every input satisfying its path condition); '
                           'transitions = symbolic branch decisions on them; queries are SMT checks of branch flips and negated assertions.',
            'bounds': bounds, 'outside': P.get('outside', ''),
            'functions_encoded': len(enc), 'functions_sample': enc[:60],
            'repo_sources': sorted({s for g in groups for s in GROUPS[g]['repo']} | set(P.get('headers', []))),
            'queries': S('queries'), 'queries_unsat': S('unsat'), 'queries_sat': S('sat'), 'queries_unknown': S('unknown'),
            'queries_cached': S('cached'),
            'assertions_checked_symbolically': S('asserts_symbolic'), 'assertions_decided_concretely': S('asserts_concrete'),
            'assertion_negations_unsat': S('assert_negations_unsat'),
            'solver_s': round(S('solver_s'), 2), 'build_s': round(t_build, 2),
            'pinned_values': S('pins'), 'unsupported_ops': S('unsupported'), 'model_mismatches': S('mismatch'),
            'incomplete_harnesses': incomplete, 'missing_witnesses': missing, 'fatal': fatal,
            'known_findings': printed_known,
            'harnesses': [{k: d[k] for k in ('harness', 'complete', 'paths', 'branches', 'queries', 'unsat', 'sat', 'unknown', 'left', 'errors', 'errcodes', 'diverged', 'wall_s', 'labels', 'covers')} | {'violations': list(d['violations']), 'replays': d.get('replays', {})} for d in results],
        }}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    print('%s %s: %d harnesses, %d paths, %d queries (%d unsat, %d unknown), %.1fs solver, %d native validations, %.0fs total%s%s' % (
        pid, tier, len(results), S('paths'), S('queries'), S('unsat'), S('unknown'), S('solver_s'), validated, time.time() - t0,
        (' INCOMPLETE: ' + ','.join(incomplete)) if incomplete else '', (' MISSING WITNESS: %s' % missing) if missing else ''))
    for x in fatal:
        print('ERROR', x)
    for r, label, f in real:
        print('  %s: %s' % (r['h'], label))
    if real:
        print('VIOLATION property=%s replay=%s' % (pid, real[0][2]))
        sys.exit(1)
    if fatal:
        sys.exit(2)
    sys.exit(0)


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(sorted(names)), stdout=subprocess.PIPE, text=True)
    return set(r.stdout.split('\n'))


if __name__ == '__main__':
    try:
        main()
    except BuildError as e:
        print('BUILD ERROR', e)
        sys.exit(2)
