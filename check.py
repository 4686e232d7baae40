#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--scenario NAME] [--keep]
Builds the property's harnesses against the current tree ($SX_REPO, default /repo) and decides every scenario with symx."""
import os, sys, json, time, glob, subprocess, hashlib, shutil, fnmatch, re
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
try: import z3
except ImportError:
    if shutil.which('python3-vt') and not os.environ.get('SX_REEXEC'): os.environ['SX_REEXEC'] = '1'; os.execvp('python3-vt', ['python3-vt'] + sys.argv)
    raise
sys.path.insert(0, os.path.join(V, 'engine'))
REPO = os.environ.get('SX_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
DEFS = '-std=c++14 -w -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY'.split()
MPI = '/usr/lib/x86_64-linux-gnu/openmpi'
LIBS = ['-ltrilinos_' + x for x in 'epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore'.split()] + ['-L' + MPI + '/lib', '-lmpi_cxx', '-lmpi']
def incs(): return ['-include', V + '/engine/compat.hpp', '-I' + V + '/engine', '-I' + V + '/harness', '-I' + V + '/engine/overlay', '-I' + REPO + '/src', '-I/usr/include/trilinos', '-I' + MPI + '/include', '-I' + MPI + '/include/openmpi']
SYMF = '-O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-math-errno -D_GLIBCXX_EXTERN_TEMPLATE=0 -DSX_SYMBOLIC'.split()
NATF = '-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK -O1 -g1 -fsanitize=address -fno-sanitize-address-use-after-scope -fno-omit-frame-pointer'.split()

def sh(cmd, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[:3000]))
    return p.stdout.decode(errors='replace')
def digest(*files):
    h = hashlib.sha1()
    for f in files: h.update(open(f, 'rb').read())
    return h.hexdigest()[:12]
def build(prop, files, out):
    """returns [(symexe, natexe)] for each harness file"""
    os.makedirs(out, exist_ok=True)
    cache = os.path.join(V, 'build', 'engine'); os.makedirs(cache, exist_ok=True)
    plug = os.path.join(cache, 'sxpass_%s.so' % digest(V + '/engine/sxpass.cpp', V + '/engine/sxops.h'))
    rt = os.path.join(cache, 'sxrt_%s.o' % digest(V + '/engine/sxrt.cpp', V + '/engine/sxops.h', V + '/engine/sx.h'))
    nt = os.path.join(cache, 'sxn_%s.o' % digest(V + '/engine/sxnative.cpp', V + '/engine/sx.h'))
    def atomic(path, cmd):
        if os.path.exists(path): return
        t = path + '.%d.tmp' % os.getpid(); sh(cmd + ['-o', t]); os.rename(t, path)
    ex = ThreadPoolExecutor(8)
    fp = ex.submit(atomic, plug, [CLANG, '-std=c++17', '-O1', '-fPIC', '-shared', '-fno-rtti', '-I/usr/lib/llvm-18/include', V + '/engine/sxpass.cpp'])
    fr = ex.submit(atomic, rt, [CLANG, '-std=c++17', '-O2', '-fno-builtin', '-c', V + '/engine/sxrt.cpp'])
    fn = ex.submit(atomic, nt, ['g++', '-O1', '-g1', '-c', V + '/engine/sxnative.cpp'])
    def same(b, kind, pre, extra):
        """with SX_CACHE set: the object is reused when the preprocessed source, the flags and the plugin are unchanged"""
        if not os.environ.get('SX_CACHE'): return False
        h = hashlib.sha256(subprocess.run(pre, capture_output=True).stdout + repr(extra).encode()).hexdigest()
        k = b + '.%s.key' % kind
        if os.path.exists(b + '.' + kind) and os.path.exists(k) and open(k).read() == h: return True
        if os.path.exists(k): os.unlink(k)
        return k, h
    def keep(c):
        if c: open(c[0], 'w').write(c[1])
    def nat(f):
        b = os.path.join(out, os.path.basename(f)[:-4])
        fn.result(); c = same(b, 'nat', ['g++'] + DEFS + incs() + NATF + ['-E', f], [NATF, LIBS, nt])
        if c is True: return
        sh(['g++'] + DEFS + incs() + NATF + ['-c', f, '-o', b + '.nat.o'])
        sh(['g++', '-fsanitize=address', b + '.nat.o', nt, '-o', b + '.nat'] + LIBS); keep(c)
    def sym(f):
        b = os.path.join(out, os.path.basename(f)[:-4])
        c = same(b, 'sym', [CLANG] + DEFS + incs() + SYMF + ['-E', f], [SYMF, LIBS, rt, plug])
        if c is True: return
        sh([CLANG] + DEFS + incs() + SYMF + ['-fpass-plugin=' + plug, '-c', f, '-o', b + '.sym.o'], env=dict(os.environ, SX_REPO=REPO))
        sh([CLANG, b + '.sym.o', rt, '-o', b + '.sym'] + LIBS); keep(c)
    fs = [ex.submit(nat, f) for f in files]
    fp.result(); fr.result()
    fs += [ex.submit(sym, f) for f in files]
    for x in fs: x.result()
    ex.shutdown()
    return [(os.path.join(out, os.path.basename(f)[:-4] + '.sym'), os.path.join(out, os.path.basename(f)[:-4] + '.nat')) for f in files]

def one(a):
    import symx
    sx, nat, scn, o = a
    left = o['deadline'] - time.time()
    if left < 3: o = dict(o, budget=0.5, max_paths=1)
    elif left < o['budget']: o = dict(o, budget=left)
    return symx.run_scenario(sx, nat, scn, o)

def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        build('setup', [], os.path.join(V, 'build', 'setup')); return 0
    prop = args[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in args
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    if '--scenario' in args: only = args[args.index('--scenario') + 1]
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    files = sorted(glob.glob(os.path.join(V, 'harness', prop + '*.cpp')))
    if not files: print('no harness for', prop); return 2
    out = os.path.join(V, 'build', prop + ('' if REPO == '/repo' else '_' + hashlib.sha1(REPO.encode()).hexdigest()[:8]))
    if not os.environ.get('SX_CACHE'): shutil.rmtree(out, ignore_errors=True)
    try: exes = build(prop, files, out)
    except RuntimeError as e:
        print('BUILD ERROR', str(e)[:6000]); return 2
    tb = time.time() - t0
    optf = os.path.join(V, 'harness', prop + '.json')
    conf = json.load(open(optf)) if os.path.exists(optf) else {}
    budget = 240 if tier == 'quick' else 3000
    kf = json.load(open(os.path.join(V, 'known_findings.json'))) if os.path.exists(os.path.join(V, 'known_findings.json')) else {'findings': []}
    jobs = []
    for s, n in exes:
        for scn in sh([n, '--list'], env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0')).split():
            if only and not fnmatch.fnmatch(scn, only): continue
            o = dict(seed=seed, budget=budget, deadline=t0 + (660 if tier == 'quick' else 12000), max_paths=400 if tier == 'quick' else 4000, query_ms=8000 if tier == 'quick' else 60000, tmp=out)
            for pat, d in conf.get('opts', {}).items():
                if fnmatch.fnmatch(scn, pat): o.update(d)
            if tier != 'quick':
                for pat, d in conf.get('thorough', {}).items():
                    if fnmatch.fnmatch(scn, pat): o.update(d)
            o['known'] = [f['label'] for f in kf['findings'] if f['property'] == prop and fnmatch.fnmatch(scn, f['scenario'])]
            jobs.append((s, n, scn, o))
    jobs.sort(key=lambda j: -j[3].get('weight', 1))
    res = []; lost = []
    with ProcessPoolExecutor(8) as ex:
        fut = [ex.submit(one, j) for j in jobs]
        for j, f in zip(jobs, fut):
            try: res.append(f.result())
            except Exception as e:
                lost.append('%s: worker failed: %s' % (j[2], str(e)[:200]))
    viol = []; known = {}
    for r in res:
        for v in r['violations']:
            k = next((f for f in kf['findings'] if f['property'] == prop and fnmatch.fnmatch(v['scenario'], f['scenario']) and fnmatch.fnmatch(v['label'], f['label'])), None)
            if k: known[k['what']] = v
            else: viol.append(v)
    S = {}
    for r in res:
        for k, x in r['stats'].items(): S[k] = S.get(k, 0) + x
    cov = sorted(set(c for r in res for c in r['cov']))
    leaks = {}
    for r in res:
        for k, x in r['leaks'].items(): leaks[k] = leaks.get(k, 0) + x
    labels = sum(len(r['labels']) for r in res); reached = sum(1 for r in res for l in r['labels'].values() if l['reached_sat'])
    undec = ['%s: %s' % (r['scenario'], u) for r in res for u in r['undecided']] + lost
    desc = conf.get('assumptions', [])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
        assumptions=['IEEE doubles are modelled as real numbers: rounding, overflow, NaN and signed zero are outside the claim',
                     'double literals are read as the nearby short decimal, small-denominator rational or square root of one',
                     'Kokkos Serial execution; transcendental functions are interpreted by algebraic identities and basic axioms only',
                     'clang -O1 IR of the real source is taken as the semantics of the source; each explored path is cross-checked against the g++ build'] + desc,
        coverage=dict(states=S.get('paths', 0), transitions=S.get('branches', 0), traces_validated_against_impl=S.get('validated', 0),
            samples=[s for r in res for s in r['samples']][:6],
            scenarios=len(res), obligations_checked=S.get('checks', 0), obligations_proved=S.get('proved', 0), distinct_assertions=labels, assertions_reached_with_satisfiable_path=reached,
            solver_queries=S.get('queries', 0), unsat=S.get('unsat', 0), sat=S.get('sat', 0), unknown=S.get('unknown', 0), solver_s=round(S.get('solver_s', 0), 2), normalisation_s=round(S.get('nf_s', 0), 2),
            infeasible_branches_pruned=S.get('flips_unsat', 0), branch_flips_undecided=S.get('flips_unknown', 0), definedness_queries=S.get('domain_queries', 0), definedness_open=S.get('domain_open', 0),
            expression_nodes=S.get('nodes', 0), instructions_executed_symbolically=S.get('ops', 0), native_replays=S.get('native_runs', 0), build_s=round(tb, 1),
            functions_encoded=[c for c in cov if 'lambda' not in c and ':~' not in c][:400], functions_encoded_count=len(cov), concretised_or_opaque_calls=leaks,
            bounds={r['scenario']: (dict(inputs=len(r['inputs']), ranges=sorted(set('%g..%g' % tuple(v) for v in r['inputs'].values()))[:8], paths=r['stats']['paths'], dead=r['stats']['dead'], obligations=r['stats']['checks'], wall_s=round(r['wall'], 1))) for r in res},
            not_decided=undec[:50], notes=[n for r in res for n in r['notes']][:10], known_findings=sorted(known)))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if verbose:
        for r in sorted(res, key=lambda r: r['scenario']):
            st = r['stats']
            print('%-34s paths=%d dead=%d checks=%d proved=%d labels=%d/%d q=%d solver=%.1fs nf=%.1fs wall=%.1fs val=%d dom=%d/%d %s' % (r['scenario'], st['paths'], st['dead'], st['checks'], st['proved'], sum(1 for l in r['labels'].values() if l['reached_sat']), len(r['labels']), st['queries'], st['solver_s'], st['nf_s'], r['wall'], st['validated'], st['domain_open'], st['domain_queries'], ('UNDECIDED ' + str(r['undecided'][:6])) if r['undecided'] else ''))
            for n in r['notes'][:6]: print('      note:', n)
            if r['leaks']: print('      leaks:', dict(list(r['leaks'].items())[:5]))
    for w in sorted(known): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if undec: print('INCONCLUSIVE (not decided, not reported as violations): %d e.g. %s' % (len(undec), '; '.join(undec[:5])))
    if viol:
        rd = os.path.join(V, 'replay'); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(viol[:20]):
            p = os.path.join(rd, '%s_%d.json' % (prop, i))
            nat = next(n for s, n, c, o in jobs if c == v['scenario'])
            inp = os.path.join(rd, '%s_%d.in' % (prop, i))
            with open(inp, 'w') as f:
                for k, x in v['inputs'].items(): f.write('%s %s\n' % (k, x if isinstance(x, int) else repr(float(x))))
            v['replay_cmd'] = 'SX_INPUT=%s ASAN_OPTIONS=detect_leaks=0 %s %s' % (inp, nat, v['scenario'])
            json.dump(v, open(p, 'w'), indent=1)
            print('violated: %s / %s : %s' % (v['scenario'], v['label'], v['why']))
            print('   inputs: %s' % ', '.join('%s=%s' % kv for kv in list(v['inputs'].items())[:14]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if not res: print('NO ANSWER property=%s: no scenario completed' % prop); return 2
    print('OK property=%s: %d scenarios, %d paths, %d/%d obligations proved, %d queries, solver %.1fs, wall %.1fs' % (prop, len(res), S.get('paths', 0), S.get('proved', 0), S.get('checks', 0), S.get('queries', 0), S.get('solver_s', 0), time.time() - t0))
    return 0
if __name__ == '__main__': sys.exit(main())
