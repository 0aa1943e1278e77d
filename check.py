#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough]

Decides one property by symbolic execution of the real code with an SMT solver (see DESIGN.md):
compiles the property's harnesses together with /repo's current sources to LLVM IR, explores every
path with /verif/engine/build/sx, replays every counterexample against the natively compiled code,
validates sample paths natively, and writes evidence/<id>.json."""
import argparse, json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'harness'))
REPO = os.environ.get('ADEVS_REPO', '/repo')
ENG = os.path.join(V, 'engine', 'build')
import registry

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace', **kw)

def die(msg):
    print('CHECK-ERROR ' + msg); sys.stdout.flush(); sys.exit(2)

def build_engine():
    r = sh(['make', '-j4', '-C', os.path.join(V, 'engine')], timeout=600)
    if r.returncode: die('engine build failed\n' + (r.stdout + r.stderr)[-3000:])

CF = ['-std=c++17', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w']
def incs(h): return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'engine'), '-I' + os.path.join(V, 'harness')] + ['-I' + x.replace('@V', V).replace('@R', REPO) for x in h.get('inc', [])]

class Run: pass

def prepare(h, tier, out):
    """compile the harness to bitcode and natively"""
    R = Run(); R.h = h; R.out = out; R.err = None
    os.makedirs(out)
    defs = h.get('defs', []) + h.get(tier, {}).get('defs', [])
    src = os.path.join(V, 'harness', h['src']); lib = os.path.join(REPO, 'src', 'adevs.cpp')
    opt = h.get('opt', '-O1')
    jobs = [ ['clang++-18', opt, '-g1', '-emit-llvm', '-c'] + CF + incs(h) + defs + [src, '-o', out + '/h.bc'],
             ['clang++-18', opt, '-g1', '-emit-llvm', '-c'] + CF + incs(h) + defs + [lib, '-o', out + '/a.bc'],
             ['clang++-18', '-std=c++17', '-O1', '-g', '-w', '-fnew-alignment=8', '-ffp-contract=off'] + incs(h) + defs + [src, lib, ENG + '/sx_native.o', '-o', out + '/native', '-lpthread'] ]
    with ThreadPoolExecutor(3) as ex: rs = list(ex.map(lambda c: sh(c, timeout=300), jobs))
    for c, r in zip(jobs, rs):
        if r.returncode: R.err = 'compilation failed: ' + ' '.join(c) + '\n' + r.stderr[-3000:]; return R
    r = sh(['llvm-link-18', out + '/h.bc', out + '/a.bc', ENG + '/rtlib.bc', '-o', out + '/l.bc'])
    if r.returncode: R.err = 'llvm-link failed: ' + r.stderr[-2000:]
    R.native_cmd = jobs[2]
    return R

def explore(R, tier, limit, jobs):
    h = R.h; o = h.get(tier, {})
    cmd = [ENG + '/sx', R.out + '/l.bc', '--out', R.out, '--repo', REPO, '--jobs', str(jobs), '--time', str(int(limit))] + h.get('opts', []) + o.get('opts', [])
    r = sh(cmd, timeout=limit + 60)
    R.rc = r.returncode
    try: R.res = json.load(open(R.out + '/result.json'))
    except Exception as e: R.err = 'engine produced no result: %s %s' % (e, (r.stdout + r.stderr)[-1000:]); return
    if R.res['error']: R.err = 'engine: ' + R.res['error']

def replay(R, f):
    """does the recorded counterexample fail in the natively compiled real code?"""
    txt = open(f).read(); kind = re.search(r'# kind (\S+)', txt).group(1)
    if '# schedule' in txt: return replay_par(R, f)
    r = sh([R.out + '/native', f], timeout=120)
    if 10 <= r.returncode <= 14 or r.returncode < 0: return 'native run: ' + (r.stderr.strip().split('\n') or [''])[-1]
    if kind in ('uninit', 'memory'):
        r = sh(['valgrind', '-q', '--error-exitcode=99', R.out + '/native', f], timeout=300)
        if r.returncode == 99 or 10 <= r.returncode <= 14: return 'valgrind: ' + (r.stderr.strip().split('\n') or [''])[0]
        a = R.out + '/native_asan'
        if not os.path.exists(a):
            c = [x if x != R.out + '/native' else a for x in R.native_cmd]; c = [x for x in c if not x.endswith('sx_native.o')]
            c += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-DSX_SYSTEM_NEW', os.path.join(V, 'engine', 'sx_native.cpp')]
            sh(c, timeout=300)
        r = sh([a, f], timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1'))
        if r.returncode not in (0, 15, 16): 
            m = re.search(r'ERROR: .*|runtime error: .*', r.stderr); return 'sanitizer: ' + (m.group(0) if m else 'exit %d' % r.returncode)
    return None

def replay_par(R, f):
    """A counterexample with two threads: the real code is compiled with the instrumentation of the thread sanitizer (not its
    runtime), so that sx_native can switch threads at accesses to global memory; up to 2 switches are tried everywhere."""
    a = R.out + '/native_par'
    if not os.path.exists(a):
        c = R.native_cmd; objs = []
        for i, s in enumerate(x for x in c if x.endswith('.cpp')):
            o = '%s/par%d.o' % (R.out, i); objs.append(o)
            flags = [x for x in c[1:c.index('-o')] if not x.endswith(('.cpp', '.o'))]
            r = sh(['clang++-18'] + flags + ['-fsanitize=thread', '-c', s, '-o', o], timeout=300)
            if r.returncode: return None
        r = sh(['clang++-18', '-O1', '-w', '-std=c++17', '-DSX_PAR', os.path.join(V, 'engine', 'sx_native.cpp')] + objs + ['-o', a, '-lpthread', '-ldl'], timeout=300)
        if r.returncode: print(r.stderr[-500:]); return None
    tries = [(s,) for s in (0, 1)] + [(s, i) for s in (0, 1) for i in range(1, 41)] + [(s, i, j) for s in (0, 1) for j in range(2, 31) for i in range(1, j)]
    for t in tries:
        s = ','.join(map(str, t))
        try: r = sh([a, f], timeout=30, env=dict(os.environ, SX_SCHED=s))
        except subprocess.TimeoutExpired: continue
        if 10 <= r.returncode <= 13 or r.returncode < 0: return 'native run, threads switched at %s: %s' % (s, (r.stderr.strip().split('\n') or [''])[-1])
    return None

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('--property', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None); ap.add_argument('--keep', action='store_true'); a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time(); spec = registry.CHECKS[pid]
    budget = 800 if tier == 'quick' else 3600 * 4
    build_engine()
    base = os.path.join(V, 'out', pid + '-' + tier)
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    hs = [h for h in spec['harnesses'] if (tier == 'thorough' or not h.get('thorough_only')) and (not a.only or a.only in h['name'])]
    pool = ThreadPoolExecutor(3); runs = [pool.submit(prepare, h, tier, os.path.join(base, h['name'])) for h in hs]
    viols = []; errs = []; known = load_known(pid); tot = dict(paths=0, queries=0, sat=0, unsat=0, solver=0.0, forks=0, branches=0, instr=0, asym=0, acon=0, assumed=0, valid=0, bad=0, maxq=0.0)
    functions = set(); samples = []; per = []; missing = []; knownhit = []
    for fut in runs:
        R = fut.result(); h = R.h
        if not R.err:
            left = budget - (time.time() - t0) - 40
            if left < 20: R.err = 'no time left'
            else: explore(R, tier, left, 8)
        res = getattr(R, 'res', None)
        if res:
            for k, j in (('paths','paths'),('queries','queries'),('sat','sat'),('unsat','unsat'),('forks','forks'),('branches','symbolic_branches'),('instr','instructions'),('asym','asserts_symbolic'),('acon','asserts_concrete'),('assumed','assumed_away')): tot[k] += res[j]
            tot['solver'] += res['solver_s']; tot['maxq'] = max(tot['maxq'], res['max_query_s'])
            functions |= set(res['functions'])
        nv = 0
        for f in sorted(glob.glob(R.out + '/violation-*.replay')):
            txt = open(f).read(); msg = re.search(r'# msg (.*)', txt).group(1); at = re.search(r'# at (.*)', txt).group(1)
            w = replay(R, f)
            if w is None: errs.append('%s: counterexample not reproduced natively: %s (%s)' % (h['name'], msg, at[:300])); continue
            k = [x for x in known if x['harness'] == h['name'] and x['match'] in msg]
            if k: knownhit.append(k[0]['text']); continue
            keep = os.path.join(base, '%s-%s' % (h['name'], os.path.basename(f))); 
            open(keep, 'w').write('# property %s harness %s %s\n# native: %s\n' % (pid, h['src'], ' '.join(h.get('defs', []) + h.get(tier, {}).get('defs', [])), w) + txt)
            viols.append((keep, msg, at, w)); nv += 1
        if R.err: errs.append(h['name'] + ': ' + R.err)
        if res and not nv and not R.err:
            for l in h.get('reach', []):
                if not res['reach'].get(l): missing.append('%s: label %s not reached' % (h['name'], l))
            if res['paths'] == 0: missing.append('%s: no complete path' % h['name'])
            sf = R.out + '/samples.txt'
            if os.path.exists(sf):
                v = sh([R.out + '/native', '--samples', sf], timeout=300); m = re.search(r'validated (\d+) of (\d+)', v.stdout)
                if m: tot['valid'] += int(m.group(1)); tot['bad'] += int(m.group(2)) - int(m.group(1))
                if not m or m.group(1) != m.group(2): errs.append(h['name'] + ': sample paths disagree with the native run: ' + v.stdout[-300:])
                txt = open(sf).read().split('END\n'); 
                for s in (txt[0], txt[len(txt) // 2]):
                    if s.strip(): samples.append({'harness': h['name'], 'inputs': [l for l in s.split('\n') if l and not l.startswith(('PATH', 'T '))][:60], 'trace': [l[2:] for l in s.split('\n') if l.startswith('T ')][:40]})
        if res: per.append({'harness': h['name'], 'source': 'harness/' + h['src'], 'bound': h.get(tier, {}).get('bound', h.get('bound', '')), 'paths': res['paths'], 'assumed_away': res['assumed_away'], 'queries': res['queries'], 'solver_s': res['solver_s'], 'wall_s': res['wall_s'], 'max_path_instructions': res['max_path_instructions'], 'reach': res['reach'], 'repo_lines': '%d of %d compiled lines executed' % (res['lines_hit'], res['lines_total'])})
        for f in ('h.bc', 'a.bc', 'l.bc', 'lines.txt', 'functions.txt'):
            try: os.remove(os.path.join(R.out, f))
            except OSError: pass
        if not nv and not a.keep:
            for f in ('native', 'native_asan'):
                try: os.remove(os.path.join(R.out, f))
                except OSError: pass
    if not samples: samples = [{'note': 'every path of this run carries a rounding-error variable or an interleaving; inputs are in out/'}]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viols),
          'coverage': {'states': tot['paths'], 'transitions': tot['branches'] + tot['forks'], 'traces_validated_against_impl': tot['valid'], 'samples': samples[:8],
                       'technique': 'bounded symbolic execution of the LLVM IR of the real code; every feasible path within the bounds, z3 decides each branch and assertion',
                       'states_are': 'feasible symbolic paths completed, each standing for all inputs satisfying its path condition', 'transitions_are': 'symbolic branch decisions and forks',
                       'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'solver_s': round(tot['solver'], 3), 'max_query_s': tot['maxq'],
                       'assertions_decided_by_solver': tot['asym'], 'assertions_decided_by_constant_folding': tot['acon'], 'paths_cut_by_assumptions': tot['assumed'], 'instructions': tot['instr'],
                       'functions_encoded': sorted(functions), 'harnesses': per, 'bounds': [p['harness'] + ': ' + p['bound'] for p in per], 'exhaustive': not errs and not missing},
          'assumptions': spec.get('assumptions', []) + registry.COMMON_ASSUMPTIONS}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in sorted(set(knownhit)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s %s: %d paths, %d queries, %.1f s solver, %.1f s wall, %d sample paths validated natively' % (pid, tier, tot['paths'], tot['queries'], tot['solver'], time.time() - t0, tot['valid']))
    if viols:
        for keep, msg, at, w in viols[:5]: print('  %s | at %s | %s' % (msg, at[:400], w))
        print('VIOLATION property=%s replay=%s' % (pid, viols[0][0])); sys.stdout.flush(); sys.exit(1)
    if errs or missing: die('\n'.join(errs + missing))
    if not a.keep: 
        for fut in runs: shutil.rmtree(fut.result().out, ignore_errors=True)
    sys.exit(0)

def load_known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) match="([^"]*)" (.*)', l)
            if m and m.group(1) == pid: out.append({'harness': m.group(2), 'match': m.group(3), 'text': m.group(4)})
    return out

if __name__ == '__main__': main()
