#!/usr/bin/env python3
"""Decides one property: check.py PXX [--tier quick|thorough] [--only ENTRY] [-v]
Compiles /repo's current sources to LLVM IR, executes the property's harnesses
symbolically (engine/symex), replays every counterexample against a native build
and writes evidence/PXX.json.   check.py --replay FILE re-runs a counterexample."""
import sys, os, json, subprocess, tempfile, shutil, time, glob, threading, signal, hashlib, resource
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin'))
CLANG, LINK, LLVMCONF = 'clang++-18', 'llvm-link-18', 'llvm-config-18'
NPROC = min(8, os.cpu_count() or 1)

class CheckError(Exception): pass
stop = threading.Event()
procs, plock = set(), threading.Lock()

def run(cmd, timeout=None, env=None, cwd=None):
    with plock:
        if stop.is_set(): raise CheckError('stopped')
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
        procs.add(p)
    try:
        try: out, err = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); rc = 'timeout'
    finally:
        with plock: procs.discard(p)
    return rc, out.decode('utf8', 'replace'), err.decode('utf8', 'replace')

def kill_all():
    with plock:
        stop.set()
        for p in procs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass

def must(cmd, what):
    rc, out, err = run(cmd, 600)
    if rc != 0: raise CheckError('%s failed (%s): %s\n%s' % (what, rc, ' '.join(cmd), (err or out)[-4000:]))

# ---------------------------------------------------------------- engine
def engine():
    src = sorted(glob.glob(VERIF + '/engine/*'))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    exe = VERIF + '/build/symex-' + h
    if os.path.exists(exe): return exe
    os.makedirs(VERIF + '/build', exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    flags = subprocess.check_output([LLVMCONF, '--cxxflags']).decode().replace('-fno-exceptions', '').split()
    libs = subprocess.check_output([LLVMCONF, '--ldflags', '--libs']).decode().split()
    must([CLANG, '-O2'] + flags + ['-fexceptions', '-Wno-misleading-indentation', VERIF + '/engine/symex.cpp', '-o', tmp] + libs + ['-lz3'], 'building the engine')
    os.rename(tmp, exe)
    return exe

# ---------------------------------------------------------------- builds
# configurations: how the library's sources and the harness are compiled
CONFIGS = {
    'std':  [],
    'raw':  ['RAW'],                    # unoptimised IR: no load is removed, UBSan traps kept as assertions
    'w16':  ['-fshort-wchar'],
    'w16u': ['-fshort-wchar', '-DWIN32', '-D_UNICODE'],
    'w16m': ['-fshort-wchar', '-DWIN32', '-D_MBCS'],
}
COMMON = ['-std=gnu++11', '-DNDEBUG', '-Wno-everything']
def includes(ver): return ['-I%s/source/bits%d' % (REPO, ver), '-I%s/source' % REPO, '-I%s/interface' % REPO]
def sources(ver):
    s = sorted(glob.glob(REPO + '/source/*.cxx')) + sorted(glob.glob(REPO + '/source/bits%d/*.cxx' % ver))
    if len(s) < 3: raise CheckError('library sources not found in ' + REPO)
    return s
def harness_defs(ver): return ['-I' + VERIF + '/rt', '-I' + VERIF + '/harness', '-I' + VERIF + '/data', '-DUNICODE_TABLE="unicode_v%d.h"' % ver] + (['-DUNICODE_PREV="unicode_v%d.h"' % (ver - 1)] if ver > 7 else [])

class Builder:
    def __init__(self, work, pool): self.work, self.pool, self.memo, self.lock = work, pool, {}, threading.Lock()
    def once(self, key, fn):
        with self.lock:
            f = self.memo.get(key)
            if f is None: f = self.memo[key] = self.pool.submit(fn)
        return f
    def bcflags(self, cfg):
        fl = [x for x in CONFIGS[cfg] if x != 'RAW']
        if 'RAW' in CONFIGS[cfg]: opt = ['-O1', '-Xclang', '-disable-llvm-passes', '-fsanitize=undefined', '-fsanitize-trap=all', '-fno-sanitize=vptr,function']
        else: opt = ['-O1', '-fno-vectorize', '-fno-slp-vectorize']
        return opt + fl + ['-gline-tables-only', '-D__NO_INLINE__', '-include', VERIF + '/rt/noextern.h', '-fno-pic', '-emit-llvm', '-c']
    def bc(self, src, ver, cfg, extra=()):
        out = '%s/%s-%d-%s.bc' % (self.work, os.path.basename(src), ver, cfg)
        must([CLANG] + COMMON + self.bcflags(cfg) + includes(ver) + list(extra) + [src, '-o', out], 'compiling ' + src)
        if cfg == 'raw':
            must(['opt-18', '-passes=function(sroa,simplifycfg),always-inline', out, '-o', out + '2'], 'opt'); return out + '2'
        return out
    def parts(self, harness, ver, cfg):
        fs = [self.once(('lib', s, ver, cfg), lambda s=s: self.bc(s, ver, cfg)) for s in sources(ver)]
        fs.append(self.once(('rt', cfg), lambda: self.bc(VERIF + '/rt/rt.cpp', 0 if cfg == 'raw' else ver, 'std' if cfg == 'raw' else cfg, ['-fno-builtin'])))
        fs.append(self.once(('h', harness, ver, cfg), lambda: self.bc('%s/harness/%s.cpp' % (VERIF, harness), ver, cfg, harness_defs(ver) + ['-I' + self.work])))
        return fs
    def linked(self, harness, ver, cfg):          # called from the main thread only
        fs = self.parts(harness, ver, cfg)
        def link():
            out = '%s/%s-%d-%s.all.bc' % (self.work, harness, ver, cfg)
            must([LINK] + [f.result() for f in fs] + ['-o', out], 'linking'); return out
        key = ('link', harness, ver, cfg)
        if key not in self.memo: self.memo[key] = ('pending', fs, link)
        return self.memo[key]
    def native(self, harness, entry, ver, cfg, kind):
        out = '%s/native-%s-%s-%d-%s-%s' % (self.work, harness, entry, ver, cfg, kind)
        if os.path.exists(out): return out
        fl = [x for x in CONFIGS[cfg] if x != 'RAW']
        cxx = {'plain': ['g++', '-O2'], 'valgrind': ['g++', '-O1', '-g'], 'asan': ['g++', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
               'tsan': [CLANG, '-O1', '-g', '-fsanitize=thread', '-DREPLAY_THREADS', '-pthread']}[kind]
        short = '-fshort-wchar' in fl
        if short: fl = fl + ['-fno-builtin', '-include', VERIF + '/rt/noextern.h']
        must(cxx + COMMON[:2] + ['-w', '-fno-builtin-strlen'] + fl + includes(ver) + harness_defs(ver) + ['-I' + self.work, '-DREPLAY_ENTRY=' + entry] + {'p30': ['-DREPLAY_FAULTS'], 'p31': ['-DREPLAY_EARLY'], 'p32': ['-DREPLAY_LOCALE'], 'p33': ['-DREPLAY_COST']}.get(harness, []) +
             ['%s/harness/%s.cpp' % (VERIF, harness), VERIF + '/rt/replay.cpp'] + ([VERIF + '/rt/replay_locale.cpp'] if harness == 'p32' else []) + ([VERIF + '/rt/short_wchar.cpp'] if short else []) + sources(ver) + ['-o', out + '.tmp'], 'native build')
        os.rename(out + '.tmp', out)
        return out

# ---------------------------------------------------------------- replay
def replay_text(prop, r, inputs, note=''):
    t = '# property %s harness %s entry %s version %d config %s\n' % (prop, r.harness, r.entry, r.ver, r.cfg)
    if note: t += ''.join('# %s\n' % l for l in note.splitlines())
    t += ''.join('param %s %d\n' % kv for kv in sorted(r.params.items()))
    for i in inputs: t += 'input %s %d %s\n' % (i['name'], i['w'], ' '.join(map(str, i['v'])))
    return t + 'run\n'

def reproduce(b, path, harness, entry, ver, cfg, race=False, leak=False):
    """Runs the counterexample against the real code; returns what happened, or None."""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=99' % leak, UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=99', TSAN_OPTIONS='exitcode=99:halt_on_error=1')
    tries = ['tsan'] * 4 if race else ['asan', 'perturb'] if harness in ('p30', 'p33') else ['asan', 'valgrind', 'perturb']   # p30: replay.cpp replaces operator new
    for k in tries:
        exe = b.native(harness, entry, ver, cfg, 'valgrind' if k == 'perturb' else k)
        cmds = {'valgrind': [(['valgrind', '-q', '--error-exitcode=99', '--leak-check=' + ('full' if leak else 'no'), '--errors-for-leak-kinds=definite', exe, path], env)],
                'perturb': [([exe, path], dict(env, MALLOC_PERTURB_=str(x))) for x in (1, 85, 170, 254)]}.get(k, [([exe, path], env)])
        for cmd, e in cmds:
            rc, out, err = run(cmd, 120 if k == 'valgrind' else 60, env=e)
            if rc == 0 or rc == 6: continue
            if rc == 5: raise CheckError('replay input mismatch: ' + err)
            line = ([l for l in out.splitlines() if l.startswith('CHECK-FAILED')] or [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'Invalid' in l or 'WARNING: ThreadSanitizer' in l or 'uninitialised' in l or 'lost' in l] or ['exit %s' % rc])[0]
            return '%s: %s' % (k, line if rc != 'timeout' else 'does not terminate')
    return None

# ---------------------------------------------------------------- main
def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup': engine(); print('engine ready'); return 0
    tier = os.environ.get('VERIF_TIER', 'quick'); verbose = '-v' in args; only = None; rp = None; keep = '--keep-going' in args
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    if '--only' in args: only = args[args.index('--only') + 1]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        if '--replay' in args: return do_replay(args[args.index('--replay') + 1], work)
        return decide(args[0], tier, only, verbose, keep, work, t0)
    finally:
        kill_all(); shutil.rmtree(work, ignore_errors=True)

def write_known(work):
    import known
    open(work + '/known.h', 'w').write(known.header(VERIF))

def do_replay(path, work):
    f = open(path).readline().split()
    h, e, v, c = f[4], f[6], int(f[8]), f[10]
    write_known(work)
    with ThreadPoolExecutor(1) as pool:
        r = reproduce(Builder(work, pool), path, h, e, v, c, race='# race' in open(path).read(), leak='leak' in open(path).read())
    print(r or 'not reproduced'); return 1 if r else 0

def decide(prop, tier, only, verbose, keep, work, t0):
    import spec, known
    P = spec.PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    runs = [r for r in P.runs(tier) if not only or r.entry == only]
    eng = engine(); write_known(work)
    pool = ThreadPoolExecutor(NPROC); b = Builder(work, pool)
    symdir = work + '/out'; os.mkdir(symdir)
    dump = tier == 'thorough'
    stats = dict(runs=0, paths=0, forks=0, steps=0, checks=0, checks_to_solver=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, trivial=0, merges=0)
    solver_s = 0.0; reach = {}; asserts = {}; funcs = set(); samples = []; problems = []; partial = []; confirmed = []; unconfirmed = []; failed = {}; validated = 0; run_log = []; maxq = 0
    budget = {'quick': 600, 'thorough': 7200}[tier]

    def symex(r, bc, i):
        out = '%s/%d.json' % (symdir, i)
        cmd = [eng, bc, '--entry=' + r.entry, '--out=' + out, '--time=%d' % min(r.time if tier == 'thorough' else 150, max(5, budget - (time.time() - t0))), '--max-viol=3', '--samples=12', '--max-steps=%d' % r.steps, '--query-ms=60000']
        cmd += ['--param=%s=%d' % kv for kv in r.params.items()]
        if dump: os.mkdir('%s/dump%d' % (work, i)); cmd += ['--dump=%s/dump%d' % (work, i), '--dump-every=400']
        left = budget - (time.time() - t0)
        if left < 5: return r, None, 'time budget exhausted'
        rc, o, e = run(cmd, min(r.time + 60, left + 20))
        if rc == 'timeout': return r, None, 'time budget exhausted'
        try: j = json.load(open(out))
        except Exception: return r, None, 'engine ended with %s: %s' % (rc, e[-300:])
        return r, j, None

    # build everything, then run; linking is cheap and happens in the workers
    links = {}
    try:
        for r in runs:
            k = (r.harness, r.ver, r.cfg)
            if k not in links: links[k] = b.linked(*k)
        for _, fs, _ in links.values():
            for f in fs: f.result()
        linkmemo, llock = {}, threading.Lock()
        def job(r, i):
            k = (r.harness, r.ver, r.cfg)
            with llock:
                if k not in linkmemo: linkmemo[k] = links[k][2]()
            return symex(r, linkmemo[k], i)
        byc = sorted(enumerate(runs), key=lambda x: x[1].cost); half = len(byc) // 2
        futs = [pool.submit(job, r, i) for i, r in byc[:half] + byc[half:][::-1]]    # cheap ones first, then the longest
        done = []
        for f in as_completed(futs):
            r, j, err = f.result()
            stats['runs'] += 1
            if err:
                (partial if err == 'time budget exhausted' else problems).append('%s: %s' % (r.name(), err)); continue
            for k in stats:
                if k in j and k != 'runs': stats[k] += j[k]
            solver_s += j.get('solver_s', 0); maxq = max(maxq, j.get('max_query_s', 0))
            for k, v in j['reach'].items(): reach[k] = reach.get(k, 0) + v
            for k, v in j['assertions'].items(): asserts[k] = asserts.get(k, 0) + v
            funcs.update(x for x in j['functions'] if x.startswith(REPO + '/'))
            if verbose: print('%-70s %-10s paths=%d %.1fs solver %.1fs %s' % (r.name(), j['status'], j['paths'], j['wall'], j.get('solver_s', 0), j['error'][:200]), flush=True)
            run_log.append({'run': r.name(), 'status': j['status'], 'paths': j['paths'], 'wall_s': j['wall']})
            for v in j['violations']:
                sig = (v['kind'], v['msg'], v['where'].split(' <- ')[0])
                if failed.get(sig, 0) >= 6: unconfirmed.append('%s: %s: %s, not replayed' % (r.name(), v['kind'], v['msg'])); continue
                d = '%s/evidence/replay/%s' % (VERIF, prop); os.makedirs(d, exist_ok=True)
                txt = replay_text(prop, r, v['inputs'], '%s: %s\nat %s%s' % (v['kind'], v['msg'], v['where'], '\nrace' if v['kind'] == 'race' else ''))
                path = '%s/%s.txt' % (d, hashlib.sha256(txt.encode()).hexdigest()[:12])
                open(path, 'w').write(txt)
                what = reproduce(b, path, r.harness, r.entry, r.ver, r.cfg, v['kind'] == 'race', 'leak' in v['msg'])
                if verbose: print('   %s: %s at %s -> %s' % (v['kind'], v['msg'], v['where'], what), [(x['name'], [hex(y) for y in x['v']][:40]) for x in v['inputs']])
                if what:
                    confirmed.append((path, '%s: %s (%s)' % (v['kind'], v['msg'], what))); break
                failed[sig] = failed.get(sig, 0) + 1
                unconfirmed.append('%s: %s: %s at %s, not reproduced natively' % (r.name(), v['kind'], v['msg'], v['where']))
            if j['status'] == 'incomplete' and 'time budget' in j['error']: partial.append('%s: not exhausted, %d paths explored' % (r.name(), j['paths']))
            elif j['status'] in ('incomplete', 'unsupported'): partial.append('%s: %s, %d paths explored: %s' % (r.name(), j['status'], j['paths'], j['error']))
            elif j['status'] not in ('ok', 'violation'): problems.append('%s: %s %s' % (r.name(), j['status'], j['error']))
            done.append((r, j))
            if confirmed and not keep: break
        if confirmed:
            if not keep: kill_all()
        else:
            # validate the encoding: models of explored paths, run natively, must observe the same
            groups = {}
            for r, j in done:
                if j['samples'] and r.validate: groups.setdefault((r.harness, r.entry, r.ver, r.cfg), []).append((r, j))
            pick = sorted(groups)
            def val(k):
                exe = b.native(*k, 'plain'); n = 0; bad = []
                for r, j in groups[k]:
                    t = ''.join('param %s %d\n' % kv for kv in r.params.items())
                    for s in j['samples']: t += ''.join('input %s %d %s\n' % (i['name'], i['w'], ' '.join(map(str, i['v']))) for i in s['inputs']) + 'run\n'
                    fn = '%s/val-%s-%d.txt' % (work, '-'.join(map(str, k)), n); open(fn, 'w').write(t)
                    rc, o, e = run([exe, fn, 'batch'], 120)
                    lines = [l.split() for l in o.splitlines() if l.startswith('run ')]
                    if rc != 0 or len(lines) != len(j['samples']): bad.append('%s: native run of samples ended with %s %s' % (r.name(), rc, (o + e)[-200:])); continue
                    for s, l in zip(j['samples'], lines):
                        if l[1] != 'ok' or l[2] != '-' or list(map(int, l[3:])) != s['obs']: bad.append('%s: engine and native code differ on %s: %s / %s' % (r.name(), s['inputs'], s['obs'], l))
                        else: n += 1
                return n, bad, groups[k][0]
            for f in [pool.submit(val, k) for k in pick]:
                n, bad, (r, j) = f.result(); validated += n
                if bad and not unconfirmed: problems += bad[:3]
                if len(samples) < 6: samples.append({'run': r.name(), 'inputs': {i['name']: i['v'][:24] for i in j['samples'][-1]['inputs']}, 'observed': j['samples'][-1]['obs']})
            for l in P.reach:
                if not reach.get(l) and not only and not partial: problems.append('vacuous: "%s" was never reached' % l)
            if unconfirmed: problems += unconfirmed
            if not stats['checks'] and not only: problems.append('no assertion was decided within the time')
    except CheckError as e:
        if not confirmed: problems.append(str(e))
    known_lines = []
    if not confirmed and not problems:
        try: known_lines = known.lines(VERIF, prop, b, run, work)
        except CheckError as e: problems.append(str(e))
    cross = None
    if dump and not confirmed and not problems: cross = crosscheck(work, problems)
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
            'states': stats['forks'] + stats['runs'], 'transitions': stats['steps'], 'traces_validated_against_impl': validated,
            'samples': samples or [{'counterexample': open(p).read()[:600]} for p, _ in confirmed[:1]] or [{'run': r.name()} for r in runs[:2]],
            'functions_encoded': sorted(x.replace(REPO + '/', '') for x in funcs), 'bounds': P.bounds(tier), 'outside_bounds': P.outside,
            'symbolic_runs': stats['runs'], 'paths': stats['paths'], 'assertions_decided': stats['checks'], 'assertions': asserts, 'assertions_needing_solver': stats['checks_to_solver'],
            'solver_queries': stats['queries'], 'queries_unsat': stats['unsat'], 'queries_sat': stats['sat'], 'queries_unknown': stats['unknown'], 'query_cache_hits': stats['cache_hits'], 'decided_by_simplifier': stats['trivial'],
            'solver_time_s': round(solver_s, 3), 'slowest_query_s': maxq, 'solver': 'Z3 4.8.12 (QF_BV)', 'reachability_witnesses': {l: reach.get(l, 0) for l in P.reach}, 'runs': run_log[:400], 'known_findings': known_lines},
          'assumptions': spec.ASSUMPTIONS + P.assumptions, 'wall_s': round(wall, 2), 'violations': len(confirmed)}
    if cross: ev['coverage']['second_solver'] = cross
    if problems: ev['coverage']['problems'] = problems[:20]
    if partial: ev['coverage']['incomplete_runs'] = partial   # the bounds above do not hold for these
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    for l in known_lines: print('KNOWN-FINDING: property=%s %s' % (prop, l))
    if confirmed:
        for path, what in confirmed[:5]: print('%s\nVIOLATION property=%s replay=%s' % (what, prop, path))
        return 1
    if problems:
        for p in problems[:10]: print('ERROR ' + p)
        return 2
    for p in partial[:10]: print('INCOMPLETE ' + p)
    print('%s held: %d runs, %d paths, %d assertions decided, %d solver queries (%.1f s), %d models validated natively, %.1f s' % (prop, stats['runs'], stats['paths'], stats['checks'], stats['queries'], solver_s, validated, wall))
    return 0

def crosscheck(work, problems):
    """A sample of the queries, answered again by two other solvers."""
    fs = sorted(glob.glob(work + '/dump*/*.smt2'))
    fs = fs[::max(1, len(fs) // 400)][:400]
    res = {'queries': 0, 'cvc5_agree': 0, 'z3_new_agree': 0, 'undecided': 0}
    def one(f):
        exp = f.split('.')[-2]
        out = []
        for cmd in (['cvc5', '--lang=smt2', '--tlimit=20000', f], ['z3-new', '-T:20', f]):
            rc, o, e = run(cmd, 40); first = (o.split() or ['?'])[0]
            out.append(first)
        return f, exp, out
    with ThreadPoolExecutor(NPROC) as p:
        for f, exp, out in p.map(one, fs):
            res['queries'] += 1
            for k, o in zip(('cvc5_agree', 'z3_new_agree'), out):
                if o == exp: res[k] += 1
                elif o in ('sat', 'unsat'): problems.append('solvers disagree on %s: %s / %s' % (os.path.basename(f), exp, o)); shutil.copy(f, VERIF + '/evidence/')
                else: res['undecided'] += 1
    return res

if __name__ == '__main__':
    try: rc = main()
    except CheckError as e: print('ERROR ' + str(e)); rc = 2
    sys.stdout.flush(); os._exit(rc)
