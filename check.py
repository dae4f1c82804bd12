#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough].  See DESIGN.md, section 'Driver'."""
import os, sys, json, time, hashlib, subprocess, shutil, glob, re, threading, argparse
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')   # another tree only while developing the checks
CACHE = os.path.join(V, '.cache')
CLANG, LINK, OPT, NM, GXX = '/usr/bin/clang++-18', '/usr/bin/llvm-link-18', '/usr/bin/opt-18', '/usr/bin/llvm-nm-18', '/usr/bin/g++'
INC = ['-I', REPO + '/include', '-I', REPO + '/src', '-I', V + '/rt', '-I', V + '/harness']
BCFLAGS = ['-std=c++14', '-O1', '-gline-tables-only', '-DBLACKHOLE_VERIFY', '-include', 'cstdint', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-w']
NATFLAGS = ['-std=c++14', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-include', 'cstdint', '-w', '-pthread']
T0 = time.time()
sys.path.insert(0, os.path.join(V, 'harness'))
from registry import CHECKS  # noqa: E402


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Broken(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise Broken('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd)[:400], r.stdout.decode('utf8', 'replace')[-4000:]))
    return r.stdout


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def tree(*roots):
    out = []
    for r in roots:
        for d, dn, fn in os.walk(r):
            dn.sort()
            out += [os.path.join(d, f) for f in sorted(fn) if f.endswith(('.cpp', '.hpp', '.h', '.hh', '.ipp', '.inl'))]
    return out


def prune(prefix, keep):
    # bound the cache: drop entries of the same kind other than the current one and the few most recent
    ents = sorted(glob.glob(os.path.join(CACHE, prefix + '-*')), key=os.path.getmtime, reverse=True)
    for e in ents[4:]:
        if os.path.basename(e) != keep:
            shutil.rmtree(e, ignore_errors=True)


class Build:
    def __init__(self, cid, cfg, pool):
        self.cid, self.cfg, self.pool = cid, cfg, pool
        self.repo_files = tree(REPO + '/src', REPO + '/include')
        self.repo_key = digest(self.repo_files)
        self.srcs = [f for f in self.repo_files if f.startswith(REPO + '/src/') and f.endswith('.cpp')]
        self.hsrc = os.path.join(V, 'harness', cfg['src'])
        self.hdeps = glob.glob(V + '/harness/*.hpp') + glob.glob(V + '/rt/*.h') + [self.hsrc]

    def engine(self):
        key = digest(glob.glob(V + '/engine/*'))
        d = os.path.join(CACHE, 'engine-' + key)
        exe = d + '/symex'
        if not os.path.exists(exe):
            sh(['bash', V + '/engine/build.sh', d])
            prune('engine', os.path.basename(d))
        return exe

    def _cc(self, cmd, out):
        if not os.path.exists(out):
            tmp = '%s.%d.%d.tmp' % (out, os.getpid(), threading.get_ident())
            sh(cmd + ['-o', tmp]); os.replace(tmp, out)
        return out

    def start_bc(self):
        d = os.path.join(CACHE, 'bc-' + digest([], self.repo_key + ' '.join(BCFLAGS)))
        os.makedirs(d, exist_ok=True); prune('bc', os.path.basename(d))
        rk = digest(glob.glob(V + '/rt/*')); rd = os.path.join(CACHE, 'rt-' + rk); os.makedirs(rd, exist_ok=True); prune('rt', os.path.basename(rd))
        order = sorted(self.srcs, key=lambda f: -os.path.getsize(f))
        order.sort(key=lambda f: 0 if re.search(r'socket|asynchronous\.cpp|file\.cpp|grammar|json|essentials', f) else 1)
        js = []
        hk = digest(self.hdeps, self.repo_key + ' '.join(BCFLAGS)); hd = os.path.join(CACHE, 'h-' + hk); os.makedirs(hd, exist_ok=True); prune('h', os.path.basename(hd))
        self.hdir = hd
        js.append(self.pool.submit(self._cc, [CLANG] + BCFLAGS + INC + ['-emit-llvm', '-c', self.hsrc], hd + '/h.bc'))
        for f in order:
            js.append(self.pool.submit(self._cc, [CLANG] + BCFLAGS + INC + ['-emit-llvm', '-c', f], d + '/' + os.path.relpath(f, REPO + '/src').replace('/', '_') + '.bc'))
        for f in ('exc', 'lib', 'env'):
            js.append(self.pool.submit(self._cc_rt, f, rd + '/' + f + '.bc'))
        self.bc_jobs = js

    def _cc_rt(self, f, out):
        if not os.path.exists(out):
            tmp = '%s.%d.tmp' % (out, os.getpid()); sh(['bash', V + '/rt/cc.sh', V + '/rt/' + f + '.cpp', tmp]); os.replace(tmp, out)
        return out

    def link_bc(self, entries):
        files = [j.result() for j in self.bc_jobs]
        out = self.hdir + '/all.bc'
        tmp = out + '.%d' % os.getpid()
        # harness first, runtime model last; --override lets harness-provided stubs win over weak ones
        sh([LINK] + files + ['-o', tmp + '.1'])
        sh([OPT, '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries), tmp + '.1', '-o', tmp])
        os.unlink(tmp + '.1'); os.replace(tmp, out)
        return out

    def start_native(self):
        d = os.path.join(CACHE, 'nat-' + digest([], self.repo_key + ' '.join(NATFLAGS)))
        os.makedirs(d, exist_ok=True); prune('nat', os.path.basename(d))
        js = [self.pool.submit(self._cc, [GXX] + NATFLAGS + INC + ['-c', self.hsrc], self.hdir + '/h.o'),
              self.pool.submit(self._cc, [GXX] + NATFLAGS + INC + ['-c', V + '/rt/native.cpp'], d + '/native-%s.o' % digest(glob.glob(V + '/rt/*')))]
        for f in sorted(self.srcs, key=lambda f: -os.path.getsize(f)):
            js.append(self.pool.submit(self._cc, [GXX] + NATFLAGS + INC + ['-c', f], d + '/' + os.path.relpath(f, REPO + '/src').replace('/', '_') + '.o'))
        self.nat_jobs = js

    def link_native(self):
        objs = [j.result() for j in self.nat_jobs]
        exe = self.hdir + '/replay'
        tmp = exe + '.%d' % os.getpid()
        sh([GXX, '-fsanitize=address', '-rdynamic', '-pthread'] + objs + ['-lboost_thread', '-lboost_system', '-ldl', '-o', tmp])
        os.replace(tmp, exe)
        return exe


def inputs_text(inputs, params):
    return ''.join('param %s %d\n' % kv for kv in params.items()) + ''.join('%s %d %s\n' % (n, b, v) for n, b, v in inputs)


def native_run(exe, entry, path, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=165:abort_on_error=0:exitcode=99', TZ='UTC')
    try:
        r = subprocess.run([exe, entry, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), ''


def run_engine(exe, bc, run, tier, seed, outdir, budget):
    p = dict(run.get('params', {}))
    o = dict(run.get('opts', {}))
    if tier == 'thorough':
        p.update(run.get('thorough', {})); o.update(run.get('thorough_opts', {}))
    name = run.get('name', run['entry'])
    out = os.path.join(outdir, name + '.json')
    for f in glob.glob(out + '*'):
        os.unlink(f)
    cmd = [exe, bc, '--entry', run['entry'], '--out', out, '--seed', str(seed), '--max-time', str(o.pop('max_time', budget)), '--jobs', str(o.pop('jobs', 4)),
           '--samples', str(o.pop('samples', 24)), '--max-steps', str(o.pop('max_steps', 20000000))]
    if o.pop('races', False):
        cmd.append('--races')
    for k, v in o.items():
        cmd += ['--' + k.replace('_', '-'), str(v)]
    for k, v in p.items():
        cmd += ['-p', '%s=%d' % (k, v)]
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    err = r.stderr.decode('utf8', 'replace')
    m = {'name': name, 'entry': run['entry'], 'params': p, 'opts': run.get('opts', {}), 'wall': time.time() - t, 'error': None}
    parts = [json.load(open(f)) for f in glob.glob(out + '*') if not f.endswith('.txt')]
    if r.returncode != 0 or not parts:
        m['error'] = 'symex ended with %s: %s' % (r.returncode, err[-1500:])
    for k in ('paths', 'steps', 'forks', 'checks', 'checks_solver', 'mem_obligations', 'assume_killed', 'bounded', 'decided', 'sched_points', 'queries', 'q_sat', 'q_unsat', 'q_unknown', 'q_cache', 'q_domain', 'q_tabulated', 'solver_s'):
        m[k] = sum(x.get(k, 0) for x in parts)
    m['solver_max_s'] = max([x['solver_max_s'] for x in parts] or [0])
    stopped = any(x['violations'] for x in parts)
    m['inconclusive'] = sorted({i for x in parts for i in x['inconclusive']})
    if not stopped and any(x['states_left'] for x in parts):
        m['inconclusive'].append('states left unexplored')
    for k in ('reach', 'check_count'):
        m[k] = {}
        for x in parts:
            for a, b in x[k].items():
                m[k][a] = m[k].get(a, 0) + b
    m['violations'] = [v for x in parts for v in x['violations']]
    m['samples'] = [s for x in parts for s in x['samples']]
    m['functions'] = {}
    for x in parts:
        for fn, (file, c, n) in x['functions'].items():
            q = m['functions'].get(fn, [file, 0, n]); q[1] = max(q[1], c); m['functions'][fn] = q
    m['stderr'] = err[-500:]
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--no-native', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cid, cfg, tier = a.id, CHECKS[a.id], 'thorough' if a.tier == 'thorough' else 'quick'
    os.makedirs(CACHE, exist_ok=True); os.makedirs(V + '/evidence/replay', exist_ok=True)
    pool = ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8')))
    runs = [r for r in cfg['runs'] if (tier == 'thorough' or not r.get('thorough_only')) and (not a.only or r.get('name', r['entry']) in a.only.split(','))]
    runs = [r for r in runs if not (tier == 'thorough' and r.get('quick_only'))]
    b = Build(cid, cfg, pool)
    b.start_bc()
    eng = pool.submit(b.engine)
    native = not a.no_native
    if native:
        b.start_native()
    exe = eng.result()
    bc = b.link_bc(sorted({r['entry'] for r in cfg['runs']}))
    log('encoded %d source files of %s' % (len(b.srcs), REPO))
    budget = cfg.get('budget', {}).get(tier, 420 if tier == 'quick' else 7200)
    outdir = os.path.join(b.hdir, 'out'); os.makedirs(outdir, exist_ok=True)
    rp = ThreadPoolExecutor(cfg.get('parallel', 4))
    futs = {rp.submit(run_engine, exe, bc, r, tier, seed, outdir, budget): r for r in runs}
    res = []
    for f in as_completed(futs):
        m = f.result(); r = futs[f]; m['run'] = r; res.append(m)
        log('%-28s paths %-7d steps %-10d checks %-6d(solver %d) mem %-8d queries %-6d solver %.1fs wall %.1fs%s%s' % (
            m['name'], m['paths'], m['steps'], m['checks'], m['checks_solver'], m['mem_obligations'], m['queries'], m['solver_s'], m['wall'],
            '  VIOLATED' if m['violations'] else '', '  INCONCLUSIVE' if m['inconclusive'] or m['error'] else ''))
    replay_exe = b.link_native() if native else None
    problems, viol, validated, known = [], [], 0, []
    listed = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else []
    listed = [k for k in listed if k.get('property') == cid and k.get('status') == 'known']
    for m in res:
        r = m['run']; name = m['name']
        if m['error']:
            problems.append('%s: %s' % (name, m['error']))
        for i in m['inconclusive']:
            if not m['violations']:
                problems.append('%s: %s' % (name, i))
        if not m['violations']:
            for lab in r.get('reach', []):
                if not m['reach'].get(lab):
                    problems.append('%s: vacuous, label %r never reached' % (name, lab))
            if not m['checks'] and not r.get('nochecks'):
                problems.append('%s: vacuous, no assertion evaluated' % name)
        for lab in m['reach']:
            if lab.startswith('FINDING:'):
                k = lab[8:]
                if any(x['key'] == k for x in listed):
                    known.append(k)
                else:
                    viol.append((None, '%s: deviation %s is not a listed finding' % (name, k), m, None))
        # native validation of sampled paths
        if native and r.get('native', True):
            for n, s in enumerate(m['samples'][:60]):
                if s['concurrent']:
                    continue
                p = os.path.join(outdir, '%s.s%d.txt' % (name, n)); open(p, 'w').write(inputs_text(s['inputs'], m['params']))
                rc, out, err = native_run(replay_exe, r['entry'], p)
                got = [l[4:] for l in out.splitlines() if l.startswith('OBS ')]
                want = ['%s %s' % (l, h) for l, h in s['obs']]
                if rc not in (0, 77, 78, 79, 'timeout') and native_run(replay_exe, r['entry'], p)[0] == rc:
                    # the real code, compiled natively, fails on an input the solver produced for this path
                    q = os.path.join(V, 'evidence/replay', '%s-%s-native.txt' % (cid, name)); shutil.copy(p, q)
                    viol.append((q, '%s: native run of the solver-generated input fails: rc=%s %s' % (name, rc, (out[-300:] + err[-600:]).replace('\n', ' ')), m, None))
                    break
                if rc != 0 or got != want:
                    # the encoding and the real code disagree on this path
                    problems.append('%s: encoding and native run disagree on sample %s (rc %s): symbolic %s native %s %s' % (name, p, rc, want[:6], got[:6], (out + err)[-400:]))
                    break
                validated += 1
                os.unlink(p)
        for n, v in enumerate(m['violations']):
            p = os.path.join(V, 'evidence/replay', '%s-%s-%d.txt' % (cid, name, n))
            open(p, 'w').write(inputs_text(v['inputs'], m['params']))
            json.dump({'property': cid, 'entry': r['entry'], 'run': name, 'violation': v, 'params': m['params']}, open(p[:-4] + '.json', 'w'), indent=1)
            desc = '%s: %s: %s (at %s)' % (name, v['kind'], v['msg'], v['where'])
            repro = None
            if native and r.get('native', True) and not v['sched']:
                rc, out, err = native_run(replay_exe, r['entry'], p)
                repro = rc != 0 and rc not in (77, 78, 79)
                desc += ' | native replay: rc=%s %s' % (rc, ' '.join([l for l in out.splitlines() if not l.startswith('OBS')][-3:]) + ' ' + ' '.join([l for l in err.splitlines() if 'ERROR' in l or 'Assertion' in l or 'terminate' in l or 'what()' in l][:3]))
                if not repro:
                    problems.append('counterexample did not reproduce natively: ' + desc)
                    continue
            viol.append((p, desc, m, v))
    for k in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (cid, next(x['what'] for x in listed if x['key'] == k)))
    tot = lambda k: sum(m[k] for m in res)
    fns = {}
    for m in res:
        for fn, q in m['functions'].items():
            o = fns.get(fn, [q[0], 0, q[2]]); o[1] = max(o[1], q[1]); fns[fn] = o
    byfile = {}
    for fn, (f, c, n) in fns.items():
        byfile.setdefault(os.path.normpath(f).replace(REPO + '/', ''), []).append('%s [%d/%d instr]' % (fn[:110], c, n))
    samples = []
    for m in res:
        for s in m['samples'][:2]:
            samples.append({'run': m['name'], 'inputs': s['inputs'][:24], 'observed': s['obs'][:6], 'schedule': s['sched'][:40]})
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'violations': len(viol), 'wall_s': round(time.time() - T0, 2),
          'assumptions': cfg.get('assumptions', []),
          'coverage': {
              'states': tot('paths'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated, 'samples': samples[:12],
              'meaning': 'states = symbolic paths run to their end (each stands for all input values satisfying its path condition); transitions = IR instructions executed symbolically',
              'bounds': cfg.get('bounds', ''), 'bounds_reached_by_cut': tot('bounded'),
              'runs': [{k: m[k] for k in ('name', 'entry', 'params', 'opts', 'paths', 'steps', 'forks', 'checks', 'checks_solver', 'mem_obligations', 'sched_points', 'queries', 'q_sat', 'q_unsat', 'q_unknown', 'q_cache', 'q_domain', 'q_tabulated', 'reach', 'check_count')}
                       | {'solver_s': round(m['solver_s'], 3), 'solver_max_s': round(m['solver_max_s'], 3), 'wall_s': round(m['wall'], 2)} for m in res],
              'assertions_evaluated': tot('checks'), 'assertions_decided_by_solver': tot('checks_solver'), 'memory_safety_obligations': tot('mem_obligations'), 'solver_queries': tot('queries'), 'solver_seconds': round(tot('solver_s'), 3),
              'functions_encoded': len(fns), 'functions_by_file': {f: sorted(l) for f, l in sorted(byfile.items())},
              'inconclusive': problems}}
    json.dump(ev, open(V + '/evidence/%s.json' % cid, 'w'), indent=1)
    for p in problems:
        log('PROBLEM', p[:1500])
    for p, d, m, v in viol:
        log('violation:', d[:1500])
        if v and v.get('stack'):
            for l in v['stack'][:8]:
                log('    ', l)
    if viol:
        p = viol[0][0] or V + '/evidence/%s.json' % cid
        print('VIOLATION property=%s replay=%s' % (cid, p), flush=True)
        os._exit(1)
    if problems:
        os._exit(2)
    log('%s holds within bounds: %d paths, %d assertions, %d memory obligations, %d samples validated natively' % (cid, tot('paths'), tot('checks'), tot('mem_obligations'), validated))
    sys.stdout.flush(); os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except Broken as e:
        print('ERROR', e); sys.stdout.flush(); os._exit(2)
