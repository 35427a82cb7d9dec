#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree together with the driver of one property and the
controlled runtime, explores the bounded space, and writes evidence/<ID>.json.

  run.py C03                     quick check (VERIF_TIER=thorough or --thorough: deep check)
  run.py C03 --replay FILE       rebuild and run only the recorded case and schedule
"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, VERIF)
from props import PROPS

T0 = time.time()
NPROC = max(1, min(16, len(os.sched_getaffinity(0))))
HANG = [100]         # seconds of processor time without progress before a worker is suspected to hang; twice as long, alone, confirms it
GAP = [0]            # longest processor time between two signs of progress
RSS_LIMIT = int(3.2e9)
QUICK_BUDGET = int(os.environ.get('VP_BUDGET', '430'))
THOROUGH_BUDGET = int(os.environ.get('VP_THOROUGH_BUDGET', '2400'))

WRAP = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock',
        '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE',
        '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variable10notify_oneEv']
TSAN_WRAP = ['__tsan_atomic%d_%s' % (b, op) for b in (8, 16, 32, 64) for op in
             ('load', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_xor',
              'compare_exchange_strong', 'compare_exchange_weak')]
MODE_FLAGS = {
    'fast': ['-O2', '-g1', '-ftrivial-auto-var-init=pattern'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
}
RT_DEF = {'fast': [], 'asan': ['-DMC_ASAN'], 'tsan': ['-DMC_TSAN']}
REDEF = [('_Znwm', 'new'), ('_Znam', 'new_arr'), ('_ZdlPv', 'delete'), ('_ZdaPv', 'delete_arr'),
         ('_ZdlPvm', 'delete_sized'), ('_ZdaPvm', 'delete_arr_sized'), ('memcpy', 'memcpy'), ('memmove', 'memmove'),
         ('memset', 'memset'), ('memcmp', 'memcmp'), ('strlen', 'strlen')]
RUN_ENV = {
    'fast': {'MALLOC_PERTURB_': '58', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=131072'},
    'asan': {'ASAN_OPTIONS': 'detect_stack_use_after_return=0:detect_leaks=0:max_malloc_fill_size=1073741824:'
                             'malloc_fill_byte=197:allocator_may_return_null=0:handle_abort=1:detect_odr_violation=0',
             'UBSAN_OPTIONS': 'print_stacktrace=1'},
    'tsan': {'TSAN_OPTIONS': 'ignore_noninstrumented_modules=1:halt_on_error=0:history_size=150:report_signal_unsafe=0'},
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(job):
    """job: (output, list of alternative command lines, optional)"""
    out, cmds, optional = job
    log = ''
    for c in cmds:
        r = run(c)
        if r.returncode == 0:
            return out, True, ''
        log += ' '.join(c) + '\n' + r.stdout[-6000:] + '\n'
    return out, False, log


KNOWN_SRC = ['variants/combined.cpp', 'variants/components/multiplier.cpp', 'variants/components/recursive.cpp',
             'variants/proposal.cpp', 'variants/pseudodynamic.cpp', 'variants/semi.cpp', 'variants/single.cpp',
             'variants/static_improved.cpp', 'reference_kernels/kernel_test.cpp', 'reference_kernels/kernel_tiled.cpp',
             'matrix_multiply_application/matrix_multiply.cpp']


def extra_sources():
    """source files that did not exist when this was written (a refactoring may have moved code there)"""
    res = []
    for base, _, files in os.walk(os.path.join(REPO, 'src')):
        rel = os.path.relpath(base, os.path.join(REPO, 'src'))
        if rel.split(os.sep)[0] == 'tests':
            continue
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            if f.endswith('.cpp') and p not in KNOWN_SRC:
                res.append(p)
    return sorted(res)


def build(prop, cfg, modes, scratch):
    """returns {mode: [executables]}; one executable per entry of cfg['drivers']"""
    jobs = []
    plan = {}
    inc = ['-include', VERIF + '/shim/prelude.hpp', '-I' + REPO + '/src', '-I' + VERIF + '/shim', '-I' + VERIF + '/rt',
           '-I' + VERIF + '/drivers', '-I' + REPO]
    gen = cfg.get('prepare')
    if gen:
        gen(REPO, scratch)
        inc.append('-I' + scratch)
    for m in modes:
        d = os.path.join(scratch, m)
        os.makedirs(d)
        for f in ('mc', 'gomp', 'hpxrt'):
            jobs.append((d + '/' + f + '.o', [['g++', '-std=c++17', '-O2'] + RT_DEF[m] + ['-I' + VERIF + '/rt', '-c', VERIF + '/rt/' + f + '.cpp', '-o', d + '/' + f + '.o']], False))
        base = ['-march=haswell'] + MODE_FLAGS[m] + ['-fopenmp'] + inc + cfg.get('flags', [])

        def unit(src, out, flags=(), optional=False, stds=('c++14', 'c++17')):
            jobs.append((out, [['g++', '-std=' + s] + base + list(flags) + ['-c', src, '-o', out] for s in stds], optional))
        objs = []
        opt = []
        for k, s in enumerate(cfg.get('src', [])):
            path, flags = (s, []) if isinstance(s, str) else (s[0], s[1])
            stds = s[2] if not isinstance(s, str) and len(s) > 2 else ('c++14', 'c++17')
            o = '%s/s%d.o' % (d, k)
            full = path.replace('@SCRATCH@', scratch).replace('@VERIF@', VERIF)
            if not full.startswith('/'):
                full = os.path.join(REPO, full)
            unit(full, o, flags, stds=stds)
            objs.append(o)
        if cfg.get('link_extra', True) and cfg.get('src'):
            for k, s in enumerate(extra_sources()):
                o = '%s/x%d.o' % (d, k)
                unit(os.path.join(REPO, 'src', s), o, optional=True)
                opt.append(o)
        drv = []
        for k, s in enumerate(cfg['drivers']):
            o = '%s/d%d.o' % (d, k)
            df = cfg.get('driver_flags', [])
            if isinstance(df, dict):
                df = df.get(s, [])
            unit(VERIF + '/drivers/' + s, o, [x.replace('@VERIF@', VERIF) for x in df], optional=s in cfg.get('optional_drivers', ()))
            drv.append((o, s))
        plan[m] = (d, objs, opt, drv)
    ok = {}
    # the slowest translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[1][0][j[1][0].index('-c') + 1]) if os.path.exists(j[1][0][j[1][0].index('-c') + 1]) else 0)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (out, good, log), job in zip(ex.map(compile_one, jobs), jobs):
            ok[out] = good
            if not good and not job[2]:
                raise BuildError(log)
    exes = {}
    for m, (d, objs, opt, drv) in plan.items():
        def must(cmd):
            r = run(cmd)
            if r.returncode:
                raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
        must(['ld', '-r', '--force-group-allocation', d + '/mc.o', d + '/gomp.o', d + '/hpxrt.o', '-o', d + '/rt0.o'])
        must(['gcc', '-O1', '-fno-builtin', '-c', VERIF + '/rt/rtmem.c', '-o', d + '/rtmem.o'])
        must(['objcopy'] + [x for a, b in REDEF for x in ('--redefine-sym', a + '=mc_rt_' + b)] + [d + '/rt0.o'])
        must(['objcopy', '--wildcard', '-L', '_ZNSt*', '-L', '_ZNKSt*', '-L', '_ZSt*', '-L', '_ZNS*', '-L', '_ZNKS*', d + '/rt0.o', d + '/rt.o'])
        arch = []
        good = [o for o in opt if ok[o]]
        if cfg.get('archive_src'):
            good = objs + good
            objs = []
        if good:
            must(['ar', 'rcs', d + '/libx.a'] + good)
            arch = [d + '/libx.a']
        wrap = WRAP + (TSAN_WRAP if m == 'tsan' else [])
        exes[m] = []
        for k, (o, name) in enumerate(drv):
            exe = '%s/t%d' % (d, k)
            link = must
            if name in cfg.get('optional_drivers', ()):
                def link(cmd):
                    return run(cmd).returncode == 0
            if not ok[o] or link(['g++'] + MODE_FLAGS[m] + [o] + objs + arch + [d + '/rt.o', d + '/rtmem.o'] +
                 ['-Wl,' + ','.join('--wrap=' + w for w in wrap)] + cfg.get('ldflags', []) +
                 ['-lboost_program_options', '-lpthread', '-o', exe]) is False:
                cfg.setdefault('not_built', []).append(m + ':' + name)
                exe = None
            exes[m].append(exe)
    return exes


class Worker:
    def __init__(self, w, idx, mode, exe, scratch, args, claims=None):
        self.mode, self.exe, self.idx = mode, exe, idx
        self.tag = '%s/w%s' % (scratch, w)
        self.out, self.prog, self.err = self.tag + '.out', self.tag + '.prog', self.tag + '.err'
        open(self.prog, 'wb').write(b'\0' * 4096)
        cmd = [exe, '--out', self.out, '--progress', self.prog, '--mode', mode] + args
        if claims:
            cmd += ['--claims', claims]
        env = dict(os.environ)
        env.update(RUN_ENV[mode])
        env['OMP_NUM_THREADS'] = '2'
        self.cwd = self.tag + '.cwd'
        os.makedirs(self.cwd)
        self.p = subprocess.Popen(cmd, stdout=open(self.tag + '.stdout', 'wb'), stderr=open(self.err, 'wb'), env=env, cwd=self.cwd, stdin=subprocess.DEVNULL)
        self.beat, self.beat_t, self.beat_cpu = -1, time.time(), 0.0

    def progress(self):
        b = open(self.prog, 'rb').read()
        beat = int.from_bytes(b[:8], 'little')
        txt = b[8:].split(b'\0', 1)[0].decode('utf-8', 'replace').split('\n')
        return beat, txt[0], txt[1] if len(txt) > 1 else ''

    def stat(self):
        try:
            f = open('/proc/%d/stat' % self.p.pid).read().rsplit(')', 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK'), int(f[21]) * os.sysconf('SC_PAGE_SIZE')
        except Exception:
            return 0.0, 0

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass

    def errtext(self):
        return open(self.err, 'rb').read()[-200000:].decode('utf-8', 'replace')

    def suspicious(self, hang):
        """None, or why the worker has to be stopped"""
        beat, _, _ = self.progress()
        cpu, rss = self.stat()
        now = time.time()
        if beat != self.beat:
            GAP[0] = max(GAP[0], cpu - self.beat_cpu)
            self.beat, self.beat_t, self.beat_cpu = beat, now, cpu
        if rss > RSS_LIMIT and self.mode == 'fast' or rss > 2 * RSS_LIMIT:
            return 'memory'
        # either it burns processor time without progress, or it sleeps
        if cpu - self.beat_cpu > hang or (now - self.beat_t > 3 * hang and cpu - self.beat_cpu < 1):
            return 'hang'
        return None


def crash_text(err, rc):
    m = re.search(r'(ERROR: AddressSanitizer:[^\n]*|[^\n]*runtime error:[^\n]*|WARNING: ThreadSanitizer:[^\n]*|terminate called[^\n]*(?:\n[^\n]*what\(\)[^\n]*)?|[^\n]*Assertion[^\n]*failed[^\n]*)', err)
    sig = ('signal %d' % -rc) if rc < 0 else ('exit status %d' % rc)
    where = re.findall(r'(?:^|\n)\s*#\d+ [^\n]*?(/[^\s:()]*(?:src|otherExperiments|learning)/[^\s()]*)', err)
    return (m.group(1).strip() if m else 'the process ended with ' + sig) + (' at ' + where[0] if where else '')


def read_out(path):
    res = []
    if os.path.exists(path):
        for l in open(path, errors='replace'):
            try:
                res.append(json.loads(l))
            except Exception:
                pass
    return res


def alone(w, case, sched, scratch, base_args, timeout=0):
    timeout = timeout or 2 * HANG[0]
    """re-runs one case and schedule alone; returns a message if it fails again"""
    args = list(base_args) + ['--case', case] + (['--sched', sched] if sched else [])
    n = int(time.time() * 1000)
    v = Worker('replay%d' % n, 0, w.mode, w.exe, scratch, args)
    while v.p.poll() is None:
        time.sleep(0.2)
        s = v.suspicious(timeout)
        if s:
            v.kill()
            return 'does not terminate' if s == 'hang' else 'uses unbounded memory'
        if time.time() - T0 > 860:
            v.kill()
            return None
    for r in read_out(v.out):
        if 'violation' in r:
            return r['violation']['msg']
    if v.p.returncode != 0 and v.p.returncode != 75:
        return crash_text(v.errtext(), v.p.returncode)
    return None


def findings(prop):
    """open findings of a property: (case id, mode, description); their cases are not part of the enumeration"""
    res = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'open: property=(\S+) mode=(\S+) case="([^"]*)" (.*)', l)
        if m and m.group(1) == prop:
            res.append((m.group(3), m.group(2), m.group(4).strip()))
    return res


def report(prop, viol, thorough):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    viol['property'] = prop
    viol['tier'] = 'thorough' if thorough else 'quick'
    viol['replay_cmd'] = 'python3 %s/run.py %s --replay %s' % (VERIF, prop, path)
    json.dump(viol, open(path, 'w'), indent=1)
    print('  case: %s' % viol.get('case'))
    if viol.get('sched'):
        print('  schedule: %s' % viol['sched'])
    print('  %s' % viol.get('msg'))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    cfg = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return check(prop, cfg, thorough, replay, scratch)
    finally:
        if os.environ.get('VP_KEEP'):
            print('kept', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def check(prop, cfg, thorough, replay, scratch):
    modes = cfg.get('modes', ['fast', 'asan', 'tsan'])
    rp = json.load(open(replay)) if replay else None
    if rp:
        modes = [rp['mode']]
        thorough = rp.get('tier') == 'thorough'
    if os.environ.get('VP_MODES'):
        modes = [m for m in modes if m in os.environ['VP_MODES'].split(',')] or modes
    try:
        exes = build(prop, cfg, modes, scratch)
    except BuildError as e:
        sys.stderr.write(str(e))
        sys.stderr.write('\nthe code under test could not be built\n')
        return 2
    t_build = time.time() - T0
    HANG[0] = 100 if thorough else cfg.get('hang', 100)
    base_args = ['--thorough'] if thorough else []
    deadline = int(T0 + (THOROUGH_BUDGET if thorough else QUICK_BUDGET))
    if rp:
        class W:
            pass
        w = W()
        w.mode, w.exe = rp['mode'], exes[rp['mode']][rp.get('exe', 0)]
        msg = alone(w, rp['case'], rp.get('sched', ''), scratch, base_args)
        print('replayed: %s' % (msg or 'no violation'))
        if msg:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        return 0

    queue = []
    share = cfg.get('share', {'fast': NPROC, 'asan': NPROC, 'tsan': NPROC})
    for m in modes:
        for k, exe in enumerate(exes[m]):
            if exe is None:
                continue
            c = '%s/claims_%s_%d' % (scratch, m, k)
            open(c, 'wb').write(b'\0' * (8 << 20))
            for i in range(share.get(m, NPROC)):
                queue.append((m, exe, k, c))
    active, done, viol, n = [], [], None, 0
    while (queue or active) and viol is None:
        while queue and len(active) < NPROC:
            m, exe, k, c = queue.pop(0)
            active.append(Worker(n, k, m, exe, scratch, base_args + ['--deadline', str(deadline), '--group', str(cfg.get('group', 1))], c))
            n += 1
        time.sleep(0.02)
        for w in list(active):
            rc = w.p.poll()
            if rc is None:
                why = w.suspicious(HANG[0])
                if why:
                    _, case, sched = w.progress()
                    w.kill()
                    active.remove(w)
                    for o in active:
                        o.p.send_signal(signal.SIGSTOP)
                    msg = alone(w, case, sched, scratch, base_args)
                    for o in active:
                        o.p.send_signal(signal.SIGCONT)
                        o.beat_t = time.time()
                    if msg:
                        viol = {'case': case, 'sched': sched, 'msg': msg, 'mode': w.mode, 'exe': w.idx}
                    else:
                        done.append((w, read_out(w.out), 'stopped: ' + why))
                continue
            active.remove(w)
            res = read_out(w.out)
            for r in res:
                if 'violation' in r:
                    viol = dict(r['violation'])
            if viol is None and rc != 0:
                _, case, sched = w.progress()
                if rc == -signal.SIGKILL:
                    msg = alone(w, case, sched, scratch, base_args)
                    if msg:
                        viol = {'case': case, 'sched': sched, 'msg': msg}
                    else:
                        done.append((w, res, 'killed'))
                        continue
                elif rc in (75, 76, 77):
                    sys.stderr.write(w.errtext()[-3000:])
                    for o in active:
                        o.kill()
                    return 2
                else:
                    viol = {'case': case, 'sched': sched, 'msg': crash_text(w.errtext(), rc)}
            if viol is not None:
                viol['mode'], viol['exe'] = w.mode, w.idx
                e = w.errtext()
                if e:
                    viol['stderr'] = e[:6000]
                break
            done.append((w, res, None))
    for o in active:
        o.kill()
    if viol is not None and 'stderr' in viol and not viol.get('confirmed'):
        w = None
        class W2:
            pass
        w = W2()
        w.mode, w.exe = viol['mode'], exes[viol['mode']][viol['exe']]
        again = alone(w, viol['case'], viol.get('sched', ''), scratch, base_args)
        viol['reproduced_alone'] = bool(again)
        if not again:
            viol['msg'] += ' (only after the preceding cases of the same process)'

    known = []
    if viol is None and not os.environ.get('VP_MODES'):
        for case, mode, what in findings(prop):
            class W3:
                pass
            w = W3()
            w.mode, w.exe = mode, exes[mode][0]
            if alone(w, case, '', scratch, base_args):
                known.append(what)
                print('KNOWN-FINDING: property=%s %s' % (prop, what))

    tot = {}
    per_mode = {}
    samples, bounds, stopped = [], {}, 0
    for w, res, why in done:
        if why:
            stopped += 1
        for r in res:
            s = r.get('summary')
            if not s:
                continue
            pm = per_mode.setdefault(w.mode, {})
            for k in ('cases', 'executions', 'states', 'transitions', 'exhausted_cases', 'capped_cases', 'replayed', 'diverged', 'outcomes'):
                tot[k] = tot.get(k, 0) + s[k]
                pm[k] = pm.get(k, 0) + s[k]
            pm['skipped'] = max(pm.get('skipped', 0), s['skipped'])
            for k in ('max_points', 'max_tasks'):
                tot[k] = max(tot.get(k, 0), s[k])
            for b, c in s['bounds'].items():
                bounds[b] = bounds.get(b, 0) + c
            samples += ['%s: %s' % (w.mode, x) for x in s['samples'][:3]]
    skipped = any(pm['skipped'] for pm in per_mode.values()) or stopped
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': cfg.get('level', 'model_checking'),
        'coverage': {
            'states': tot.get('states', 0), 'transitions': tot.get('transitions', 0),
            'traces_validated_against_impl': tot.get('executions', 0),
            'samples': samples[:24],
            'exhaustive': not skipped and viol is None,
            'cases': tot.get('cases', 0),
            'cases_with_every_schedule_explored': tot.get('exhausted_cases', 0),
            'cases_explored_up_to_a_deviation_bound': tot.get('capped_cases', 0),
            'completed_deviation_bound_of_the_latter': bounds,
            'max_scheduling_points_in_one_execution': tot.get('max_points', 0),
            'max_tasks_in_one_execution': tot.get('max_tasks', 0),
            'schedules_replayed_for_determinism': tot.get('replayed', 0),
            'diverged_replays': tot.get('diverged', 0),
            'distinct_observed_outcomes': tot.get('outcomes', 0),
            'per_mode': per_mode,
            'known_findings_reproduced': known,
            'space': cfg.get('space', ''),
            'optional_drivers_that_did_not_build': cfg.get('not_built', []),
            'bounds': 'exhaustive refers to the listed finite space of cases; for cases with too many schedules every schedule with at most the stated number of deviations from the base schedule was run',
        },
        'assumptions': cfg.get('assumptions', []) + ['the stand-ins for HPX, Vc and libgomp in /verif/shim and /verif/rt admit the schedules of the real libraries (DESIGN.md)'],
        'wall_s': round(time.time() - T0, 2),
        'violations': 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d cases, %d executions, %d states, %d transitions; build %.1fs, total %.1fs, longest step %.0fs%s' % (
        prop, tot.get('cases', 0), tot.get('executions', 0), tot.get('states', 0), tot.get('transitions', 0), t_build,
        time.time() - T0, GAP[0], ', time budget reached' if skipped else ''))
    for m, pm in per_mode.items():
        print('  %s: %s' % (m, pm))
    if viol is not None:
        report(prop, viol, thorough)
        return 1
    if not tot.get('executions'):
        sys.stderr.write('nothing was explored\n')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
