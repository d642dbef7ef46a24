#!/usr/bin/env python3
"""check.py <property>: run the monitors of one property against /repo's working tree.
exit 0 = held on everything observed, 1 = violation (VIOLATION line), 2 = the check itself failed."""
import json, os, re, signal, struct, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, campaigns

VERIF = build.VERIF
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=11:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1', LC_ALL='C')
NOISE = re.compile(r'^(STATS|SAMPLE|MONITOR-VIOLATION|round-config|history| )')


class Proc:
    pass


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget, jobs = campaigns.plan(pid)
    if tier == 'thorough':
        budget *= 18
    dirs = build.build(sorted({j.variant for j in jobs}))
    t_build = time.time() - t0
    slots = max(2, os.cpu_count() or 4)
    tot = sum(j.weight * j.slots for j in jobs)
    work = []
    for k, j in enumerate(jobs):
        secs = budget * j.weight / tot
        n = max(1, int(secs / j.slice + .5))
        sl = max(.6, secs / n)
        for i in range(n):
            work.append((j, seed * 1000003 + k * 977 + i * 31337, sl, i))
    work.sort(key=lambda w: (w[3], ))           # first slice of every job first
    tmp = tempfile.mkdtemp(prefix='run', dir=VERIF + '/build')
    res = run(work, dirs, slots, tmp)
    ev = finish(pid, tier, seed, res, jobs, t0, t_build, tmp)
    subprocess.run(['rm', '-rf', tmp])
    sys.exit(ev)


def run(work, dirs, slots, tmp):
    live, res, free, i = [], [], slots, 0
    stop = False
    queue = list(work)
    while queue or live:
        k = 0
        while not stop and k < len(queue) and k < 12:
            j, sd, sl, _ = queue[k]
            need = min(j.slots, slots)
            if need <= free:
                queue.pop(k)
                p = Proc()
                p.job, p.seed, p.need, p.out = j, sd, need, '%s/%d.out' % (tmp, i)
                p.hashes = '%s/%d.h' % (tmp, i)
                i += 1
                p.cmd = '%s/%s %s --secs %.2f --seed %d' % (dirs[j.variant], j.prog, j.args, sl, sd)
                p.t0, p.limit = time.time(), sl + 200
                p.p = subprocess.Popen(p.cmd.split(), stdout=open(p.out, 'wb'), stderr=open(p.out + '.err', 'wb'), stdin=subprocess.DEVNULL,
                                       env=dict(ENV, MON_HASHES=p.hashes), cwd=tmp, start_new_session=True, preexec_fn=limits)
                free -= need
                live.append(p)
            else:
                k += 1
        time.sleep(.02)
        for p in list(live):
            rc = p.p.poll()
            if rc is None:
                if time.time() - p.t0 > p.limit:
                    p.timeout = True
                    kill(p)
                    rc = p.p.wait()
                else:
                    # bound the output of a program that floods its stderr
                    if os.path.getsize(p.out + '.err') > 64 << 20:
                        os.truncate(p.out + '.err', 1 << 20)
                    continue
            p.rc, p.wall = rc, time.time() - p.t0
            kill(p)
            live.remove(p)
            free += p.need
            classify(p)
            res.append(p)
            if p.violation and not stop:
                stop = True
                queue = []
                for q in live:
                    q.stopped = True
                    kill(q)
    return [p for p in res if not getattr(p, 'stopped', False)]


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def kill(p):
    try:
        os.killpg(p.p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def text(fn, n=200000):
    try:
        with open(fn, 'rb') as f:
            return f.read(n).decode(errors='replace')
    except OSError:
        return ''


def classify(p):
    p.violation = p.error = None
    p.stats = p.sample = None
    if getattr(p, 'stopped', False):
        return
    out = text(p.out, 1 << 20)
    for l in out.splitlines():
        if l.startswith('STATS '):
            p.stats = json.loads(l[6:])
        elif l.startswith('SAMPLE '):
            p.sample = l[7:]
        elif l.startswith('MONITOR-VIOLATION'):
            p.violation = l
    if p.violation:
        return
    err = text(p.out + '.err', 4 << 20)
    m = re.search(r'^.*(runtime error:|ERROR: AddressSanitizer).*$', err, re.M)
    if m:
        p.violation = 'MONITOR-VIOLATION kind=sanitizer msg=' + m.group(0)[:300]
    elif getattr(p, 'timeout', False):
        p.error = 'time limit exceeded: ' + p.cmd
    elif p.rc < 0 and -p.rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT, signal.SIGTRAP):
        p.violation = 'MONITOR-VIOLATION kind=crash msg=the program died of signal %d' % -p.rc
    elif p.rc != 0 and p.rc != 2 and p.rc > 0:
        p.violation = 'MONITOR-VIOLATION kind=exit msg=the library ended the process with status %d: %s' % (p.rc, err[-300:].replace('\n', ' '))
    elif p.rc != 0 or not p.stats:
        p.error = 'exit %s: %s: %s' % (p.rc, p.cmd, err[-500:])


def known(pid):
    """recorded, unrepaired defects: 'known: property=<id> match=<regular expression> what=<text>'"""
    r = []
    for l in text(VERIF + '/known_findings.txt').splitlines():
        m = re.match(r'known: property=(\S+) match=(.*?) what=(.*)$', l)
        if m and m.group(1) == pid:
            r.append((re.compile(m.group(2)), m.group(3)))
    return r


def finish(pid, tier, seed, res, jobs, t0, t_build, tmp):
    viol = [p for p in res if p.violation]
    errs = [p for p in res if p.error]
    kf = known(pid)
    for rx, what in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    viol = [p for p in viol if not any(rx.search(p.violation) for rx, _ in kf)]
    hashes = set()
    for p in res:
        if p.stats and os.path.exists(p.hashes):
            b = open(p.hashes, 'rb').read()
            if len(hashes) < 20000000:
                hashes.update(struct.unpack('<%dQ' % (len(b) // 8), b))
    groups = {}
    for p in res:
        if not p.stats:
            continue
        g = groups.setdefault('%s %s %s' % (p.job.variant, p.job.prog, ' '.join(p.job.args.split())), {'processes': 0})
        g['processes'] += 1
        for k, v in p.stats.items():
            if k.startswith('max_') or k in ('served_threads', 'foot_worst_growth', 'instrumented'):
                g[k] = max(g.get(k, 0), v)
            elif v:
                g[k] = round(g.get(k, 0) + v, 2)
    sums = {k: sum(g.get(k, 0) for g in groups.values()) for k in
            ('rounds', 'ops', 'switches', 'accesses', 'concurrent_rounds', 'wgl', 'wgl_nodes', 'stalls', 'checks', 'fifo_waiters', 'foot_ops')}
    samples = []
    for p in res:
        if p.sample and len(samples) < 6 and not any(s['variant'] == p.job.variant and s['args'] == p.job.args for s in samples):
            samples.append({'variant': p.job.variant, 'args': p.job.args, 'seed': p.seed, 'case': p.sample[:1500]})
    if not samples:
        samples = [{'command': p.cmd, 'stats': p.stats} for p in res[:3]]
    cov = {
        'evaluations': int(sums['rounds']),
        'distinct_nontrivial': len(hashes),
        'rule': rule(jobs),
        'samples': samples,
        'observed': {k: int(v) for k, v in sums.items() if v},
        'campaigns': groups,
        'processes': len(res),
        'build_s': round(t_build, 1),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    replay = None
    if viol:
        p = viol[0]
        replay = '%s/evidence/%s.replay.txt' % (VERIF, pid)
        m = re.search(r'round=(-?\d+)', p.violation)
        again = re.sub(r'--secs \S+', '--secs 0', p.cmd) + (' --round ' + m.group(1) if m else '')
        with open(replay, 'w') as f:
            f.write('%s\n\nbuild:  python3 %s/lib/build.py %s\nrun:    %s\nreplay: %s\n(ctrl mode replays exactly; free and delay modes are re-run)\n\n--- stdout\n%s\n--- stderr (head and tail)\n%s\n...\n%s\n' %
                    (p.violation, VERIF, p.job.variant, p.cmd, again, text(p.out, 60000), text(p.out + '.err', 6000), text(p.out + '.err', 4 << 20)[-6000:]))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'violations': len(viol), 'wall_s': round(time.time() - t0, 1),
          'assumptions': ['x86-64 with the memory order of the machine the check runs on; ctrl mode explores interleavings of single memory accesses, sequentially consistent or (release assembly) with simulated store buffers',
                          'libnuma, the CPU count and the affinity calls are stand-ins that describe a virtual machine']}
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    print('%s %s: %d executions (%d distinct concurrent or non-trivial), %d operations, %d scheduling points, %d context switches, %d violations, %.0f s' %
          (pid, tier, sums['rounds'], len(hashes), sums['ops'], sums['accesses'], sums['switches'], len(viol), time.time() - t0))
    if viol:
        print(viol[0].violation[:600])
        print('command: ' + viol[0].cmd)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if errs:
        for p in errs[:5]:
            print('ERROR ' + p.error, file=sys.stderr)
        return 2
    bad = [g for g, s in groups.items() if not s.get('rounds')]
    noins = [g for g, s in groups.items() if not g.startswith('rel ') and g.split()[1] == 'mon' and not s.get('instrumented')]
    if bad or noins or not groups:
        print('ERROR nothing observed by: %s; not instrumented: %s' % (bad, noins), file=sys.stderr)
        return 2
    return 0


def rule(jobs):
    if any(j.prog == 'mon' for j in jobs):
        return ('An execution = one random round (object, threads, fibers, topology, values, operation mix, scheduling strategy drawn from the seed) on the real code. '
                'Non-trivial: at least two operations overlapped in time; distinct: by hash of the order of all invocations and responses, the results and (ctrl mode) the complete schedule, '
                'deduplicated over all processes.')
    return ('An execution = one random round of the campaign (parameters drawn from the seed) on the real code; distinct and non-trivial: by hash of the drawn parameters and of what was observed, '
            'deduplicated over all processes.')


try:
    main()
except build.Infra as e:
    print('ERROR %s' % e, file=sys.stderr)
    sys.exit(2)
