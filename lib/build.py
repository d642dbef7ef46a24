"""Builds the monitored variants of the library from /repo's working tree into /verif/build/<key>/<variant>."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = VERIF + '/harness'
WRAP = '-Wl,--wrap=_CAS128,--wrap=synchGetMachineModel,--wrap=synchResched'
WRAPX = WRAP + ',--wrap=_CASPTR,--wrap=_CAS64,--wrap=_CAS32,--wrap=_SWAP,--wrap=_FAA32,--wrap=_FAA64,--wrap=_BitTAS64'
LIBS = '-lpthread -latomic -lm -lnuma -ldl -lstdc++'
TSAN = '-O1 -fno-inline-functions -march=native -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0'
ASAN = ('-O1 -fno-inline-functions -march=native -fsanitize=address,undefined -fno-sanitize=alignment '
        '-fno-sanitize-recover=undefined -fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores,no-prune')
# the flags of the project's makefile
RELEASE = '-Ofast -fPIC -flto -ftree-vectorize -finline-functions -march=native -mtune=native'


class Infra(Exception):
    pass


def cfg(sed=None, defs=''):
    return dict(kind='clang', lib=TSAN, sed=sed, defs=defs, harness='', link='', wrap=WRAP)


VARIANTS = {
    'tsan': cfg(),
    'asan': dict(kind='clang', lib=ASAN, sed=None, defs='', harness='-DARENA_MALLOC -DNO_SIGHANDLER',
                 link='-fsanitize=address,undefined', wrap=WRAPX),
    'asm': dict(kind='release', defs='', hooks=True),
    'asmdebug': dict(kind='release', defs='-DDEBUG', hooks=True),
    'rel': dict(kind='release', defs='', hooks=False),
    'reldebug': dict(kind='release', defs='-DDEBUG', hooks=False),
    'nonuma': cfg(sed=(r'^\s*#\s*define\s+SYNCH_NUMA_SUPPORT.*$', '')),
    'nocompact': cfg(sed=(r'^\s*#\s*define\s+SYNCH_COMPACT_ALLOCATION.*$', '')),
    'norec': cfg(defs='-DSYNCH_POOL_NODE_RECYCLING_DISABLE'),
    'debug': cfg(defs='-DDEBUG'),
    'emu': cfg(defs='-DSYNCH_EMULATE_FAA -DSYNCH_EMULATE_SWAP'),
    'nobk': cfg(defs='-DSYNCH_DISABLE_BACKOFF'),
    'ring': cfg(defs='-DRING_POW=2'),
}
CLIB = ('adapters', 'ad_clhhash', 'ad_dsmhash', 'shim')


def sources():
    L = REPO + '/libconcurrent'
    return sorted(glob.glob(L + '/primitives/*.c') + glob.glob(L + '/concurrent/*.c'))


def tree_key():
    h = hashlib.sha256()
    for base in (REPO + '/libconcurrent', H, VERIF + '/lib'):
        for root, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.cpp', '.S', '.py')):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def sh(cmd, cwd):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Infra('command failed: %s\n%s' % (cmd, p.stdout.decode(errors='replace')[-3000:]))


def obj(path):
    return os.path.basename(path).rsplit('.', 1)[0]


def compile_cmds(name, d):
    v = VARIANTS[name]
    L = REPO + '/libconcurrent'
    inc = '-I%s/includes -I%s' % (L, L)
    if v.get('sed'):
        os.makedirs(d + '/cfg', exist_ok=True)
        s = open(L + '/config.h').read()
        open(d + '/cfg/config.h', 'w').write(re.sub(v['sed'][0], v['sed'][1], s, flags=re.M))
        inc = '-I%s/cfg ' % d + inc
    out = []
    if v['kind'] == 'clang':
        for f in sources():
            out.append('clang -std=gnu89 -w -g %s %s %s -c %s -o o/L%s.o' % (v['lib'], v['defs'], inc, f, obj(f)))
        for f in CLIB:
            out.append('clang -std=gnu89 -w -g -O2 %s %s %s -I%s -c %s/%s.c -o o/H%s.o' % (v['harness'], v['defs'], inc, H, H, f, f))
        for f in ('sched', 'interpose'):
            out.append('clang -w -g -O2 %s -I%s -c %s/%s.c -o o/H%s.o' % (v['harness'], H, H, f, f))
        for x in ('mon', 'misc'):
            out.append('clang++ -std=c++17 -w -g -O1 %s -I%s -c %s/%s.cpp -o m/%s.o' % (v['harness'], H, H, x, x))
    else:
        for f in sources():
            out.append('gcc -std=gnu89 -w %s %s %s -c %s -o l/L%s.o' % (RELEASE, v['defs'], inc, f, obj(f)))
        for f in CLIB:
            out.append('gcc -std=gnu89 -w %s %s %s -I%s -c %s/%s.c -o l/H%s.o' % (RELEASE, v['defs'], inc, H, H, f, f))
        for f in ('sched', 'interpose'):
            out.append('gcc -w -g -O2 -DASM_HOOKS -I%s -c %s/%s.c -o o/H%s.o' % (H, H, f, f))
        out.append('gcc -c %s/vf_hook.S -o o/Hvf.o' % H)
        for x in ('mon', 'misc'):
            out.append('g++ -std=c++17 -w -g -O1 -I%s -c %s/%s.cpp -o m/%s.o' % (H, H, x, x))
    return out


def link(name, d):
    v = VARIANTS[name]
    if v['kind'] == 'clang':
        for x in ('mon', 'misc'):
            sh('clang -o %s o/*.o m/%s.o %s %s %s' % (x, x, v['link'], v['wrap'], LIBS), d)
        return
    # whole-library link-time optimisation to assembly, as in a release build; hooks are added afterwards
    sh('gcc -flto=4 %s -r -flinker-output=nolto-rel -save-temps l/*.o -o all.o' % RELEASE.replace('-flto', ''), d)
    objs = 'all.o'
    if v['hooks']:
        objs = ''
        ss = sorted(glob.glob(d + '/*.ltrans.s'))
        sh('%s %s/lib/asmhook.py .hooked.s %s' % (sys.executable, VERIF, ' '.join(ss)), d)
        for s in ss:
            o = s[:-2] + '.hooked'
            sh('gcc -c %s.s -o %s.o' % (o, o), d)
            objs += ' ' + o + '.o'
        if not objs:
            raise Infra('no assembly was produced')
    for x in ('mon', 'misc'):
        sh('gcc -o %s %s o/*.o m/%s.o %s' % (x, objs, x, LIBS), d)
    for f in set(glob.glob(d + '/*.ltrans*') + glob.glob(d + '/all.o*')):
        if not f.endswith('.hooked.s'):
            os.unlink(f)


def build(names):
    """returns {variant: directory}; builds what is missing"""
    os.makedirs(VERIF + '/build', exist_ok=True)
    with open(VERIF + '/build/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(names)


def build_locked(names):
    key = tree_key()
    root = VERIF + '/build/' + key
    todo = [n for n in names if not os.path.exists('%s/%s/ok' % (root, n))]
    if todo:
        base = VERIF + '/build'
        os.makedirs(root, exist_ok=True)
        others = sorted((p for p in glob.glob(base + '/*') if p != root and not os.path.basename(p).startswith('run')), key=os.path.getmtime)
        for p in glob.glob(base + '/run*'):
            if time.time() - os.path.getmtime(p) > 14400:
                shutil.rmtree(p, ignore_errors=True)
        for p in others[:-2]:
            shutil.rmtree(p, ignore_errors=True)
        ex = ThreadPoolExecutor(os.cpu_count() or 4)
        jobs = []
        for n in todo:
            d = '%s/%s' % (root, n)
            shutil.rmtree(d, ignore_errors=True)
            for s in ('o', 'm', 'l'):
                os.makedirs('%s/%s' % (d, s))
            jobs += [ex.submit(sh, c, d) for c in compile_cmds(n, d)]
        for j in jobs:
            j.result()
        links = [ex.submit(link, n, '%s/%s' % (root, n)) for n in todo]
        for j in links:
            j.result()
        for n in todo:
            d = '%s/%s' % (root, n)
            for s in ('o', 'm', 'l'):
                shutil.rmtree('%s/%s' % (d, s), ignore_errors=True)
            open(d + '/ok', 'w').write(time.strftime('%F %T'))
        ex.shutdown()
    return {n: '%s/%s' % (root, n) for n in names}


if __name__ == '__main__':
    t = time.time()
    print(build(sys.argv[1:] or list(VARIANTS)), '%.1fs' % (time.time() - t))
