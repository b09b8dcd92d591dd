"""Builds the simulator flavours from /repo's working tree; results are cached by content under /verif/.build."""
import hashlib, os, re, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VLSIM_REPO', '/repo')
CACHE = os.path.join(ROOT, '.build')
LIBFLAGS = '-std=c99 -Wno-all -w -DNDEBUG -m64 -D_GNU_SOURCE -fno-stack-protector -U_FORTIFY_SOURCE -DVL_BUILD_DLL -fPIC -g1 -ffp-contract=off'.split()
RAW = ['malloc', 'calloc', 'realloc', 'free', 'memalign', 'posix_memalign', 'aligned_alloc', 'strdup']
DIRECT = ['printf', 'vprintf', 'puts', 'putchar', 'fprintf', 'vfprintf', 'fputs', 'fputc', 'fwrite']
CLOCK = ['clock', 'time', 'gettimeofday', 'clock_gettime']
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p.encode() if isinstance(p, str) else p); m.update(b'\0')
    return m.hexdigest()[:24]
def rd(f):
    with open(f, 'rb') as fh: return fh.read()
def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise SystemExit('build failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
def tree_hash(dirs, ext=('.c', '.h', '.tc', '.def')):
    m = hashlib.sha256()
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(d, '*'))):
            if os.path.isfile(f) and f.endswith(ext): m.update(f.encode()); m.update(rd(f))
    return m.hexdigest()
CLIREN = {**{n: 'cli_' + n for n in ['malloc', 'calloc', 'realloc', 'free', 'exit', '_exit', 'abort', '__assert_fail', 'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'fwrite', 'fflush', 'perror', 'rename', 'remove', 'unlink', 'system', 'freopen', 'tmpfile', 'getenv']},
          **{n: 'sim_' + n for n in CLOCK}, 'fopen': 'sim_fopen', 'fclose': 'sim_fclose'}
FLAVOURS = {
  'A': dict(lib=['-O2', '-DVL_DISABLE_OPENMP', '-fsanitize=address', '-fsanitize-coverage=trace-pc'],
            harness=['-O1', '-DSIM_ASAN'], link=['-fsanitize=address'],
            rename={**{n: 'simraw_' + n for n in RAW}, **{n: 'sim_direct_' + n for n in DIRECT}, **{n: 'sim_' + n for n in CLOCK},
                    'fopen': 'sim_fopen', 'fclose': 'sim_fclose', 'pthread_mutex_lock': 'sim_mutex_lock', 'pthread_cond_wait': 'sim_cond_wait'},
            src=['core.c', 'mem.c', 'vfs.c', 'mods.c', 'mods_feat.c', 'mods_ml.c', 'mods_misc.c', 'jobs.c', 'props_a.c', 'props_io.c', 'props_obj.c', 'props_ml.c', 'props_cli.c', 'props_kd.c'], cli=['sift', 'mser']),
  'B': dict(lib=['-O1', '-fno-tree-loop-im', '-fopenmp', '-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0'],
            harness=['-O1', '-DSIM_B'], link=[],
            rename={**{n: 'simraw_' + n for n in RAW}, **{n: 'sim_direct_' + n for n in DIRECT}, **{n: 'sim_' + n for n in CLOCK},
                    'fopen': 'sim_fopen', 'fclose': 'sim_fclose', **{'pthread_' + n: 'sim_' + n for n in ['mutex_init', 'mutex_destroy', 'mutex_lock', 'mutex_trylock', 'mutex_unlock', 'cond_init', 'cond_destroy', 'cond_wait', 'cond_signal', 'cond_broadcast', 'key_create', 'key_delete', 'getspecific', 'setspecific', 'self', 'once']},
                    'memcpy': 'sim_memcpy', 'memcpy@GLIBC_2.2.5': 'sim_memcpy2', 'memmove': 'sim_memmove', 'memset': 'sim_memset', 'qsort': 'sim_qsort'},
            src=['core.c', 'mem.c', 'vfs.c', 'mods.c', 'mods_feat.c', 'mods_ml.c', 'mods_misc.c', 'jobs.c', 'threads_sim.c', 'props_kd.c', 'props_b.c']),
}
# A with the gateways of the toolbox in a simulated host
FLAVOURS['M'] = dict(FLAVOURS['A'], src=['core.c', 'mem.c', 'vfs.c', 'mods.c', 'mods_feat.c', 'mods_ml.c', 'mods_misc.c', 'jobs.c', 'host.c', 'props_mex.c'], cli=[], mex=True, harness=FLAVOURS['A']['harness'] + ['-DSIM_M'])
FLAVOURS['P'] = dict(FLAVOURS['A'], lib=FLAVOURS['A']['lib'] + ['-ftrivial-auto-var-init=pattern'])  # the peer of A, see core.c
def cc_flags(base):
    f = []
    if base.endswith('_sse2.c'): f.append('-msse2')
    if base.endswith('_avx.c'): f.append('-mavx')
    return f
def build(flavour, log=lambda s: None):
    fl = FLAVOURS[flavour]
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, 'lock.' + flavour), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    tb = sorted(d for d in glob.glob(REPO + '/toolbox/*') if os.path.isdir(d)) + [REPO + '/toolbox'] if fl.get('mex') else []
    th = tree_hash([REPO + '/vl'] + ([REPO + '/src'] if fl.get('cli') else []) + tb)
    sh = tree_hash([HERE, HERE + '/host'])
    exe = os.path.join(CACHE, 'exe.%s.%s' % (flavour, h(th, sh, repr(fl), rd(os.path.join(HERE, 'build.py')))))
    if os.path.exists(exe): os.utime(exe); return exe
    jobs = []
    objdir = os.path.join(CACHE, 'obj.' + flavour); os.makedirs(objdir, exist_ok=True)
    def own(f):  # what one source file depends on: itself and everything that is not a .c file; the whole tree if it includes another .c file
        t = rd(f); b = os.path.basename(f)
        inc = re.findall(rb'#\s*include\s*["<]([^">]*\.c)[">]', t)
        return th if any(os.path.basename(i.decode()) != b for i in inc) else h(hdrs, t)
    hdrs = tree_hash([REPO + '/vl', REPO + '/src'], ('.h', '.tc', '.def'))
    libh = h(repr(fl['lib']), repr(fl['rename']), repr(fl.get('cli', '')), repr(CLIREN))
    objs = []
    renfile = os.path.join(objdir, 'rename.%s.txt' % libh)
    with open(renfile, 'w') as f:
        for a, b in fl['rename'].items(): f.write('%s %s\n' % (a, b))
    def one(src, out, flags, ren):
        if os.path.exists(out): return
        t = out + '.tmp%d' % os.getpid()
        run(['gcc', '-c', src, '-o', t] + flags)
        if ren and ren[0] == 'cli': # a program: its entry renamed, everything else in it private
            run(['objcopy'] + [x for a, b in CLIREN.items() for x in ('--redefine-sym', a + '=' + b)] + ['--redefine-sym', 'main=%s_main' % ren[1], t]); run(['objcopy', '-G', ren[1] + '_main', t])
        elif ren and ren[0] == 'mex': # a gateway: its entry is what it exports
            run(['objcopy', '--redefine-syms=' + renfile, '--redefine-sym', 'mexFunction=mex_' + ren[1], '--redefine-sym', 'abort=host_abort', t]); run(['objcopy', '-G', 'mex_' + ren[1], t])
        elif ren is not None: run(['objcopy', '--redefine-syms=' + renfile] + ren + [t])
        os.rename(t, out)
    srcs = sorted(glob.glob(REPO + '/vl/*.c'))
    todo = []
    for s in srcs:
        b = os.path.basename(s); o = os.path.join(objdir, 'lib.%s.%s.o' % (b, h(libh, own(s)))); objs.append(o)
        todo.append((s, o, LIBFLAGS + fl['lib'] + cc_flags(b) + ['-I' + REPO], [] if fl['rename'] else None))
    for c in fl.get('cli', []):
        o = os.path.join(objdir, 'cli.%s.%s.o' % (c, h(libh, own(REPO + '/src/' + c + '.c')))); objs.append(o)
        todo.append((REPO + '/src/' + c + '.c', o, LIBFLAGS + fl['lib'] + ['-I' + REPO, '-I' + REPO + '/src'], ('cli', c)))
    if tb:
        mh = tree_hash(tb, ('.h', '.tc', '.def')); hm = tree_hash([HERE + '/host'])
        for s in sorted(glob.glob(REPO + '/toolbox/*/*.c')):
            b = os.path.basename(s)[:-2]; o = os.path.join(objdir, 'mex.%s.%s.o' % (b, h(libh, hdrs, mh, hm, rd(s)))); objs.append(o)
            todo.append((s, o, LIBFLAGS + fl['lib'] + ['-I' + HERE + '/host', '-I' + REPO, '-I' + REPO + '/toolbox'], ('mex', b)))
    hh = h(sh, repr(fl['harness']), hdrs)
    for s in fl['src']:
        o = os.path.join(objdir, 'sim.%s.%s.o' % (s, hh)); objs.append(o)
        todo.append((os.path.join(HERE, s), o, ['-std=gnu11', '-Wall', '-Wno-unused-function', '-Wno-misleading-indentation', '-Wno-format-truncation', '-Wno-builtin-declaration-mismatch', '-g1', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-ffp-contract=off', '-I' + REPO, '-I' + HERE] + fl['harness'], None))
    with ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(one, *t) for t in todo]: r.result()
    t = exe + '.tmp%d' % os.getpid()
    run(['gcc', '-o', t] + objs + fl['link'] + ['-Wl,--wrap=' + f for f in ('vl_cpu_has_avx', 'vl_cpu_has_sse2', 'vl_cpu_has_sse3')] + ['-lm', '-lpthread'])
    os.rename(t, exe)
    now = {os.path.basename(o) for o in objs}
    old = sorted((f for f in os.listdir(objdir) if f not in now and f.endswith('.o')), key=lambda f: os.path.getmtime(os.path.join(objdir, f)))
    for f in old[:-120]: os.unlink(os.path.join(objdir, f))  # keep the last ones only
    exes = sorted((f for f in os.listdir(CACHE) if f.startswith('exe.%s.' % flavour)), key=lambda f: os.path.getmtime(os.path.join(CACHE, f)))
    for f in exes[:-4]: os.unlink(os.path.join(CACHE, f))
    return exe
if __name__ == '__main__':
    for f in (sys.argv[1:] or FLAVOURS): print(build(f))
