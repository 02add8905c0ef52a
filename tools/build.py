"""Builds the driver against /repo's current sources in the configurations of the matrix."""
import os, sys, subprocess, hashlib, shutil, re, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
BASE = ('-std=gnu11 -w -DTHREAD_SUPPORT=1 -pthread -DPRE_POPULATE_PAGES=0 -DABORT_NO_ENTROPY=1 '
        '-DRANDOMIZE_FREELIST=1 -DHUGE_PAGES=1 -DTHP_PAGES=1 -DUSE_MLOCK=1 -DMASK_PTRS=1 -DDONT_USE_NEON=1 -DUNIT_TESTING=1 -DLEAK_DETECTOR=1').split()
ON = {'SMALL_MEM_STARTUP': 0, 'AUTO_CTOR_DTOR': 1, 'NO_ZERO_ALLOCATIONS': 1}

def cfg(defs=None, sed=None, flags='', cc='clang', opt='-O1', hook=0, mem=0, prof=0, obs=1):
    return dict(defs=dict(ON, **(defs or {})), sed=sed or {}, flags=flags.split(), cc=cc, opt=opt, hook=hook, mem=mem, prof=prof)
SMALLQ = {'CHUNK_QUARANTINE_SZ': 3, 'ZONE_ALLOC_RETIRE': 2, 'BIG_ZONE_MAX_FREE_LIST': 2, 'BIG_ZONE_ALLOC_RETIRE': 3}
CFGS = {
    'base': cfg(),
    'gcc': cfg(cc='gcc', opt='-O2'),
    'smallq': cfg(sed=SMALLQ),
    'sane': cfg({'ALLOC_SANITY': 1}, sed={'SANITY_SAMPLE_ODDS': 3, 'MAX_SANE_SAMPLES': 4}),
    'tag': cfg({'MEMORY_TAGGING': 1}, sed={'ZONE_ALLOC_RETIRE': 4}),
    'sanit': cfg({'SANITIZE_CHUNKS': 1}, sed={'CHUNK_QUARANTINE_SZ': 5, 'BIG_ZONE_MAX_FREE_LIST': 4}),
    'guards': cfg({'BIG_ZONE_GUARD': 1, 'BIG_ZONE_META_DATA_GUARD': 1, 'PROTECT_FREE_BIG_ZONES': 1}, sed={'BIG_ZONE_MAX_FREE_LIST': 3, 'BIG_ZONE_ALLOC_RETIRE': 4}),
    'strong': cfg({'STRONG_SIZE_ISOLATION': 1}),
    'spin': cfg({'USE_SPINLOCK': 1}),
    'nothr': cfg({'THREAD_SUPPORT': 0}, sed={'CHUNK_QUARANTINE_SZ': 4}),
    'smallmem': cfg({'SMALL_MEM_STARTUP': 1}),
    'mem': cfg({'MEMCPY_SANITY': 1, 'MEMSET_SANITY': 1}, opt='-O2', mem=1),
    'hook': cfg({'MALLOC_HOOK': 1}, hook=1),
    'prof': cfg({'HEAP_PROFILER': 1}, sed={'PROFILER_ODDS': 2}, flags='-fno-omit-frame-pointer -fno-optimize-sibling-calls -fcommon', prof=1),
    'dtorsane': cfg({'ISO_DTOR_CLEANUP': 1, 'AUTO_CTOR_DTOR': 0, 'ALLOC_SANITY': 1}, sed={'SANITY_SAMPLE_ODDS': 3, 'MAX_SANE_SAMPLES': 4}),
    'nocan': cfg({'DISABLE_CANARY': 1, 'SANITIZE_CHUNKS': 1}, sed={'CHUNK_QUARANTINE_SZ': 5}),
    'nomask': cfg({'MASK_PTRS': 0}),
    'verif': cfg({'VERIFY_FREE_BIT_SLOTS': 1}, sed={'CHUNK_QUARANTINE_SZ': 2}),
    'fuzz': cfg({'FUZZ_MODE': 1}, sed={'CHUNK_QUARANTINE_SZ': 2, 'BIG_ZONE_MAX_FREE_LIST': 2}),
    'permre': cfg({'PERM_FREE_REALLOC': 1}),
    'zero': cfg({'NO_ZERO_ALLOCATIONS': 0}),
    'aon': cfg({'ABORT_ON_NULL': 1}),
    'uaf': cfg({'UAF_PTR_PAGE': 1}, sed={'CHUNK_QUARANTINE_SZ': 2}),
    'named': cfg({'NAMED_MAPPINGS': 1, 'PRE_POPULATE_PAGES': 1}),
    'cpupin': cfg({'CPU_PIN': 1}),
    'norand': cfg({'RANDOMIZE_FREELIST': 0, 'HUGE_PAGES': 0, 'THP_PAGES': 0, 'USE_MLOCK': 0}, sed={'CHUNK_QUARANTINE_SZ': 7}),
    'cores': cfg({'CPU_PIN': 1}, sed={'CHUNK_QUARANTINE_SZ': 4, 'ZONE_ALLOC_RETIRE': 2}, flags='-DSCHED_GETCPU'),
    'coretag': cfg({'CPU_PIN': 1, 'MEMORY_TAGGING': 1, 'SANITIZE_CHUNKS': 1, 'SMALL_MEM_STARTUP': 1}, sed={'CHUNK_QUARANTINE_SZ': 4}, flags='-DSCHED_GETCPU'),
    'uafs': cfg({'UAF_PTR_PAGE': 1, 'SMALL_MEM_STARTUP': 1}, sed={'UAF_PTR_PAGE_ODDS': 2, 'CHUNK_QUARANTINE_SZ': 2}),
    'uninit': cfg({'ALLOC_SANITY': 1, 'UNINIT_READ_SANITY': 1}, sed={'SANITY_SAMPLE_ODDS': 3, 'MAX_SANE_SAMPLES': 4}),
    # combinations
    'dtor': cfg({'ISO_DTOR_CLEANUP': 1, 'AUTO_CTOR_DTOR': 0, 'BIG_ZONE_GUARD': 1}, sed={'CHUNK_QUARANTINE_SZ': 5}),
    'dtortag': cfg({'ISO_DTOR_CLEANUP': 1, 'AUTO_CTOR_DTOR': 0, 'MEMORY_TAGGING': 1, 'BIG_ZONE_GUARD': 1, 'BIG_ZONE_META_DATA_GUARD': 1, 'UAF_PTR_PAGE': 1, 'USE_SPINLOCK': 1}, sed=SMALLQ),
    'tagsan': cfg({'MEMORY_TAGGING': 1, 'SANITIZE_CHUNKS': 1}, sed={'CHUNK_QUARANTINE_SZ': 3, 'ZONE_ALLOC_RETIRE': 2}),
    'guardsan': cfg({'BIG_ZONE_GUARD': 1, 'BIG_ZONE_META_DATA_GUARD': 1, 'SANITIZE_CHUNKS': 1}, sed={'BIG_ZONE_MAX_FREE_LIST': 2, 'BIG_ZONE_ALLOC_RETIRE': 3}),
    'sanesmall': cfg({'ALLOC_SANITY': 1, 'STRONG_SIZE_ISOLATION': 1, 'SANITIZE_CHUNKS': 1}, sed=dict(SMALLQ, SANITY_SAMPLE_ODDS=2, MAX_SANE_SAMPLES=3)),
}

def walk(d):
    for root, ds, fs in os.walk(os.path.join(REPO, d)):
        ds.sort()
        for f in sorted(fs): yield os.path.join(root, f)
def repo_hash():
    h = hashlib.sha256()
    for d in ('src', 'include'):
        for p in walk(d):
            if os.path.isfile(p): h.update(os.path.relpath(p, REPO).encode() + b'\0' + open(p, 'rb').read())
    return h
def drv_hash():
    h = repo_hash()
    for d in ('driver', 'tools'):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            p = os.path.join(VERIF, d, f)
            if os.path.isfile(p) and (d == 'driver' or f == 'build.py'):
                h.update(f.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()[:16]

def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))

def sources(inc_dst, src_dst, sed):
    for d, o in (('include', inc_dst), ('src', src_dst)):
        for p in walk(d):
            q = os.path.join(o, os.path.relpath(p, os.path.join(REPO, d)))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            s = open(p, errors='surrogateescape').read()
            for k, v in sed.items():
                s = re.sub(r'(?m)^(\s*#\s*define\s+%s\s+)\S+' % k, lambda m: m.group(1) + str(v), s)
            open(q, 'w', errors='surrogateescape').write(s)

def flags_of(c):
    fl = [x for x in BASE if x.split('=')[0][2:] not in c['defs']]
    return fl + ['-D%s=%s' % kv for kv in c['defs'].items()] + c['flags']

def build(name):
    """path of the driver executable for configuration name"""
    c = CFGS[name]
    d = os.path.join(BUILD, drv_hash(), name)
    exe = os.path.join(d, 'drv')
    if os.path.exists(exe): return exe
    os.makedirs(os.path.dirname(d), exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        t = d + '.tmp%d' % os.getpid()
        shutil.rmtree(t, ignore_errors=True)
        inc, src = t + '/include', t + '/src'
        sources(inc, src, c['sed'])
        fl = flags_of(c)
        if c['mem']: ren = ['-Dmemcpy=hk_memcpy', '-Dmemmove=hk_memmove', '-Dmemset=hk_memset']
        else: ren = []
        jobs = []
        objs = []
        for f in sorted(os.listdir(src)):
            if not f.endswith('.c') or f == 'iso_alloc_mte.c' and False: continue
            o = os.path.join(t, f[:-2] + '.o')
            r = []
            if f == 'libc_hook.c': r = ren
            if f == 'malloc_hook.c' and c['hook']:
                r = ['-D%s=hk_%s' % (x, x) for x in ('malloc', 'free', 'calloc', 'realloc', 'reallocarray', 'posix_memalign', '__posix_memalign', 'aligned_alloc', 'memalign', 'malloc_usable_size',
                     '__libc_malloc', '__libc_free', '__libc_calloc', '__libc_realloc', '__libc_reallocarray', '__libc_memalign', '__malloc_hook', '__realloc_hook', '__free_hook', '__memalign_hook')]
            jobs.append([c['cc'], c['opt'], '-g'] + fl + r + ['-I' + inc, '-c', os.path.join(src, f), '-o', o])
            objs.append(o)
        dv = os.path.join(VERIF, 'driver')
        ext = (['-DDRV_HOOK=1'] if c['hook'] else []) + (['-DDRV_MEM=1'] if c['mem'] else []) + (['-DDRV_PROF=1'] if c['prof'] else [])
        for f in ('drv.c', 'shadow.c', 'cfg.c'):
            o = os.path.join(t, 'v_' + f[:-2] + '.o')
            g = ['-fno-builtin'] + ext + (['-fno-omit-frame-pointer', '-fno-optimize-sibling-calls'] if c['prof'] else [])
            if f == 'cfg.c': g += fl
            jobs.append([c['cc'], '-O2', '-g', '-w', '-std=gnu11', '-D_GNU_SOURCE=1', '-pthread'] + g + ['-I' + inc, '-I' + dv, '-c', os.path.join(dv, f), '-o', o])
            objs.append(o)
        if c['hook']:
            o = os.path.join(t, 'iso_cpp.o')
            jobs.append(['clang++' if c['cc'] == 'clang' else 'g++', '-std=c++17', c['opt'], '-g', '-w'] + [x for x in fl if not x.startswith('-std')] + ['-DCPP_SUPPORT=1', '-I' + inc, '-c', os.path.join(src, 'iso_alloc.cpp'), '-o', o])
            objs.append(o)
            o = os.path.join(t, 'hook_cpp.o')
            jobs.append(['clang++', '-std=c++17', '-O1', '-g', '-w', '-fno-builtin', '-fsized-deallocation', '-c', os.path.join(dv, 'hook_cpp.cpp'), '-o', o])
            objs.append(o)
        with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
        ld = c['cc'] if not c['hook'] else 'clang++'
        run([ld, '-pthread', '-o', t + '/drv', *objs, '-ldl', '-lm', '-Wl,-export-dynamic'])
        shutil.rmtree(d, ignore_errors=True)
        os.rename(t, d)
    return exe

def build_conc(name):
    """path of the executable for controlled schedules: the allocator compiled so that every shared access, lock call
    and system call reaches the scheduler of driver/conc.c"""
    c = CFGS[name]
    d = os.path.join(BUILD, drv_hash(), name + '_conc')
    exe = os.path.join(d, 'conc')
    if os.path.exists(exe): return exe
    os.makedirs(os.path.dirname(d), exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe
        t = d + '.tmp%d' % os.getpid()
        shutil.rmtree(t, ignore_errors=True)
        inc, src = t + '/include', t + '/src'
        sources(inc, src, c['sed'])
        fl = flags_of(c)
        ren = ['-Dpthread_mutex_%s=vs_mutex_%s' % (x, x) for x in ('init', 'destroy', 'lock', 'trylock', 'unlock')] + ['-D%s=vs_%s' % (x, x) for x in ('mmap', 'munmap', 'mprotect', 'madvise')]
        jobs, objs = [], []
        for f in sorted(os.listdir(src)):
            if not f.endswith('.c'): continue
            o = os.path.join(t, f[:-2] + '.o')
            jobs.append(['clang', '-O1', '-g', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-fno-inline'] + fl + ren + ['-I' + inc, '-c', os.path.join(src, f), '-o', o])
            objs.append(o)
        dv = os.path.join(VERIF, 'driver')
        for f in ('conc.c', 'shadow.c', 'tsan_rt.c', 'cfg.c'):
            o = os.path.join(t, 'v_' + f[:-2] + '.o')
            jobs.append(['clang', '-O2', '-g', '-w', '-std=gnu11', '-D_GNU_SOURCE=1', '-pthread', '-fno-builtin', '-fno-omit-frame-pointer', '-fno-optimize-sibling-calls'] + (fl if f == 'cfg.c' else []) + ['-I' + inc, '-I' + dv, '-c', os.path.join(dv, f), '-o', o])
            objs.append(o)
        with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
        run(['clang', '-pthread', '-no-pie', '-o', t + '/conc', *objs, '-ldl', '-lm', '-Wl,-export-dynamic'])
        shutil.rmtree(d, ignore_errors=True)
        os.rename(t, d)
    return exe

if __name__ == '__main__':
    names = sys.argv[1:] or list(CFGS)
    def b(n):
        try: return n, build(n)
        except Exception as e: return n, 'FAILED ' + str(e)[-1500:]
    with ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(b, names): print(n, r)
