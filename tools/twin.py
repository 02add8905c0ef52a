"""Runs of the same program with different entropy, judged together by spec/Twin.tla."""
import os, sys, random, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build, check, mc

def program(rng, d, kind):
    """allocations only"""
    out, n = [], [0]
    e = lambda *a: out.append(' '.join(str(x) for x in a))
    def A(sz): n[0] += 1; e('A', n[0], sz)
    def ZA(h): n[0] += 1; e('ZA', h, n[0])
    if d['defs'].get('AUTO_CTOR_DTOR', 1) == 0: e('INIT')
    sizes = [32, 64, 128, 256, 512, 1024, 2048, 4096, 8192]
    if kind == 'short':
        for sz in rng.sample(sizes, 3):
            for _ in range(18): A(sz - rng.randint(0, 3))
        for k in range(6): A(65537 + rng.randint(0, 300000))
        for h in (1, 2):
            e('ZN', h, 48)
            for _ in range(18): ZA(h)
        e('ZN', 3, rng.choice([300, 700, 1500]))
        for _ in range(18): ZA(3)
    elif kind == 'long':
        for sz in rng.sample(sizes[:6], 2):
            for _ in range(330): A(sz)
        e('ZN', 1, 96)
        for _ in range(330): ZA(1)
    elif kind == 'tags':
        for h, sz in ((1, 4096), (2, 4096), (3, rng.choice([2048, 8192]))):
            e('ZN', h, sz)
            for _ in range(160): ZA(h)
    elif kind == 'fill':            # zones that are made because others are full
        for _ in range(1100): A(8192)
        for k in range(12): A(rng.choice([65537, 80000, 130000]))
    else:
        for sz in (32, 64, 512): 
            for _ in range(5): A(sz)
        e('ES')
        for h in (1, 2, 3):
            sz = rng.choice([32, 48, 64, 128, 256, 500, 1000])
            e('ZN', h, sz)
            for _ in range(18): ZA(h)
        sz = rng.choice([300, 5000, 6000])
        for _ in range(18): A(sz)
    return '\n'.join(out) + '\n'

def drive(exe, cfg, text, seed, place, d, n):
    w = os.path.join(d, 't%d' % n); os.makedirs(w, exist_ok=True)
    sp, tp = os.path.join(w, 'script'), os.path.join(w, 'trace')
    open(sp, 'w').write(text)
    if os.path.exists(tp): os.remove(tp)
    env = dict(os.environ, DRV_CFG=cfg, DRV_TWIN='1', DRV_PLACE=str(place), DRV_SEED=str(seed))
    if '\nES\n' in text: env.update(DRV_SEED='77', DRV_SEED2=str(seed))
    try: rc = subprocess.run([exe, sp, tp], cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
    except subprocess.TimeoutExpired: return None
    return open(tp, 'rb').read() if rc in (0, 3) and os.path.exists(tp) else None

def one(job):
    cfg, kind, text, seeds, place, d = job
    exe = build.build(cfg)
    parts = [drive(exe, cfg, text, s, place, d, k) for k, s in enumerate(seeds)]
    if any(x is None for x in parts): return job, [('CRASH', 'a run does not come to its end', 0, '')], 0
    f = os.path.join(d, 'all'); b = b''.join(parts); open(f, 'wb').write(b)
    lines = b.split(b'\n')[:-1]
    m = tempfile.mkdtemp(prefix='tlc', dir=d)
    r = subprocess.run(['java', '-Xmx3g', '-Xss64m', '-XX:+UseSerialGC', '-cp', mc.CP, 'tlc2.TLC', '-workers', '1', '-noGenerateSpecTE', '-metadir', m, '-config', 'Twin.cfg', 'Twin.tla'],
                       cwd=mc.SPEC, env=dict(os.environ, TRACE=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res, done = [], False
    for l in r.stdout.split('\n'):
        p = l.strip().strip('"').split('|')
        if p[0] == 'VIOL': res.append((p[1], p[2], int(p[3]), lines[int(p[3]) - 1].decode()[:500]))
        elif p[0] == 'CRASH': res.append(('CRASH', 'valid call ended the process: %s in "%s"' % (p[1], '|'.join(p[3:])), int(p[2]), lines[int(p[2]) - 1].decode()[:500]))
        elif p[0] == 'DONE': done = int(p[1]) == len(lines)
    if not done: res.append(('CRASH', 'the recorded runs cannot be read as behaviours: ' + ' '.join(x for x in r.stdout.split('\n') if 'rror' in x)[:300], 0, r.stdout[-800:]))
    return job, res, len(lines)

def jobs_of(prop, plan, tier, seed, d):
    """plan: [(configuration, kind, programs, runs of each, placement)]"""
    jobs = []
    for cfg, kind, progs, runs, place in plan:
        if tier != 'quick': progs, runs = progs * 4, runs * 4
        for k in range(progs):
            rng = random.Random('%s/%s/%s/%d/%d' % (prop, cfg, kind, seed, k))
            w = os.path.join(d, '%s_%s_%d' % (cfg, kind, k)); os.makedirs(w)
            jobs.append((cfg, kind, program(rng, build.CFGS[cfg], kind), [rng.getrandbits(62) for _ in range(runs)], place, w))
    return jobs
def run(prop, plan, tier, seed, d, workers=8):
    jobs = jobs_of(prop, plan, tier, seed, d)
    with ThreadPoolExecutor(workers) as ex: return list(ex.map(one, jobs))
