"""Concurrent part of the checks: programs for driver/conc.c, their histories judged by Lin.tla (is there a sequential
order of the calls that explains every result?), lock sequences by Locks.tla, unordered accesses by Hb.tla."""
import os, sys, json, random, subprocess, tempfile, re, collections
from concurrent.futures import ThreadPoolExecutor
import build, mc
SMALLS = [16, 32, 48, 64, 100, 128, 256, 500, 1024, 1500, 4096, 8192]
BIGS = [65552, 70000, 81920, 100000, 131072, 140000, 300000]
MIDS = [9000, 12288, 20000, 30000, 65536]

class P:
    """a program: set-up (S), threads (T1..), final part (F)"""
    def __init__(s, rng): s.r = rng; s.l = []; s.nt = 0
    def S(s, *a): s.l.append('S ' + ' '.join(map(str, a)))
    def T(s, t, *a): s.l.append('T%d ' % t + ' '.join(map(str, a)))
    def F(s, *a): s.l.append('F ' + ' '.join(map(str, a)))
    def text(s): return '\n'.join(s.l) + '\n'

def one(p, t, base, sizes, free=('FR', 'FS', 'FP', 'FR', 'FS'), extra=()):
    """appends a random call of thread t on its slots base..base+5"""
    r = p.r
    k = base + r.randrange(5)
    x = r.random()
    if x < .42: p.T(t, r.choice(['A', 'A', 'A', 'CA']), k, r.choice(sizes))
    elif x < .8: p.T(t, r.choice(free), k)
    elif x < .88: p.T(t, 'RE', k, r.choice(sizes))
    elif extra and x < .97: p.T(t, *r.choice(extra))
    else: p.T(t, 'CS', k)

def warm(p, t, base, sizes, n=3):
    for k in range(base, base + n): p.S('A', k, p.r.choice(sizes))

def mix(p):
    sizes = p.r.sample(SMALLS, 2) + p.r.sample(BIGS, 1)
    n = p.r.randint(2, 4)
    for t in range(1, n + 1):
        warm(p, t, t * 10, sizes, p.r.randint(0, 3))
        for _ in range(p.r.randint(3, 6)): one(p, t, t * 10, sizes, extra=[('FL',), ('LK',), ('SD', t * 10 + 7, 40)])
def same(p):
    """everyone in one zone"""
    s = p.r.choice(SMALLS + MIDS)
    for t in range(1, p.r.randint(2, 4) + 1):
        warm(p, t, t * 10, [s], p.r.randint(1, 4))
        for _ in range(p.r.randint(3, 6)): one(p, t, t * 10, [s], extra=[('FL',)])
def queue(p):
    """the set of pending frees under contention"""
    s = p.r.sample(SMALLS, 2)
    for t in range(1, p.r.randint(2, 4) + 1):
        warm(p, t, t * 10, s, 5)
        for k in range(p.r.randint(3, 5)): p.T(t, p.r.choice(['FR', 'FR', 'FR', 'FL', 'A']), t * 10 + k, s[0])
def bigs(p):
    b = p.r.sample(BIGS, 2)
    for t in range(1, p.r.randint(2, 4) + 1):
        warm(p, t, t * 10, b, p.r.randint(1, 3))
        for _ in range(p.r.randint(3, 6)): one(p, t, t * 10, b, free=('FS', 'FS', 'FR', 'FP'), extra=[('LK',), ('FL',), ('MU',), ('VE',)] if p.r.random() < .3 else [('FL',)])
    if p.r.random() < .5:
        for k in range(300, 303): p.S('A', k, p.r.choice(b))
        for k in range(300, 303): p.S('FS', k)
def mail(p):
    """blocks handed from thread to thread and released elsewhere"""
    s = p.r.sample(SMALLS, 2) + [p.r.choice(BIGS)]
    n = p.r.randint(2, 4)
    for t in range(1, n + 1):
        u = t % n + 1
        for k in range(p.r.randint(1, 3)):
            p.T(t, 'A', t * 10 + k, p.r.choice(s)); p.T(t, 'PUT', t * 10 + k, t)
            if p.r.random() < .4: p.T(t, 'A', t * 10 + 6, p.r.choice(s))
            p.T(t, 'GET', t * 10 + 5, u); p.T(t, p.r.choice(['FR', 'FS', 'FP', 'RE', 'FR']), t * 10 + 5, p.r.choice(s))
            if p.r.random() < .3: p.T(t, 'FR', t * 10 + 6)
            if p.r.random() < .3: p.T(t, 'FL')
def pzone(p):
    """one private zone for all, nearly full or not"""
    s = p.r.choice([65536, 65536, 40000, 30000])
    p.S('ZN', 0, s)
    cap = 4194304 // (s + 31 & ~31)
    k = 0
    if p.r.random() < .7:
        for k in range(p.r.randint(max(0, cap - 4), cap)): p.S('ZA', 0, 100 + k)
    for t in range(1, p.r.randint(2, 4) + 1):
        for j in range(p.r.randint(3, 6)):
            x = p.r.random()
            q = t * 10 + p.r.randrange(4)
            if x < .5: p.T(t, 'ZA', 0, q)
            elif x < .7: p.T(t, p.r.choice(['ZF', 'ZF', 'ZFP']), 0, q)
            elif x < .8 and k > 10: p.T(t, 'ZF', 0, 100 + t)
            elif x < .9: p.T(t, 'FR', q)
            else: p.T(t, p.r.choice(['ZLK', 'ZV', 'FL', 'ZMU']), 0)
def pzones(p):
    """zones come and go while others work"""
    n = p.r.randint(2, 4)
    for t in range(1, n + 1):
        s = p.r.choice([32, 64, 1024, 8192, 40000])
        if t == 1 or p.r.random() < .5:
            p.T(t, 'ZN', t, s)
            for j in range(p.r.randint(1, 3)): p.T(t, 'ZA', t, t * 10 + j)
            if p.r.random() < .5: p.T(t, 'ZF', t, t * 10)
            if p.r.random() < .5: p.T(t, 'FR', t * 10 + 1)
            if p.r.random() < .7: p.T(t, 'ZD', t)
            if p.r.random() < .5: p.T(t, 'A', t * 10 + 4, s)
        else:
            warm(p, t, t * 10, [s], 2)
            for _ in range(p.r.randint(2, 5)): one(p, t, t * 10, [s, 64], extra=[('FL',)])
    if p.r.random() < .4:
        p.S('ZN', 6, 64); p.S('ZA', 6, 66); p.S('ZA', 6, 67); p.S('FR', 67)
        p.T(1, 'ZD', 6)
def newzone(p):
    """the zone of a class fills up and a new one is needed"""
    s = p.r.choice([65536, 60000, 40000])
    cap = 4194304 // (s + 31 & ~31)
    for k in range(p.r.randint(cap - 3, cap)): p.S('A', 100 + k, s)
    for t in range(1, p.r.randint(2, 4) + 1):
        for _ in range(p.r.randint(2, 4)): p.T(t, p.r.choice(['A', 'A', 'CA']), t * 10 + p.r.randrange(5), p.r.choice([s, s, 30000]))
        p.T(t, 'FS', t * 10 + p.r.randrange(4))
        if p.r.random() < .3: p.T(t, 'LK')
def retire(p):
    """the zone of a class becomes idle and worn while others use it"""
    s = p.r.choice([12288, 9000, 8192])
    p.S('LOOP', (4194304 // s) * 2 + p.r.randint(0, 3), s)
    n = p.r.randint(2, 4)
    for t in range(1, n + 1):
        p.S('A', t * 10, s)
        for _ in range(p.r.randint(2, 5)): one(p, t, t * 10, [s], free=('FS', 'FR', 'FS'), extra=[('FL',)])
def leak(p):
    s = p.r.sample(SMALLS, 2) + [p.r.choice(BIGS)]
    p.S('ZN', 0, 256)
    for t in range(1, p.r.randint(2, 3) + 1):
        warm(p, t, t * 10, s, 2)
        for _ in range(p.r.randint(1, 3)):
            one(p, t, t * 10, s); p.T(t, *p.r.choice([('LK',), ('ZLK', 0), ('MU',), ('VE',), ('ZA', 0, t * 10 + 8), ('ZF', 0, t * 10 + 8), ('ZV', 0), ('LK',)]))
def tagged(p):
    """tags of live blocks while others use, verify and destroy zones"""
    s = p.r.choice([32, 64, 1000, 8192, 40000])
    p.S('ZN', 0, s); p.S('ZN', 1, p.r.choice([64, 4096]))
    n = p.r.randint(2, 4)
    for t in range(1, n + 1):
        for k in range(2): p.S('ZT', p.r.choice([0, 0, 1]), t * 10 + k)
        for j in range(p.r.randint(3, 6)):
            x = p.r.random()
            z, q = p.r.choice([0, 0, 0, 1]), t * 10 + p.r.randrange(4)
            if x < .3: p.T(t, 'ZT', z, q)
            elif x < .7: p.T(t, 'ZX', z, q, p.r.randrange(4))
            elif x < .85: p.T(t, 'ZFT', z, q)
            else: p.T(t, *p.r.choice([('ZV', z), ('ZLK', z), ('VE',), ('LK',), ('FR', q), ('FL',)]))
    if p.r.random() < .4: p.S('ZN', 2, 64); p.S('ZT', 2, 70); p.T(n, 'ZX', 2, 70, 0); p.T(n, 'ZD', 2)
def traces(p):
    """the profiler's tables while calls are sampled"""
    s = p.r.sample(SMALLS, 2) + [p.r.choice(BIGS)]
    n = p.r.randint(2, 4)
    for t in range(1, n + 1):
        warm(p, t, t * 10, s, 2)
        for _ in range(p.r.randint(3, 6)): one(p, t, t * 10, s, extra=[('TQ',), ('TQ',), ('FL',)])
        if p.r.random() < .6: p.T(t, 'TQ')
    p.S('TX'); p.F('TQ')
def protect(p):
    s = p.r.sample(SMALLS, 2)
    p.T(1, 'PR'); p.T(1, 'Y'); p.T(1, 'Y'); p.T(1, 'UP'); p.T(1, 'A', 10, s[0]); p.T(1, 'PR'); p.T(1, 'Y'); p.T(1, 'UP')
    for t in range(2, p.r.randint(2, 4) + 1):
        for k in range(p.r.randint(2, 4)):
            p.T(t, *p.r.choice([('A', t * 10 + k, p.r.choice(s)), ('FL',), ('A', t * 10 + k, p.r.choice(s)), ('CA', t * 10 + k, p.r.choice(s))]))
THEMES = dict(mix=mix, same=same, queue=queue, bigs=bigs, mail=mail, pzone=pzone, pzones=pzones, newzone=newzone, retire=retire, leak=leak, protect=protect, traces=traces, tagged=tagged)

def expand(h):
    """history of the driver -> record for Lin.tla"""
    nt = h['nt'] + 1
    ops, iv = [[] for _ in range(nt)], [[] for _ in range(nt)]
    zc = list(h['zc'])
    pend = []
    for t, inv, ret, op, a, b, r in sorted(h['ev'], key=lambda e: e[1]):
        if op == 're': sub = [('al', 0, b, 0), ('fp' if h.get('permre') else 'fs', a, 0, 0)]
        elif op == 'lk': sub = [('lkc', 0, 0, r % 4096), ('lkb', 0, 0, r // 4096)]
        else: sub = [(op, a, b, r)]
        for s in sub: ops[t].append(dict(o=s[0], a=s[1], b=s[2], r=s[3])); iv[t].append((inv, ret))
    for t in range(nt):
        for i, o in enumerate(ops[t]):
            # calls of every thread that had returned before this one was invoked
            o['pre'] = [sum(1 for (v, w) in iv[u] if w < iv[t][i][0]) if u != t else i for u in range(nt)]
    nb = len(h['blk'])
    ov = [[] for _ in range(nb)]
    for x, y in h['ov']: ov[x - 1].append(y); ov[y - 1].append(x)
    return dict(q=h['q'], ops=ops, kind=[x[0] for x in h['blk']], zone=[x[1] for x in h['blk']], pages=[x[2] // 4096 for x in h['blk']], ov=ov, zc=zc + [0], live0=h['live0'], perm0=h['perm0'])

def tlc(module, cfgf, env, d, workers=1, heap='3g'):
    m = tempfile.mkdtemp(prefix='tlc', dir=d)
    r = subprocess.run(['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-cp', mc.CP, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', m, '-config', cfgf, module],
                       cwd=mc.SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    st = tr = 0
    for x in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states found', r.stdout): tr, st = (int(v.replace(',', '')) for v in x.groups())
    return r.stdout, st, tr

def lin(hs, d, n):
    """-> indices of the histories no sequential order explains"""
    f = os.path.join(d, 'h%d' % n)
    open(f, 'w').write(''.join(json.dumps(h) + '\n' for h in hs))
    out, st, tr = tlc('Lin.tla', 'Lin.cfg', dict(HIST=f), d)
    ok = {int(x) for x in re.findall(r'"?OK\|(\d+)', out)}
    if 'Model checking completed' not in out:
        if len(hs) == 1: return ['TLC: ' + ' '.join(l for l in out.split('\n') if 'rror' in l)[:400]], st, tr
        bad, k = [], len(hs) // 2
        for part, off in ((hs[:k], 0), (hs[k:], k)):
            b, s2, t2 = lin(part, d, n * 2 + 7000 + (off > 0)); bad += [x + off if isinstance(x, int) else x for x in b]; st += s2; tr += t2
        return bad, st, tr
    return [i for i in range(len(hs)) if i + 1 not in ok], st, tr

def locks(seqs, d):
    """seqs: set of 'OP:L0U0...' -> (problems, states)"""
    pr = {}
    prot = {}
    probs = []
    for s in sorted(seqs):
        op, ev = s.split(':', 1)
        ev = re.findall(r'([LUX])(\d+)', ev)
        if any(k == 'X' for k, _ in ev): probs.append('%s releases a lock that is not held (%s)' % (op, s))
        ev = [('U' if k == 'X' else k, int(l)) for k, l in ev]
        if op in ('PR', 'UP'): prot[op] = tuple(ev); continue
        # between two parts of a call in which it holds nothing it is like two calls
        part, held = [], set()
        for k, l in ev:
            part.append((k, l))
            if k == 'L': held.add(l)
            else: held.discard(l)
            if not held: pr.setdefault(tuple(part), op); part = []
        if part: pr.setdefault(tuple(part), op)
    if 'PR' in prot and 'UP' in prot: pr.setdefault(prot['PR'] + prot['UP'], 'PR..UP')
    if not pr: return probs, 0, 0, 0
    f = os.path.join(d, 'locks')
    open(f, 'w').write(''.join(json.dumps(dict(op=o, ev=[dict(k=k, l=l) for k, l in e])) + '\n' for e, o in sorted(pr.items())))
    st = tr = 0
    for n in (2, 3) if len(pr) <= 30 else (2,):
        c = os.path.join(d, 'locks%d.cfg' % n)
        open(c, 'w').write(open(os.path.join(mc.SPEC, 'Locks.cfg')).read().replace('N = 2', 'N = %d' % n))
        out, s, t = tlc('Locks.tla', c, dict(LOCKS=f), d, workers=4)
        st += s; tr += t
        probs += sorted({x for x in re.findall(r'LOCK\|(.*?)"?$', out, re.M)})[:3]
        if 'Model checking completed. No error' not in out and not probs: probs.append('TLC: ' + ' '.join(l for l in out.split('\n') if 'rror' in l)[:300])
        if probs: break
    return probs, st, tr, len(pr)

class Job:
    def __init__(s, cfg, theme, text, seed, n): s.cfg, s.theme, s.text, s.seed, s.n = cfg, theme, text, seed, n

def drive(j, d, k, timeout=600):
    exe = build.build_conc(j.cfg)
    w = os.path.join(d, 'c%d' % k); os.makedirs(w, exist_ok=True)
    open(w + '/p', 'w').write(j.text)
    p = subprocess.Popen([exe, w + '/p', w + '/o', str(j.seed), str(j.n)], cwd=w, env=dict(os.environ, DRV_CFG=j.cfg, DRV_SEED=str(j.seed), DRV_PLACE='0'), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try: p.wait(timeout)
    except subprocess.TimeoutExpired: pass
    try: os.killpg(p.pid, 9)
    except OSError: pass
    p.wait()
    j.h, j.locks = [], []
    if os.path.exists(w + '/o'):
        for l in open(w + '/o'):
            try: x = json.loads(l)
            except ValueError: continue
            if 'h' in x: j.h.append(x)
            elif 'locks' in x: j.locks = x['locks']
    return j

def jobs(prop, tier, seed, prof):
    out = []
    for cfg, theme, n, sched in prof:
        if tier != 'quick': n, sched = n * 4, sched * 4
        for k in range(n):
            rng = random.Random('%s/%s/%s/%d/%d' % ('conc', cfg, theme, seed, k))
            p = P(rng); THEMES[theme](p)
            out.append(Job(cfg, theme, p.text(), rng.randrange(1, 1 << 40) * 64 + 1, sched))
    return out

def hb(js, d):
    """accesses the driver found unordered, judged by Hb.tla -> [(job, history, where)], states"""
    pairs = {}
    for j in js:
        for x in j.h:
            for r in x['h'].get('race', []):
                if x['h'].get('syn'): pairs.setdefault((j.cfg, r[0], r[1]), (j, x, r))
    if not pairs: return [], 0, 0
    names = {}
    for cfg in {k[0] for k in pairs}:
        pcs = sorted({p for k in pairs if k[0] == cfg for p in k[1:3]})
        o = subprocess.run(['addr2line', '-f', '-e', build.build_conc(cfg)] + ['0x%x' % (int(p, 16) - 1) for p in pcs], stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for i, p in enumerate(pcs): names[cfg, p] = (o[2 * i], os.path.basename(o[2 * i + 1]))
        o = subprocess.run(['nm', '-n', '-S', build.build_conc(cfg)], stdout=subprocess.PIPE, text=True).stdout
        for l in o.split('\n'):
            q = l.split()
            if len(q) == 4 and q[2] in 'bBdD': names.setdefault((cfg, 'data'), []).append((int(q[0], 16), int(q[1], 16), q[3]))
    todo = []
    for (cfg, a, b), (j, x, r) in sorted(pairs.items(), key=lambda v: v[0]):
        fa, fb = names[cfg, a], names[cfg, b]
        ad = int(r[2], 16)
        obj = [n for s, z, n in names.get((cfg, 'data'), []) if s < ad + 8 and ad < s + z]
        # the state of the random generator is not kept consistent between threads; the number of live samples is
        # looked at before the lock is taken and again under it
        if 'us_rand_uint64' in (fa[0], fb[0]) or '_sane_sampled' in obj: continue
        ev = [dict(t=t, k='give' if g else 'take', o=str(o)) for t, g, o in x['h']['syn']]
        ta, ia, tb, ib = r[4:8]
        tr = ev[:ia] + [dict(t=ta, k='first', o='')] + ev[ia:ib] + [dict(t=tb, k='second', o='')]
        todo.append((j, x, '%s in %s (%s) and in %s (%s)%s' % ('writes' if r[3] == 2 else 'a read and a write', fa[0], fa[1], fb[0], fb[1], ' of ' + obj[0] if obj else ''), tr))
    if not todo: return [], 0, 0
    f = os.path.join(d, 'hb')
    open(f, 'w').write(''.join(json.dumps(t[3]) + '\n' for t in todo))
    out, st, tr = tlc('Hb.tla', 'Hb.cfg', dict(HBT=f), d)
    return [todo[int(i) - 1][:3] for i in sorted(set(re.findall(r'RACE\|(\d+)', out)))], st, tr
def check(prop, tier, seed, d, prof, log):
    js = jobs(prop, tier, seed, prof)
    with ThreadPoolExecutor(4) as ex: list(ex.map(build.build_conc, sorted({j.cfg for j in js})))
    log('running %d concurrent programs' % len(js))
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda x: drive(x[1], d, x[0]), enumerate(js)))
    bad = []       # (property, rule, job, history)
    hist = []
    nsched = 0
    for j in js:
        if not j.h: bad.append(('C17', 'the concurrent program produced no history', j, None)); continue
        for x in j.h:
            nsched += x['cnt']
            c = x['h'].get('crash')
            if c:
                p = 'C18' if c in ('deadlock', 'hang', 'lock', 'lock held') else 'C17'
                bad.append((p, '%s: %s' % (c, x['h'].get('detail')), j, x))
            else:
                x['h']['permre'] = build.CFGS[j.cfg]['defs'].get('PERM_FREE_REALLOC')
                hist.append((j, x, expand(x['h'])))
    log('%d schedules, %d distinct histories' % (nsched, len(hist)))
    seen, uniq = set(), []
    for j, x, e in hist:
        k = json.dumps(e, sort_keys=True)
        if k not in seen: seen.add(k); uniq.append((j, x, e))
    ng = max(1, min(8, len(uniq) // 20 or 1))
    parts = [uniq[i::ng] for i in range(ng)]
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda q: lin([e for _, _, e in q[1]], d, q[0]), enumerate(parts)))
    st = tr = 0
    for part, (b, s, t) in zip(parts, rs):
        st += s; tr += t
        for i in b:
            if isinstance(i, int): bad.append(('C17', 'no sequential order of the calls explains the recorded results', part[i][0], part[i][1]))
            else: bad.append(('C17', i, part[0][0], part[0][1]))
    log('%d histories judged, %d states' % (len(uniq), st))
    nl = 0
    cfgs = sorted({j.cfg for j in js})
    def lk(cfg):
        w = os.path.join(d, 'l_' + cfg); os.makedirs(w)
        return locks({q for j in js if j.cfg == cfg for q in j.locks}, w)
    with ThreadPoolExecutor(4) as ex:
        for cfg, (pr, s, t, n) in zip(cfgs, ex.map(lk, cfgs)):
            st += s; tr += t; nl += n
            for x in pr: bad.append(('C18', 'lock-level model: ' + x, [j for j in js if j.cfg == cfg][0], None))
    log('lock model done (%d lock programs)' % nl)
    rb, s, t = hb(js, d)
    st += s; tr += t
    for j, x, w in rb: bad.append(('C17', 'two threads access the same allocator state unordered: ' + w, j, x))
    cov = dict(states=st, transitions=tr, traces_validated_against_impl=len(uniq), schedules=nsched, lock_programs=nl, concurrent_programs=len(js),
               samples=[dict(program=uniq[0][0].text.split('\n')[:30], history=uniq[0][1]['h']['ev'][:20])] if uniq else [])
    bad.sort(key=lambda v: v[0] != prop)
    if bad:
        p, rule, j, x = bad[0]
        rd = os.path.join(build.VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        f = os.path.join(rd, '%s.json' % prop)
        json.dump(dict(conc=1, property=prop, rule=rule, broken_rules=sorted({'%s: %s' % (v[0], v[1]) for v in bad}), cfg=j.cfg, theme=j.theme, program=j.text, seed=j.seed, schedule=x and x['seed'], schedules=j.n, history=x and x['h']), open(f, 'w'), indent=1)
        print('%s: %s (configuration %s, concurrent program %s, schedule %s)' % (prop, rule, j.cfg, j.theme, x and x['seed']))
        print('VIOLATION property=%s replay=%s' % (prop, f), flush=True)
        return 1, cov
    return 0, cov

def replay(prop, r, d):
    j = Job(r['cfg'], r['theme'], r['program'], r['seed'], r['schedules'])
    drive(j, d, 0)
    bad = []
    es = []
    for x in j.h:
        if x['h'].get('crash'): bad.append('%s: %s (schedule %d)' % (x['h']['crash'], x['h'].get('detail'), x['seed']))
        else:
            x['h']['permre'] = build.CFGS[j.cfg]['defs'].get('PERM_FREE_REALLOC'); es.append(expand(x['h']))
    if es: bad += ['no sequential order explains history %s' % i for i in lin(es, d, 0)[0]]
    bad += locks(set(j.locks), d)[0]
    for b in bad[:5]: print('broken:', b)
    if bad: print('VIOLATION property=%s replay=(given)' % prop); return 1
    return 0
if __name__ == '__main__':
    import time
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='conc_')
    cfgs = sys.argv[1].split(','); th = sys.argv[2].split(',') if sys.argv[2] != 'all' else list(THEMES)
    print(check('C17', 'quick', int(sys.argv[5]) if len(sys.argv) > 5 else 1, d, [(c, t, int(sys.argv[3]), int(sys.argv[4])) for c in cfgs for t in th], lambda *a: print('[%.1f]' % (time.time() - t0), *a)))
