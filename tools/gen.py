"""Writes scripts of calls for the driver. Directed random workloads; every choice comes from the seed.
The generator only keeps enough state to make the calls of a correct program (probes apart, which run in a
forked child); what has to happen is the specification's business."""
import random

SMALL = 65536
EDGES = [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025,
         1056, 1500, 2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9000, 16383, 16384, 16385, 30000, 32767, 32768, 32769, 40000, 65503, 65504, 65535, 65536]
BIGS = [65537, 65568, 69632, 70000, 73728, 80000, 100000, 131071, 131072, 131073, 200000, 262144, 300000, 524288, 1000000, 1048576, 2000000, 4194304]

class W:
    def __init__(s, rng, cfg):
        d = cfg['defs']
        s.rng, s.cfg, s.out = rng, cfg, []
        s.live, s.freed, s.perm, s.nid, s.nh, s.h, s.ng = {}, [], [], 1, 1, {}, 1
        s.dead = []           # ids whose release can be certain (immediate frees)
        s.tags = d.get('MEMORY_TAGGING', 0)
        s.sane = d.get('ALLOC_SANITY', 0)
        s.aon = d.get('ABORT_ON_NULL', 0)
        s.strong = d.get('STRONG_SIZE_ISOLATION', 0)
        s.qcap = int(cfg['sed'].get('CHUNK_QUARANTINE_SZ', 64))
        s.blist = int(cfg['sed'].get('BIG_ZONE_MAX_FREE_LIST', 64))
        s.ret = int(cfg['sed'].get('ZONE_ALLOC_RETIRE', 32))
        s.bttl = int(cfg['sed'].get('BIG_ZONE_ALLOC_RETIRE', 512))
        s.zero = d.get('NO_ZERO_ALLOCATIONS', 1)
        s.maxlive = 60
        if d.get('AUTO_CTOR_DTOR', 1) == 0: s.e('INIT')
        s.palette = None
    def e(s, *a): s.out.append(' '.join(str(x) for x in a))
    def text(s):
        if s.cfg['defs'].get('UNINIT_READ_SANITY'):      # the fault monitor does not survive a fork: no experiments in children
            s.out = [x for x in s.out if x.split()[0] not in ('PF', 'PC', 'PM', 'PS', 'PTAG', 'T', 'PI', 'FI')]
        return '\n'.join(s.out) + '\n'
    def id(s): s.nid += 1; return s.nid - 1
    # sizes
    def small(s):
        r = s.rng
        if s.palette and r.random() < .8: return r.choice(s.palette)
        x = r.random()
        if x < .5: return r.choice(EDGES)
        if x < .8: return r.randint(1, 2000)
        return min(SMALL, int(2 ** r.uniform(0, 16)))
    def big(s):
        r = s.rng
        x = r.random()
        if x < .5: return r.choice(BIGS)
        if x < .8: return 65536 + r.randint(1, 60) * 4096 - r.choice([0, 0, 1, 31, 4095])  # close sizes: reuse and waste
        return r.randint(65537, 3000000)
    def size(s, pbig=.15): return s.big() if s.rng.random() < pbig else s.small()
    def pick(s, pred=lambda b: True):
        l = [i for i, b in s.live.items() if pred(b)]
        return s.rng.choice(l) if l else None
    # allocations
    def A(s, sz=None, pbig=.15):
        sz = s.size(pbig) if sz is None else sz
        i = s.id(); s.e('A', i, sz)
        if sz > 0 or not s.zero: s.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
        return i
    def C(s, n=None, m=None):
        r = s.rng
        if n is None:
            t = s.size(); n = r.choice([1, 1, 2, 3, 5, 16, 100]); n = min(n, t); m = max(1, t // n)
        i = s.id(); s.e('C', i, n, m)
        big = n * m > SMALL
        if n and m and n * ((m + 31) & ~31) < 1 << 32: s.live[i] = dict(sz=n * m, h=0, big=big)
        return i
    def R(s, old=None, sz=None, arr=False):
        r = s.rng
        if old is None: old = 0 if r.random() < .15 else (s.pick(lambda b: b['h'] == 0) or 0)
        if sz is None:
            x = r.random()
            o = s.live[old]['sz'] if old in s.live else 100
            sz = 0 if x < .08 else max(1, o + r.choice([-33, -32, -1, 0, 1, 31, 32, 4096])) if x < .4 else s.size()
        i = s.id()
        if arr:
            n = r.choice([1, 2, 3, 10]); m = sz // n
            s.e('RA', old, i, n, m); sz = n * m
        else: s.e('R', old, i, sz)
        if old: s.live.pop(old, None); s.freed.append(old) if sz == 0 else s.dead.append(old)
        if sz: s.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
        return i
    def SD(s):
        r = s.rng; i = s.id()
        ln = r.choice([0, 1, 5, 7, 8, 15, 30, 31, 32, 33, 63, 64, 100, 1000, 4095, 4096, 65535, 65536, 70000]) if r.random() < .6 else r.randint(0, 3000)
        if r.random() < .05: ln = -1
        if r.random() < .5:
            s.e('SD', i, ln); t = ln + 1
        else:
            n = r.choice([0, 1, max(ln, 0), max(ln, 0) + 1, max(ln - 1, 0), 10, 100, 1 << 40])
            s.e('SN', i, ln, n); t = min(n, ln) + 1
        if ln >= 0: s.live[i] = dict(sz=t, h=0, big=t > SMALL)
        return i
    def SDZ(s):
        r = s.rng
        hs = list(s.h)
        if not hs: return
        h = r.choice(hs); cs = max(32, s.h[h])
        i = s.id()
        ln = r.choice([0, 1, 7, 8, cs - 2, cs - 1, cs // 2])
        t = r.random() < .2
        if t: ln = r.choice([cs, cs + 1, cs * 2, cs + 31, 100000])
        if r.random() < .05: ln = -1; t = False
        pre = ['T'] if t else []
        if r.random() < .5:
            s.e(*pre, 'SDZ', h, i, ln); t2 = ln + 1
        else:
            n = r.choice([0, 1, max(ln, 0), max(ln, 0) + 1, max(ln - 1, 0), cs - 1])
            if not t: n = min(n, cs - 1) if n > cs else n
            s.e(*pre, 'SNZ', h, i, ln, n); t2 = min(n, ln) + 1
        if not t and ln >= 0: s.live[i] = dict(sz=t2, h=h, big=False)
    # zones
    def ZN(s, sz=None):
        r = s.rng
        if sz is None: sz = r.choice([1, 16, 32, 33, 48, 64, 100, 128, 256, 512, 1000, 1024, 2048, 3000, 4096, 5000, 8192, 16384, 32768, 65536, 65536])
        h = s.nh; s.nh += 1
        s.e('ZN', h, sz)
        if sz <= SMALL: s.h[h] = (sz + 31) // 32 * 32 if sz > 0 else 32
        return h
    def ZA(s, h=None):
        hs = list(s.h)
        if not hs: return s.ZN()
        h = h or s.rng.choice(hs)
        i = s.id(); s.e('ZT' if s.tags and s.rng.random() < .5 else 'ZA', h, i)
        s.live[i] = dict(sz=s.h[h], h=h, big=False)
        return i
    def ZD(s, h=None):
        hs = list(s.h)
        if not hs: return
        h = h or s.rng.choice(hs)
        s.e('ZD', h); s.h.pop(h)
        for i in [i for i, b in s.live.items() if b['h'] == h]: s.live.pop(i)
        s.freed = []; s.dead = [i for i in s.dead]
    # frees
    def F(s, i=None):
        i = i or s.pick()
        if i is None: return
        s.e('F', i); s.live.pop(i); s.freed.append(i)
        return i
    def FS(s, i=None):
        i = i or s.pick(lambda b: not (s.tags and b['h']) or True)
        if i is None: return
        b = s.live[i]; r = s.rng
        sz = b['sz']
        if b['big']: sz = r.choice([sz, sz, max(65537, sz - 1000)]) 
        else: sz = r.choice([sz, sz, r.randint(0, sz), max(0, sz - 1)])
        s.e('FS', i, sz); s.live.pop(i); s.dead.append(i)
        return i
    def FZ(s, i=None):
        i = i or s.pick(lambda b: b['h'] in s.h)
        if i is None: return
        b = s.live.pop(i)
        s.e('FZT' if s.tags and s.rng.random() < .5 else 'FZ', b['h'], i); s.dead.append(i)
        return i
    def FP(s, i=None):
        i = i or s.pick()
        if i is None: return
        b = s.live.pop(i)
        if b['h'] in s.h and s.rng.random() < .5: s.e('FZP', b['h'], i)
        else: s.e('FP', i)
        s.perm.append(i)
        return i
    def anyfree(s):
        f = s.rng.choice([s.F, s.F, s.F, s.FS, s.FS, s.FZ, s.FP])
        return f()
    def FL(s): s.e('FL'); s.dead += s.freed; s.freed = []
    def V(s): s.e('V')
    def VZ(s): s.e('VZ', s.rng.choice(list(s.h) + [0]))
    def Q(s):
        i = s.pick()
        if i: s.e('Q', i)
    def CC(s):
        if s.h: s.e('CC', s.rng.choice(list(s.h)))
    def LK(s):
        s.e('LK')
        if s.h: s.e('LKZ', s.rng.choice(list(s.h)))
    def MU(s):
        s.e('MU')
        if s.h: s.e('MUZ', s.rng.choice(list(s.h)))
    def FN(s): s.e('FN', s.rng.choice(list(s.h) + [0]))
    def NM(s): s.e('NM', s.rng.choice(list(s.h) + [0]))
    def PRUP(s): s.e('PR'); s.e('UP')
    def CH(s, n=None, sz=None, h=0):
        r = s.rng
        sz = sz or r.choice([16, 32, 64, 100, 256, 512, 1024, 2048, 4096, 8192])
        s.e('CH', n or r.choice([3, 50, 500]), sz, h)
    def fillg(s, n, sz, h=0):
        if s.aon and h: n = min(n, 10)      # a refused request ends the process
        g = s.ng; s.ng += 1
        s.e('FI', g, n, sz, h); return g
    def fillzone(s):
        if s.sane or s.aon: return
        r = s.rng
        if r.random() < .5 or not s.h:
            sz = r.choice([4096, 8192, 16384, 32768, 65536, 2048])
            g = s.fillg(r.choice([10, 64, 4194304 // sz + 5]), sz)
            z = 0
        else:
            h = r.choice(list(s.h))
            n = 4194304 // max(32, s.h[h]) + 5
            if n > 9000: n = 500
            g = s.fillg(n, s.h[h], h)
            z = h
        if r.random() < .3: s.e('FG', g, 'P' if r.random() < .3 else 'S', z, r.randint(0, 20), r.randint(1, 30))
        if r.random() < .5: s.anymix()
        s.e('FG', g, 'Z' if z and r.random() < .7 else 'S', z)
    def anymix(s):
        for _ in range(4): s.step(MIX)
    # probes: frees that must be detected, or must not
    def tok(s):
        """a target with a short word"""
        r = s.rng
        x = r.random()
        ids = list(s.live) + s.freed + s.perm + s.dead[-10:]
        if not ids: return None
        i = r.choice(ids)
        if x < .45: return ('b', i, 0)
        if x < .65:
            b = s.live.get(i, dict(sz=64, big=0))
            return ('b', i, r.choice([1, 2, 4, 8, 16, 24, 32, b['sz'] // 2, max(1, b['sz'] - 1), 4096 if b['big'] else 8, 64]))
        if x < .72: return ('c', i, r.randint(0, 50))
        if x < .80: return ('s', i, r.choice([0, 1, 2, 3, 63, 64, 100, 1000, 5000, 131071, 65535]))
        if x < .84: return ('S', i, r.choice([0, 8, 16, 24, 32, 40, 4194296, 4194288, 4194272, 2097152, 12345]))
        if x < .88: return ('m', i, r.choice([0, 8, 16, 64]))
        if x < .93: return ('R', r.randint(0, 12), r.choice([0, 8, 16, 64]))
        return (r.choice(['t', 'H', 'd', 'w']), r.randint(1, 1000000), r.choice([0, 8, 1]))
    def PF(s, fl=None, t=None, h=None, size=None):
        r = s.rng
        t = t or s.tok()
        if not t: return
        fl = fl or r.choice(['F', 'F', 'FS', 'FS', 'FP', 'FZ', 'FZP', 'R', 'Q'])
        if h is None:
            h = r.choice(list(s.h) + [0]) if s.h else 0
            b = s.live.get(t[1])
            if b and b['h'] in s.h and r.random() < .5: h = b['h']
        if fl in ('FZ', 'FZP') and h == 0:
            if not s.h: fl = 'F'
            else: h = r.choice(list(s.h))
        if size is None:
            b = s.live.get(t[1], dict(sz=64, big=0))
            sz = b['sz']
            up = (sz + 4095) // 4096 * 4096 if b.get('big') else max(32, (sz + 31) // 32 * 32)
            size = r.choice([sz, sz, max(1, sz - 1), up, up + 1, 2 * up, 8 * up + 1, 65537, 1 << 20, (1 << 64) - 1]) if fl == 'FS' else r.choice([0, 1, sz, 100, 70000]) if fl == 'R' else 0
        s.e('PF', fl, h, size, *t)
    def NB(s):
        """a neighbour of a freed or canary chunk, if we may know one: detectors"""
        r = s.rng
        x = r.random()
        if x < .3: return ('V', 0, 0)
        if x < .4: return ('X', 0, 0)
        if x < .5 and s.h: return ('VZ', r.choice(list(s.h)), 0)
        i = s.pick()
        if i is None: return ('V', 0, 0)
        b = s.live[i]
        if x < .8:
            return (r.choice(['F', 'FS', 'FP']), i, 0) if not (b['h'] in s.h and r.random() < .6) else ('FZ', i, b['h'])
        if x < .9 and s.h: return ('AZ', r.choice(list(s.h)), 400)
        return ('AL', max(1, s.small()), 300)
    def PC(s, t=None, det=None):
        r = s.rng
        ids = list(s.live) + s.freed + s.perm + s.dead[-10:]
        ids = [i for i in ids if i]
        if not ids: return
        if t is None:
            i = r.choice(ids)
            x = r.random()
            t = ('b', r.choice((s.dead[-10:] + s.freed + s.perm) or ids), 0) if x < .6 else ('c', i, r.randint(0, 60)) if x < .9 else ('s', i, r.randint(0, 200))
        det = det or s.NB()
        s.e('PC', *t, r.choice([0, 1, 3, 6, 7, 8, 9, 12, 14, 15]), r.choice([1, 2, 4, 16, 128, 255]), *det)
    def PM(s, i=None, det=None):
        r = s.rng
        i = i or s.pick(lambda b: b['big']) if r.random() < .7 else (s.dead and r.choice(s.dead[-10:]))
        if not i: return
        det = det or r.choice([('V', 0, 0), ('X', 0, 0), ('F', i, 0), ('FS', i, 0), ('FP', i, 0), ('Q', i, 0), ('AL', r.choice(BIGS), 3)])
        if det[0] in ('F', 'FS', 'FP', 'Q') and i not in s.live: det = ('V', 0, 0)
        s.e('PM', i, r.randint(0, 1), r.choice([0, 0, 1, 5]), *det)
    def PT(s):
        r = s.rng
        i = s.pick()
        if i is None: return
        x = r.random()
        if x < .2: s.e('PT', 'z', 0, r.choice([0, 8, 4095]))
        elif x < .7: s.e('PT', 'g', i, r.choice([0, 8, 4095, -1, -8, -4096]))
        else: s.e('PT', 'b', i, r.choice([0, s.live[i]['sz'] - 1]))
    def PTAG(s):
        r = s.rng
        ids = [i for i, b in s.live.items() if b['h'] in s.h] + [i for i in s.dead[-20:] + s.freed + s.perm[-5:] if i in s.tagged]
        if not ids: return
        i = r.choice(ids); h = s.live[i]['h'] if i in s.live else s.tagged[i]
        if h not in s.h: return
        s.e('PTAG', r.choice(['VT', 'VT', 'UT', 'FZ', 'FZP']), i, h, r.choice([0, 0, 0, 1, 2, 64, 128, 255, r.randint(0, 255)]), r.choice([0, 1]), 0 if r.random() < .85 else r.choice([4194304, -4194304 * 2, 8388608]))
    def step(s, weights):
        r = s.rng
        if len(s.live) > s.maxlive: return s.anyfree()
        for i, b in s.live.items():
            if b['h'] and s.tags: s.tagged[i] = b['h']
        k = r.choices(list(weights), list(weights.values()))[0]
        f = getattr(s, k)
        return f()
    tagged = {}
    def RA(s): return s.R(arr=True)
    def A0(s): s.e('A', s.id(), 0)
    def AB(s): return s.A(s.big())
    def run(s, n, weights):
        s.tagged = {}
        for _ in range(n): s.step(weights)

MIX = dict(A=22, C=5, R=7, RA=2, SD=3, SDZ=2, ZN=1, ZA=8, ZD=.4, F=14, FS=8, FZ=5, FP=1.5, FL=1, V=.7, VZ=.4, Q=2, CC=.5, LK=1, MU=1, FN=.5, NM=.2, A0=.3)

# ---- workloads: f(w) fills a W ----
def mix(w, n=120, **kw):
    ws = dict(MIX, **kw)
    w.palette = [w.rng.choice(EDGES) for _ in range(4)] if w.rng.random() < .7 else None
    for _ in range(w.rng.choice([0, 1, 2, 3])): w.ZN()
    w.run(n, ws)
    w.e('LK')
    if w.rng.random() < .4: w.FL(); w.e('LK'); w.e('V')
    if w.rng.random() < .5: w.e('X')

def bigs(w, n=70, **kw):
    w.maxlive = w.rng.choice([4, 10, 40])
    base = w.rng.choice(BIGS)
    ws = dict(AB=25, A=3, F=10, FS=14, FP=1, FL=2, R=4, C=3, Q=1, LK=1, MU=1, V=1)
    if w.rng.random() < .6:      # sizes close to each other: reuse, waste limits, use limits
        orig = w.big
        w.big = lambda: max(65537, base + w.rng.choice([-8, -5, -4, -3, -2, -1, 0, 0, 0, 0, 1, 2, 3, 4, 5, 8]) * 4096 + w.rng.choice([0, 0, 1, -1]))
    w.run(n, dict(ws, **kw))
    w.FL(); w.e('LK'); w.e('MU')
    if w.rng.random() < .7: w.e('X')
def bigcycle(w, **kw):
    """one big block over and over, past its use limit"""
    sz = w.rng.choice(BIGS)
    for _ in range(w.rng.choice([1, 2])): w.A(w.rng.choice(BIGS))
    for _ in range(w.bttl + w.rng.choice([2, 5, 20])):
        i = w.A(sz); (w.FS if w.rng.random() < .9 else w.F)(i)
        if w.rng.random() < .05: w.A(w.big())
    w.FL(); w.e('MU'); w.e('LK')
def biglist(w, **kw):
    """more free big blocks than the list keeps, then reuse in many sizes"""
    n = w.blist + w.rng.choice([1, 2, 5])
    base = w.rng.choice([65537, 131072, 400000])
    ids = [w.A(base + k * w.rng.choice([4096, 8192, 20480])) for k in range(n)]
    w.rng.shuffle(ids)
    for i in ids: (w.FS if w.rng.random() < .7 else w.F)(i)
    if w.rng.random() < .8: w.FL()
    w.e('MU')
    for k in range(n):
        w.A(max(65537, base + k * 4096 - w.rng.choice([0, 1, 4096, 16384, 20480])))
        if w.rng.random() < .3: w.anyfree()
    w.e('V'); w.e('LK')
def quarantine(w, n=60, **kw):
    """fill the quarantine to the brim, with small, private and big blocks in it"""
    for _ in range(w.rng.choice([0, 1, 2])): w.ZN()
    w.palette = [w.rng.choice(EDGES) for _ in range(2)]
    ws = dict(A=6, AB=.5, ZA=2, FS=.7, FL=.3, R=.5, LK=.5, V=.2)
    for rnd in range(3):
        for _ in range(w.qcap + w.rng.choice([-1, 0, 1, 2])):
            w.A() if w.rng.random() < .8 or not w.h else w.ZA()
            w.F()
            if w.rng.random() < .3: w.run(1, ws)
        if w.rng.random() < .2 and w.h: w.ZD()
        if w.rng.random() < .5: w.FL()
        w.e('LK')
    w.A(); w.A(); w.FL(); w.e('V')
    if w.rng.random() < .5: w.e('X')
def zones(w, n=80, **kw):
    for _ in range(w.rng.choice([1, 2, 4])): w.ZN()
    ws = dict(ZN=1, ZA=14, ZD=.7, FZ=7, F=4, FS=3, FP=.7, A=6, R=1, SDZ=3, CC=2, LK=1, MU=1, V=.7, VZ=1, FL=1, NM=.5)
    w.run(n // 2, ws)
    if not w.sane or True:
        h = w.ZN(w.rng.choice([4096, 16384, 32768, 65536, 65536, 65535, 2048, 1, 32, 40]))
        if h in w.h:
            cs = max(32, w.h[h])
            w.e('CC', h)
            n2 = 4194304 // cs + 10
            if n2 > 3000 and w.rng.random() < .7: n2 = w.rng.randint(10, 300)
            if n2 <= 3000 or kw.get('deep') or w.rng.random() < .15:
                g = w.fillg(n2, w.h[h], h)
                w.e('LKZ', h); w.e('LK')
                i = w.id(); w.e('ZA', h, i); w.e('ZA', h, i + 1); w.nid += 1   # full: refused, if it is
                w.e('A', w.id(), w.h[h])
                w.e('FG', g, w.rng.choice(['Z', 'S', 'P', 'Z']), h, w.rng.randint(0, 30), w.rng.randint(1, 20))
                for _ in range(6): w.ZA(h) if n2 < 3000 else None
                w.e('LKZ', h)
                if w.rng.random() < .6: w.e('FG', g, 'Z', h); w.e('LKZ', h)
                if w.rng.random() < .5: w.ZD(h)
    w.run(n // 2, ws)
    w.e('LK')
    if w.rng.random() < .3: w.FL(); w.e('X')
def manyzones(w, n=40, **kw):
    """private zones come and go"""
    for _ in range(n):
        h = w.ZN()
        for _ in range(w.rng.choice([0, 1, 3])):
            if h in w.h: w.ZA(h)
        w.run(w.rng.choice([0, 1, 2]), dict(ZA=3, FZ=2, F=2, A=3, LK=.5))
        if w.rng.random() < .8: w.ZD()
    w.e('MU'); w.e('LK'); w.e('V')
def retire(w, **kw):
    """wear zones out"""
    sz = w.rng.choice([8192, 8192, 16384, 16383, 4096, 12000])
    cap = 4194304 // ((sz + 31) // 32 * 32)
    hold = w.A(sz) if w.rng.random() < .4 else None
    if w.rng.random() < .5: w.ZN(sz)
    lg = w.ret.bit_length() - 1
    tot = cap << lg
    w.CH(tot - w.rng.choice([0, 1, 2, 50]), sz); 
    w.run(6, dict(A=3, FS=2, F=1, LK=1))
    w.CH(w.rng.choice([1, 2, 3, 100]), sz)
    if hold: w.FS(hold) if hold in w.live else None
    w.CH(5, sz)
    for h in list(w.h): w.CH(w.rng.choice([tot + 3, 40]), sz, h)
    w.run(20, dict(A=3, FS=2, F=1, LK=.5, MU=.5, V=.3))
    if w.rng.random() < .5: w.CH(tot + 5, sz)
    w.FL(); w.e('MU'); w.e('LK')
    # blocks of zones that are gone
    for i in w.rng.sample(w.dead, min(5, len(w.dead))): w.PF(t=('b', i, 0), fl=w.rng.choice(['F', 'FS', 'FP', 'R', 'Q']))
    if w.rng.random() < .5: w.e('V')
def storm(w, **kw):
    """one size in large numbers: fill, release parts, fill again, with the caches in every state"""
    r = w.rng
    if w.sane or w.aon: return mix(w)          # groups are recorded for zones only
    sz = r.choice([1, 16, 32, 48, 64, 100, 128, 256, 500, 1024, 2000, 4096])
    hs = [0] + [w.ZN(sz) for _ in range(r.choice([0, 0, 1]))]
    G = []
    for k in range(r.choice([6, 10])):
        h = r.choice(hs)
        x = r.random()
        if x < .45 or not G: G.append((w.fillg(r.choice([10, 100, 254, 255, 256, 300, 520, 700]), sz, h), h))
        elif x < .75:
            g, h = r.choice(G); w.e('FG', g, r.choice(['S', 'S', 'S', 'Z', 'P'] if h else ['S', 'S', 'S', 'P']), h, r.randint(0, 300), r.randint(1, 400))
        elif x < .85: g, h = G.pop(r.randrange(len(G))); w.e('FG', g, 'S', h)
        else: w.CH(r.choice([10, 100, 260, 600]), sz, h)
        for _ in range(r.choice([0, 0, 2, 5])):
            y = r.random()
            if y < .4: w.A(sz)
            elif y < .6: w.F()
            elif y < .75: w.FS()
            elif y < .8: w.FL()
            elif y < .9: w.e('V')
            else: w.LK()
    for _ in range(4): w.PF()
    w.e('LK'); w.e('V')
    if r.random() < .3: w.e('X')
def fills(w, n=30, **kw):
    """several zones full of one size"""
    for _ in range(w.rng.choice([0, 1])): w.ZN(w.rng.choice([8192, 65536]))
    for _ in range(3):
        w.fillzone()
        w.run(n // 3, MIX)
    w.e('LK'); w.e('MU'); w.e('V')
def probes(w, n=60, **kw):
    w.palette = [w.rng.choice(EDGES) for _ in range(3)]
    w.maxlive = 25
    for _ in range(2): w.ZN()
    ws = dict(A=6, AB=1, C=1, R=1.5, ZA=4, F=6, FS=4, FZ=2, FP=1.5, FL=.7, PF=16, A0=.2, SD=.5)
    w.run(n, dict(ws, **kw))
def doublefree(w, n=40, **kw):
    w.palette = [w.rng.choice(EDGES) for _ in range(2)]
    for _ in range(w.rng.choice([0, 1])): w.ZN()
    ws = dict(A=6, AB=1, ZA=2, F=6, FS=4, FZ=2, FP=1.5, FL=.8, R=1)
    for _ in range(n // 2):
        w.run(2, ws)
        ids = (w.freed[-6:], w.dead[-6:], w.perm[-4:])
        l = w.rng.choice(ids)
        if l:
            i = w.rng.choice(l)
            w.PF(t=('b', i, 0), fl=w.rng.choice(['F', 'F', 'FS', 'FP', 'FZ', 'FZP', 'R']) if w.h else w.rng.choice(['F', 'FS', 'FP', 'R']),
                 size=w.rng.choice([0, 1, 32, 100]))
    # the same slot is the only one that is free
    if w.rng.random() < .4:
        sz = w.rng.choice([65536, 40000])
        l = [w.A(sz) for _ in range(4194304 // -(-sz // 32) // 32)]
        bs = w.rng.choice(BIGS)
        b, i = w.A(bs), w.rng.choice(l)
        for x in (i, b): w.rng.choice([w.F, w.FS])(x)
        if w.rng.random() < .7: w.FL()
        w.PF(t=('b', i, 0), fl='R', size=sz)
        w.PF(t=('b', b, 0), fl='R', size=bs)
def corrupt(w, n=60, **kw):
    w.palette = [w.rng.choice(EDGES) for _ in range(3)]
    w.maxlive = 25
    for _ in range(2): w.ZN()
    ws = dict(A=8, AB=1.5, ZA=4, F=6, FS=5, FZ=3, FP=2, FL=1, PC=18, PM=4)
    w.run(n, dict(ws, **kw))
def adjacent(w, **kw):
    """damage next to blocks that are freed, in a dense zone; damage that an allocation runs into"""
    for _ in range(3):
        sz = w.rng.choice([8192, 16384, 32768, 65536, 4096])
        h = w.ZN(sz)
        cap = 4194304 // sz
        ids = [w.ZA(h) for _ in range(min(cap - 2, 40))]
        free = w.rng.sample(ids, 8)
        for i in free:
            r = w.rng.random()
            (w.FZ if r < .5 else w.FP if r < .8 else w.F)(i)
        if w.rng.random() < .5: w.FL()
        for i in free:
            for j in w.rng.sample([i for i in ids if i in w.live], 5):
                w.PC(('b', i, 0), (w.rng.choice(['F', 'FS', 'FP']), j, 0) if w.rng.random() < .5 else ('FZ', j, h))
            w.PC(('b', i, 0), ('AZ', h, 200))
            if w.rng.random() < .5: w.PC(('b', i, 0), ('AL', sz, 100))
            w.PC(('b', i, 0), w.rng.choice([('V', 0, 0), ('VZ', h, 0), ('X', 0, 0)]))
        for k in range(4): w.PC(('c', ids[0], k), w.rng.choice([('V', 0, 0), ('VZ', h, 0), ('X', 0, 0), ('AZ', h, 300)]))
def guards(w, n=40, **kw):
    w.ZN()
    w.run(n, dict(A=8, AB=5, ZA=4, F=2, FS=4, PT=14, C=1, FL=.3))
def strings(w, n=60, **kw):
    for _ in range(3): w.ZN()
    w.run(n, dict(SD=20, SDZ=16, F=8, FS=6, FZ=4, FL=.5, A=4, V=.3, ZN=.5))
def callocs(w, n=60, **kw):
    w.palette = [w.rng.choice(EDGES) for _ in range(3)]
    ws = dict(C=16, A=5, F=5, FS=12, R=2, FP=.3, FL=1.5)
    for k in range(6):
        w.run(n // 6, ws)
        r = w.rng
        m, s = r.choice([(1 << 32, 1 << 32), ((1 << 64) - 1, 2), (1 << 63, 2), (3, 1 << 62), ((1 << 64) - 1, 1), (1, (1 << 64) - 1), (1, (1 << 64) - 31), (2, 1 << 31), (1 << 33, 1 << 31),
                         (0, 5), (5, 0), (0, 0), (65537, 65537), (1 << 16, 1 << 16), (1 << 20, 3 << 12), ((1 << 59) + 1, 32), ((1 << 60), 16), (1 << 61, 9)])
        if m * s >= 1 << 32 or m * s == 0: w.e('C', w.id(), m, s)
    # memory that was used before: same sizes again
    for _ in range(3):
        sz = w.size(.3); i = w.A(sz); w.FS(i); w.C(1, sz)
def reallocs(w, n=60, **kw):
    ws = dict(R=20, RA=8, A=8, C=2, ZA=0, F=3, FS=3, FL=.5, Q=1, LK=.5)
    for k in range(6):
        w.run(n // 6, ws)
        r = w.rng
        old = w.pick(lambda b: b['h'] == 0) or 0
        if r.random() < .5:
            sz = r.choice([(1 << 64) - 1, (1 << 63), (1 << 64) - 4096, (1 << 40), (1 << 64) - 31])
            w.e('R', old, w.id(), sz)
        else:
            m, s = r.choice([(1 << 32, 1 << 32), ((1 << 64) - 1, 2), (1 << 63, 2), (3, 1 << 62), (1 << 33, 1 << 32)])
            w.e('RA', old, w.id(), m, s)
    w.e('LK')
def cores(w, **kw):
    """the thread moves between cores"""
    r = w.rng
    f = r.choice([mix, mix, zones, manyzones, storm, retire, fills, quarantine])
    f(w)
    n, cs, o, out = r.choice([3, 5, 12, 30]), r.sample([0, 1, 2, 3, 7, 15, 63, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1023, 4095], r.choice([2, 2, 3])), w.out, []
    if r.random() < .5: cs[0] = 0
    for l in o:
        if r.random() < 1 / n and not l.startswith('INIT'): out.append('CPU %d' % r.choice(cs))
        out.append(l)
    w.out = out
def dangling(w, n=76, **kw):
    """addresses kept in other blocks when a block is freed"""
    r = w.rng
    hs = [w.ZN(r.choice([64, 256, 1024]))] if r.random() < .5 else []
    hold = []
    for k in range(r.choice([1, 3, 5])):
        sz = r.choice([64, 100, 256, 1000, 4096, 8192])
        i = w.ZA(hs[0]) if hs and r.random() < .3 else w.A(sz)
        hold.append((i, w.live[i]['sz'])); w.live.pop(i)
    used = {}
    def put(i, d=0):
        h, sz = r.choice(hold)
        free = [o for o in range(0, sz - 8, 1) if not any(abs(o - x) < 8 for x in used.get(h, ()))]
        if not free: return
        o = r.choice(free); used.setdefault(h, []).append(o); w.e('WRP', h, o, i, d)
        if len(used[h]) > 24: used[h].pop(0)
    pal = [w.small() for _ in range(3)]
    for k in range(n):
        i = w.ZA(hs[0]) if hs and r.random() < .2 else w.A(r.choice(pal) if r.random() < .93 else w.big())
        put(i)
        if r.random() < .1: put(i)
        if r.random() < .1: put(i, r.choice([1, 8, 16, -8, 1 << 56, 0x41 << 56, 1 << 48, 1 << 32]))
        if len(w.live) > r.choice([1, 4, 9]):
            j = w.pick(); x = r.random()
            if x < .1 and w.live[j]['h'] == 0: w.R(j)
            elif x < .3: w.F(j)
            elif x < .8: w.FS(j)
            elif x < .9 and w.live[j]['h'] in w.h: w.FZ(j)
            else: w.FP(j)
        if r.random() < .03: w.FL()
        if r.random() < .02: w.e('V'); w.e('LK')
    if not w.tags: w.FL()
    w.e('V')
    if r.random() < .3: w.e('X')
def refusals(w, **kw):
    """requests that must be refused, and their neighbours that must not"""
    r = w.rng
    B32 = 1 << 32
    for k in range(40):
        x = r.random(); i = w.id()
        if x < .25: w.e('A', i, r.choice([(1 << 64) - 1, (1 << 64) - 32, (1 << 64) - 4096, 1 << 63, 1 << 48, B32 + 1, B32 + 4096, B32 + 8192]))
        elif x < .45: m, s = r.choice([(B32, B32), ((1 << 64) - 1, 2), (3, 1 << 62), (1, (1 << 64) - 1), (1, (1 << 64) - 31), (2, 1 << 31), (1 << 33, 1 << 31), (65537, 65537), ((1 << 60), 16), (0, 5), (0, 0)]); w.e('C', i, m, s)
        elif x < .6:
            old = w.pick(lambda b: b['h'] == 0) or 0
            if r.random() < .5: w.e('R', old, i, r.choice([(1 << 64) - 1, 1 << 63, (1 << 64) - 4096, 1 << 40]))
            else: m, s = r.choice([(B32, B32), ((1 << 64) - 1, 2), (3, 1 << 62), (1 << 33, B32)]); w.e('RA', old, i, m, s)
        elif x < .7: w.run(2, dict(A=3, C=1, R=1, F=1, FS=1, SD=1, A0=.3))
        elif x < .8: w.e('R', 0, i, 0); w.e('SD', w.id(), -1)
        else: w.run(1, dict(A=1, AB=1, F=1))
    h = w.ZN(r.choice([65536, 65536, 40000])); cap = 4194304 // w.h[h]
    for k in range(cap + r.choice([-1, 0, 1, 4])): w.ZA(h)
    for k in range(6): w.FZ() if r.random() < .5 else w.ZA(h)
    if r.random() < .5: w.e('SDZ', h, w.id(), 5)
    w.e('LK')
def limits(w, **kw):
    for sz in [0, 1, 31, 32, 33, 65535, 65536, 65537, (1 << 64) - 1, (1 << 64) - 31, (1 << 64) - 4096, (1 << 64) - 4097, 1 << 63, (1 << 63) + 1, 1 << 48, 1 << 40, (1 << 32) + 4096 * 4, (1 << 33)]:
        i = w.id(); w.e('A', i, sz)
        if 0 < sz <= 1 << 20: w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
    for sz in [0, 1, 16, 31, 65535, 65536, 65537, 1 << 20, 1 << 32, (1 << 64) - 1]: w.ZN(sz)
    w.run(20, MIX)
    w.FN(); w.e('MU'); w.e('LK')
def huge(w, **kw):
    for sz in [1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 4096, (1 << 32) - 4096, (1 << 32) - 1, 1 << 32, (1 << 32) + 1]:
        i = w.A(sz); w.Q(); w.e('LK'); w.FS(i) if w.rng.random() < .5 else w.F(i)
        w.e('MU')
    w.FL(); w.e('LK')
def samples(w, n=90, **kw):
    w.palette = [w.rng.choice(EDGES) for _ in range(4)]
    for _ in range(2): w.ZN()
    w.maxlive = w.rng.choice([6, 12, 40])
    ws = dict(MIX, PS=6, PT=2, PF=4)
    w.run(n, ws)
    w.FL(); w.e('LK')
def PS(s):
    i = s.pick(lambda b: b['h'] == 0 and b['sz'] < 4096)
    if i is None: return
    off = s.rng.choice([0, 1, 8, 2048, 4088, 4095, s.rng.randint(0, 4095), s.rng.randint(0, 4095)])
    s.e('PS', i, off, s.rng.choice(['F', 'FS', 'FP']))
W.PS = PS
def uninit(w, n=70, **kw):
    """blocks that are written late, or never, before they are freed; the last commands read blocks never written to"""
    r = w.rng
    w.palette = [r.choice(EDGES) for _ in range(3)]
    w.maxlive = r.choice([5, 10, 20])
    if r.random() < .5: w.ZN()
    unw = {}
    def late(): i = w.id(); unw[i] = r.choice([r.randint(1, 4000), r.randint(1, 4000), w.small()]); w.e('AN', i, unw[i])
    for _ in range(r.choice([10, n])):
        x = r.random()
        if x < .3: late()
        elif x < .45 and unw:
            i = r.choice(list(unw)); w.e('UW', i); w.live[i] = dict(sz=unw.pop(i), h=0, big=False)
            w.e('UR', i, r.randint(0, 4095))
        elif x < .6 and unw:
            i = r.choice(list(unw)); sz = unw.pop(i); fl = r.choice(['F', 'FS', 'FP'])
            w.e(*([fl, i] + ([sz] if fl == 'FS' else [])))
        elif x < .7 and w.live: w.e('UR', w.pick(), r.randint(0, 4095))
        else: w.run(1, dict(A=6, C=3, R=2, F=4, FS=3, FP=1, FL=1, SD=1, ZA=1, FZ=1, V=1, Q=1))
    for _ in range(30): late()
    for i in r.sample(list(unw), len(unw)): w.e('UR', i, r.choice([0, 1, unw[i] - 1, r.randint(0, unw[i])]))
def tags(w, n=80, **kw):
    for _ in range(w.rng.choice([1, 2, 3])): w.ZN()
    w.maxlive = 30
    ws = dict(ZA=16, FZ=8, F=3, FS=2, FP=1, A=3, PTAG=22, FL=1, ZN=.5, ZD=.4, SDZ=1, V=.5, PF=2)
    w.run(n, ws)
def tagrefresh(w, **kw):
    """enough use of a tagged zone to have its tags renewed, with blocks alive"""
    h = w.ZN(w.rng.choice([32768, 65536, 16384, 8192]))
    for _ in range(3): w.ZA(h)
    for _ in range(4):
        w.CH(w.rng.choice([100, 300, 700, 2000]), w.h[h], h)
        for _ in range(4): w.step(dict(PTAG=5, ZA=2, FZ=1))
    w.run(10, dict(PTAG=5, ZA=2, FZ=1))
def memf(w, n=60, **kw):
    w.palette = [w.rng.choice([32, 64, 100, 128, 256, 512, 1024, 2048, 4096, 8192, 65536])for _ in range(4)]
    for _ in range(2): w.ZN()
    r = w.rng
    for _ in range(14): w.A(pbig=.1)
    for _ in range(4): w.ZA()
    for _ in range(n):
        w.run(1, dict(A=1, F=.5, FS=.3, ZA=.5)) if r.random() < .2 else None
        fn = r.choice([0, 1, 1, 2])
        d, s = w.pick(), w.pick()
        if not d or not s: continue
        if r.random() < .25: d = 0
        if r.random() < .25: s = 0
        ds = w.live[d]['sz'] if d else 60000; ss = w.live[s]['sz'] if s else 60000
        if fn == 1 and r.random() < .6: s = d; ss = ds
        if fn == 0 and s == d and s: s = 0; ss = 60000
        if fn == 0 and s == 0 and d == 0: fn = 1
        do, so = (r.choice([0, 0, 0, 1, 3, 8, r.randint(0, max(0, x - 1))]) for x in (ds, ss))
        do, so = min(do, ds), min(so, ss)
        x = r.random()
        cap = min(ds - do, ss - so) if fn != 2 else ds - do
        if x < .6: n2 = r.randint(0, max(0, cap))
        elif x < .7: n2 = max(0, cap)
        elif x < .75: n2 = 0
        else: n2 = r.choice([ds + 1, ss + 1, 2 * max(ds, ss), ds + 4096, 65537, 200000, 32 + max(ds, ss), 1 << 31, (1 << 64) - 1])
        if d == 0 and s == 0: n2 = min(n2, 60000)
        if d == 0: n2 = min(n2, 60000) if fn == 2 else n2
        w.e('MEM', fn, d, do, s, so, n2, r.choice([0, 1, 65, 255, 256 + 66]))
def faults(w, n=14, **kw):
    """every system request of a call fails in turn"""
    w.ZN()
    w.run(15, MIX)
    r = w.rng
    for _ in range(n):
        x = r.random()
        i = w.id()
        if x < .35: w.e('PI', 12, 'A', i, w.big())
        elif x < .5: w.e('PI', 12, 'A', i, w.small())
        elif x < .6: w.e('PI', 14, 'ZN', w.nh + 500, r.choice([32, 64, 256, 4096, 65536, 8192]))
        elif x < .68: w.e('PI', 12, 'C', i, 1, w.size(.6))
        elif x < .78:
            o = w.pick(lambda b: b['h'] == 0)
            if o: w.e('PI', 12, 'R', o, i, w.size(.6))
        elif x < .84 and w.h: w.e('PI', 20, 'ZD', r.choice(list(w.h)))
        elif x < .9:
            o = w.pick()
            if o: w.e('PI', 12, r.choice(['FP', 'F']), o)
        elif x < .95: w.e('PI', 12, 'FL')
        else: w.e('PI', 12, 'SD', i, r.choice([100, 70000]))
        w.run(3, MIX)
def faultnew(w, **kw):
    """requests that need new zones fail"""
    r = w.rng
    for sz in r.sample([16384, 32768, 65536, 3000, 40000, 12345, 50000, 20000, 10000], 5):
        w.e('PI', 14, 'A', w.id(), sz); w.A(sz) if r.random() < .7 else None
    for _ in range(4): w.e('PI', 14, 'A', w.id(), w.big()); w.A(w.big())
    w.run(8, dict(F=1, FS=1, FL=.3, A=1))
    w.e('PI', 40, 'X')
def protect(w, n=40, **kw):
    ws = dict(MIX, PRUP=10)
    w.run(n, ws)
    w.e('LK')
def placed(w, n=100, **kw): mix(w, n)
def leaks(w, n=80, **kw):
    for _ in range(2): w.ZN()
    w.run(n, dict(MIX, LK=20, MU=8, FP=6, FL=3, F=14, AB=3))
    w.FL(); w.e('LK'); w.e('MU')
    for i in list(w.live): w.FS(i) if w.rng.random() < .7 else w.FP(i)
    w.FL(); w.e('LK'); w.e('MU')
def perms(w, n=70, **kw):
    w.palette = [w.rng.choice(EDGES) for _ in range(2)]
    w.ZN()
    w.run(n, dict(A=12, AB=2, ZA=5, FP=10, F=3, FS=3, FZ=1, FL=1, PF=4, LK=1, V=.5, R=1))
    w.e('V'); w.e('LK')
    if w.h and w.rng.random() < .5:
        h = w.ZN(w.rng.choice([32768, 65536]))
        g = w.fillg(80, w.h[h], h); w.e('FG', g, 'P', h, 0, w.rng.randint(5, 40))
        w.fillg(60, w.h[h], h); w.e('LKZ', h)
    if not w.sane:
        sz = w.rng.choice([16384, 32768, 65536]); g = w.fillg(70, sz); w.e('FG', g, 'P', 0, 5, 40); g2 = w.fillg(100, sz)
        w.e('FG', g2, 'S', 0); w.e('LK')
def empty(w, **kw):
    w.run(w.rng.choice([0, 1, 3]), MIX); w.e('X')

# ---- replaced libc and C++ interfaces (configuration hook) ----
def hookops(w):
    r = w.rng
    def HM(): i = w.id(); sz = w.size(.12) if r.random() > .03 else 0; w.e('HM', i, sz, r.choice([0, 0, 1, 2])); sz and w.live.__setitem__(i, dict(sz=sz, h=0, big=sz > SMALL))
    def HC():
        t = w.size(.1); n = min(t, r.choice([1, 1, 2, 3, 5, 16])); m = max(1, t // n); i = w.id(); w.e('HC', i, n, m, r.choice([0, 1])); w.live[i] = dict(sz=n * m, h=0, big=n * m > SMALL)
    def HR():
        old = 0 if r.random() < .15 else (w.pick(lambda b: b['h'] == 0) or 0); i = w.id()
        o = w.live[old]['sz'] if old in w.live else 100
        x = r.random(); sz = 0 if x < .08 else max(1, o + r.choice([-33, -1, 0, 1, 31, 4096])) if x < .4 else w.size(.1)
        if r.random() < .3: n = r.choice([1, 2, 3]); m = sz // n; w.e('HRA', old, i, n, m, r.choice([0, 1])); sz = n * m
        else: w.e('HR', old, i, sz, r.choice([0, 1, 2]))
        if old: w.live.pop(old, None); (w.freed if sz == 0 else w.dead).append(old)
        if sz: w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
    def HF():
        i = w.pick()
        if i and r.random() > .03: w.live.pop(i); w.freed.append(i)
        else: i = 0
        w.e('HF', i, r.choice([0, 0, 1, 2]))
    def HP():
        i = w.id(); x = r.random()
        if x < .35: a = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 17, 20, 24, 40, 48, 100, 4095, 4097, (1 << 63) + 8, (1 << 64) - 1, (1 << 64) - 8]); w.e('HP', i, a, w.small(), r.choice([0, 1])); return
        a = r.choice([8, 16, 32]); sz = w.size(.1) if r.random() > .05 else 0
        w.e('HP', i, a, sz, r.choice([0, 1])); sz = max(sz, a); w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
    def HA(): i = w.id(); sz = w.size(.1); w.e('HA', r.randint(0, 3), i, r.choice([1, 2, 4, 8, 16, 32] if r.random() < .5 else [8, 16, 32]), sz); w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
    def HU(): w.e('HU', w.pick() or 0)
    def HN(): i = w.id(); sz = w.size(.1); w.e('HN', r.randint(0, 7), i, sz, r.choice([8, 16, 32])); w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
    def HD():
        f = r.randint(0, 7); i = w.pick(lambda b: b['h'] == 0)
        if not i: return
        b = w.live.pop(i); w.e('HD', f, i); (w.dead if f in (2, 3) else w.freed).append(i)
    def HBAD():   # requests that cannot be met
        sz = r.choice([1 << 33, 1 << 40, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 31, (1 << 64) - 32, (1 << 64) - 4096, (1 << 32) + 1])
        i = w.id(); x = r.random()
        if x < .5: w.e('HN', r.randint(0, 7), i, sz, r.choice([8, 16, 32]))
        elif x < .6: w.e('HM', i, sz, r.randint(0, 2))
        elif x < .7: w.e('HP', i, r.choice([8, 16, 32]), sz, 0)
        elif x < .8: w.e('HA', r.randint(0, 3), i, 16, sz)
        elif x < .9: w.e('HC', i, sz, r.choice([1, 2, 3]), r.choice([0, 1]))
        else:
            old = w.pick(lambda b: b['h'] == 0)
            if old: w.e('HR', old, i, sz, 0)
    def HX(): w.e('HX', 0); 
    for f in (HM, HC, HR, HF, HP, HA, HU, HN, HD, HBAD): setattr(w, f.__name__, f)
HOOK = dict(HM=10, HC=5, HR=8, HF=14, HP=8, HA=6, HU=3, HN=14, HD=12, HBAD=3, A=6, C=2, R=3, F=6, FS=4, FL=1, LK=1, V=.5, SD=1, Q=1)
def hooks(w, n=130):
    hookops(w)
    w.palette = [w.rng.choice(EDGES) for _ in range(4)] if w.rng.random() < .6 else None
    if w.rng.random() < .3: w.e('HX', 1)
    w.run(n, HOOK)
    w.e('LK')
    if w.rng.random() < .4: w.FL(); w.e('LK'); w.e('V')
    if w.rng.random() < .5: w.e('X')
def hookalign(w):
    r = w.rng
    # every script ends at the first alignment that is not honoured: keep them short
    for k in range(r.choice([1, 2, 3])):
        i = w.id(); a = r.choice([64, 128, 256, 512, 1024, 4096, 8192, 65536]); sz = r.choice([1, 8, 50, a // 2, a, a + 1, 3 * a // 2, 1000, 70000])
        x = r.random()
        if x < .5: w.e('HP', i, a, sz, 0)
        elif x < .8: w.e('HA', r.randint(0, 3), i, a, sz)
        else: w.e('HN', r.choice([4, 5, 6, 7]), i, sz, a)
        w.live[i] = dict(sz=max(sz, a), h=0, big=max(sz, a) > SMALL)
        if r.random() < .5: w.e('HU', i)

# ---- heap profiler (configuration prof): calls through recognisable call paths ----
def profs(w, n=260, npaths=None):
    r = w.rng
    P = r.sample(range(160), npaths or r.choice([1, 2, 3, 3]))
    pal = {p: [w.small() for _ in range(r.choice([1, 2, 4]))] for p in P}
    if r.random() < .5: w.ZN()
    kinds = r.choice([['A'], ['A', 'F'], ['A', 'F'], ['A', 'F', 'P'], ['A', 'C', 'F'], ['A', 'R', 'F'], ['A', 'Z', 'F']])
    nq = 0
    for k in range(n):
        p = r.choice(P); kd = r.choice(kinds)
        if len(w.live) > 50 and 'F' not in kinds:
            for i in list(w.live)[:30]: w.e('YF', p, i); w.live.pop(i); w.freed.append(i)
        if len(w.live) > 50 and kd not in 'FP': kd = 'F'
        if kd == 'Z' and not w.h: kd = 'A'
        if kd == 'A': i = w.id(); sz = r.choice(pal[p]); w.e('YA', p, i, sz); w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
        elif kd == 'C': i = w.id(); sz = r.choice(pal[p]); sz = (sz + 31) // 32 * 32; w.e('YC', p, i, 1, sz); w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
        elif kd == 'R':
            old = w.pick(lambda b: b['h'] == 0) if r.random() < .7 else 0; i = w.id(); sz = r.choice(pal[p]); w.e('YR', p, old or 0, i, sz)
            if old: w.live.pop(old); w.dead.append(old)
            w.live[i] = dict(sz=sz, h=0, big=sz > SMALL)
        elif kd == 'Z': h = r.choice(list(w.h)); i = w.id(); w.e('YZ', p, h, i); w.live[i] = dict(sz=w.h[h], h=h, big=False)
        elif w.live:
            i = w.pick(); w.live.pop(i); w.e('Y' + kd, p, i); (w.freed if kd == 'F' else w.perm).append(i)
        x = r.random()
        if x < .02: w.e('YQ')
        elif x < .025: w.e('YRST'); r.random() < .5 and w.e('YQ')
        elif x < .03: w.e('LK')
    w.e('YQ'); w.e('YQ')
    w.e('YX')
def profmany(w): profs(w, 700, w.rng.choice([20, 60, 100, 160]))
def profmix(w):
    mix(w, 60); 
    if w.out[-1] == 'X': w.out.pop()
    w.e('YQ'); w.e('YRST'); w.e('YQ'); w.run(40, MIX); w.e('YQ'); w.e('YX')
