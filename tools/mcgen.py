"""Scripts out of Gen.tla."""
import os, re, subprocess, tempfile, shutil
import mc
INST = {
    # name: (constants, {abstract size: concrete sizes to choose from}, ops)
    'chunk': (dict(Ids='{1, 2, 3}', Ops=mc.ops('a f fs fp fl'), Sizes='{1, 2}', Zb=8, MaxZones=3, StartZones='1', Ret=8), {}),
    'big':   (dict(Ids='{1, 2, 3}', Ops=mc.ops('a f fs fp fl'), Sizes='{3, 5}', Zb=4, MaxBigs=6, StartZones='0', Ret=8, BList=4), {}),
    'mixed': (dict(Ids='{1, 2, 3}', Ops=mc.ops('a re f fs fl'), Sizes='{1, 4}', Zb=8, MaxBigs=6, MaxZones=3, StartZones='1', Ret=8, BList=4), {}),
    'realloc': (dict(Ids='{1, 2, 3}', Ops=mc.ops('a re f fs'), Sizes='{0, 1, 2, 3}', Zb=8, MaxBigs=6, MaxZones=4, StartZones='1', Ret=8, BList=4), {}),
    'zone':  (dict(Ids='{1, 2}', Handles='{1, 2}', Ops=mc.ops('a zn za zd fz f fl'), Sizes='{1}', ZoneSizes='{1}', Zb=8, MaxZones=5, StartZones='1', Ret=8), {}),
    'zone2': (dict(Ids='{1, 2, 3}', Handles='{1}', Ops=mc.ops('zn za zd fz fs fp f'), Sizes='{1}', ZoneSizes='{1, 2}', Zb=8, MaxZones=5, StartZones='1', Ret=8), {}),
    'tagged': (dict(Ids='{1, 2, 3}', Handles='{1}', Ops=mc.ops('zn zt zd fz f fl'), Sizes='{1}', ZoneSizes='{1}', Zb=8, MaxZones=5, StartZones='0', Ret=8, Tags=1), {}),
    'all':   (dict(Ids='{1, 2, 3, 4, 5}', Handles='{1, 2}', Ops=mc.ops('a re zn za zd f fs fp fz fl'), Sizes='{0, 1, 2, 3, 4}', ZoneSizes='{1, 2}', Zb=12, MaxBigs=6, MaxZones=6, StartZones='1', Ret=16, QCap=3, BList=3, BTtl=4), {}),
}
def generate(inst, depth, simulate=0, seed=1, workers=4, timeout=120):
    c = dict(mc.BASE); c.update(INST[inst][0]); c['Depth'] = depth; c['Limit'] = timeout
    d = tempfile.mkdtemp(prefix='gen.')
    try:
        cfg = 'CONSTANTS\n' + ''.join(' %s = %s\n' % kv for kv in c.items()) + 'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n' + ('' if simulate else 'VIEW GView\n')
        open(d + '/g.cfg', 'w').write(cfg)
        cmd = ['java', '-Xmx3g', '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', mc.CP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', d, '-config', d + '/g.cfg']
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth + 1), '-seed', str(seed), '-workers', '1'] if simulate else ['-workers', str(workers)]
        p = subprocess.Popen(cmd + ['Gen.tla'], cwd=mc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try: out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate()
        res = [re.findall(r'"([^"]*)"', x) for x in re.findall(r'<<\s*"SCRIPT",\s*<<(.*?)>>\s*>>', out, re.S)]
        if not res: raise RuntimeError('no scripts: ' + out[-3000:])
        states = max([int(x.replace(',', '')) for x in re.findall(r'([\d,]+) distinct states found', out)] or [0])
        return res, states
    finally: shutil.rmtree(d, ignore_errors=True)
def concrete(lines, rng, init=False, ask=True):
    """one script: names made unique, abstract sizes made concrete"""
    s1 = rng.choice([1, 24, 32, 100, 256, 1000, 4096, 8192, 16384])
    s2 = rng.choice([x for x in (64, 128, 500, 2048, 8192, 16384, 32768, 65536) if x > s1])
    base = rng.choice([17, 18, 25, 32, 64, 256, 300])
    w = rng.choice([1, 3, 4, 5, 8])
    size = {0: 0, 1: s1, 2: s2, 3: base * 4096 - rng.choice([0, 1, 4095]), 4: (base + w) * 4096, 5: (base + 2 * w) * 4096, 6: (base + 40) * 4096}
    out, idm, hm, n, h = ['INIT'] if init else [], {'0': '0'}, {'0': '0'}, 0, 0
    for l in lines:
        t = l.split()
        op = t[0]
        if op in ('A', 'R', 'ZA', 'ZT'):
            k = 1 if op == 'A' else 2
            n += 1; new = str(n)
        if op == 'R': t[1] = idm[t[1]]
        if op in ('A', 'R', 'ZA', 'ZT'): idm[t[k]] = new; t[k] = new
        if op in ('F', 'FS', 'FP'): t[1] = idm[t[1]]
        if op == 'FZ': t[2] = idm[t[2]]
        if op == 'ZN': h += 1; hm[t[1]] = str(h); t[1] = str(h)
        if op in ('ZA', 'ZT', 'FZ', 'ZD'): t[1] = hm[t[1]]
        t = [str(size[int(x[1:])]) if x[0] == 's' else x for x in t]
        out.append(' '.join(t))
        if op == 'ZT' and False: pass
    if ask: out += ['LK', 'MU', 'V']
    return '\n'.join(out) + '\n'
if __name__ == '__main__':
    import sys, random, time
    t = time.time(); r, s = generate(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    print(len(r), s, time.time() - t); print(r[-1]); print(concrete(r[-1], random.Random(1)))
