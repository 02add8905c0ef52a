#!/usr/bin/env python3
"""Instances of MC.tla, and running TLC on them.

python3 tools/mc.py NAME [seconds]   runs one instance
"""
import os, re, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
BASE = dict(Ids='{1, 2}', Handles='{}', MaxZones=3, MaxBigs=1, Zb=2, StartZones='1', Sizes='{1}', ZoneSizes='{1}', QCap=1, BList=1, BTtl=2, Pfb=0, Strong=0, Ret=1,
            PermRe=0, Ops='{"a"}', Mutate=0, Tags=0, Smax=0, Slack=1, Page=1, Cores=1)
def ops(s): return '{' + ', '.join('"%s"' % x for x in s.split()) + '}'
INST = {
    # small chunks: quarantine, immediate and permanent frees, retirement
    'free':   dict(Ids='{1, 2}', Ops=ops('a f fs fp fl'), Sizes='{0, 1, 2}', QCap=1),
    'quar':   dict(Ids='{1, 2, 3}', Ops=ops('a f fs fl'), Sizes='{1}', QCap=2, MaxZones=3),
    'big':    dict(Ids='{1, 2}', Ops=ops('a f fs fp fl'), Sizes='{3, 4, 6}', MaxBigs=3, BList=1, BTtl=2, StartZones='0'),
    'biglist': dict(Ids='{1, 2, 3}', Ops=ops('a fs'), Sizes='{3, 4, 5}', MaxBigs=3, BList=2, BTtl=2, Pfb=1, StartZones='0'),
    'realloc': dict(Ids='{1, 2}', Ops=ops('a re f'), Sizes='{0, 1, 3, 6}', MaxBigs=2, MaxZones=2),
    'permre': dict(Ids='{1, 2}', Ops=ops('a re f'), Sizes='{1, 3}', MaxBigs=2, MaxZones=3, PermRe=1),
    'zone':   dict(Ids='{1, 2}', Handles='{1}', Ops=ops('a zn za zd f fz'), Sizes='{1}', ZoneSizes='{1, 3}', StartZones='1', MaxZones=3),
    'zones':  dict(Ids='{1, 2}', Handles='{1, 2}', Ops=ops('zn za zd fz f fp'), Sizes='{1}', ZoneSizes='{1, 2}', StartZones='0', MaxZones=3),
    'strong': dict(Ids='{1, 2, 3}', Ops=ops('a fs'), Sizes='{1, 2}', Strong=1, MaxZones=3),
    'sample': dict(Page=2, Ids='{1, 2}', Ops=ops('a f fs fp re'), Sizes='{1, 3}', Smax=1, MaxBigs=1, MaxZones=2),
    'tags':   dict(Ids='{1, 2}', Handles='{1}', Ops=ops('zn zt fz zd f fl'), Sizes='{1}', ZoneSizes='{1}', StartZones='0', MaxZones=2, Tags=1),
    'cores':  dict(Ids='{1, 2}', Handles='{1}', Ops=ops('a zn za zd f fs'), Sizes='{1}', ZoneSizes='{1}', Cores=2, MaxZones=3),
    'retire': dict(Ids='{1, 2}', Ops=ops('a f fs'), Sizes='{1, 2}', Ret=1, MaxZones=2, Slack=2),
}
INVS = 'Exclusive Mapped BigEnough Counted Slots Pending BigList Private Segregated Retired Samples Pinned'
PROPS = 'PermStays ZoneSize OnlyIdleGoes LiveStays PendingStays RefusedIsNoop TagsStay OnlyHere'

def cfg(name, judge, mutate, over={}, limit=60):
    c = dict(BASE); c.update(INST[name]); c.update(over); c['Mutate'] = 1 if mutate else 0; c['Limit'] = int(limit)
    s = 'CONSTANTS\n' + ''.join(' %s = %s\n' % kv for kv in c.items())
    s += 'SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bound\nCHECK_DEADLOCK FALSE\n'
    s += 'INVARIANTS %s%s\nPROPERTIES %s\n' % (INVS, ' Judge' if judge else '', PROPS)
    return s

def run(name, timeout=60, workers=4, judge=True, mutate=True, over={}, heap='2g'):
    """-> dict(states, transitions, ok, complete, out)"""
    d = tempfile.mkdtemp(prefix='mc.')
    try:
        open(os.path.join(d, 'i.cfg'), 'w').write(cfg(name, judge, mutate, over, timeout))
        t0 = time.time()
        p = subprocess.Popen(['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE',
                              '-metadir', d, '-config', os.path.join(d, 'i.cfg'), 'MC.tla'], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try: out, _ = p.communicate(timeout=timeout * 3 + 60); done = True
        except subprocess.TimeoutExpired:
            p.kill(); out, _ = p.communicate(); done = False
        st = tr = 0
        for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out):
            tr, st = (int(x.replace(',', '')) for x in m.groups())
        bad = 'Error:' in out or 'is violated' in out
        return dict(inst=name, states=st, transitions=tr, ok=not bad, complete=done and not bad and '\n0 states left on queue' in out or ', 0 states left on queue' in out, out=out, wall=time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    n = sys.argv[1]
    for x in (INST if n == 'all' else [n]):
        r = run(x, float(sys.argv[2]) if len(sys.argv) > 2 else 60, 8, os.environ.get('J', '1') == '1', os.environ.get('M', '1') == '1', heap='8g')
        print(x, {k: r[k] for k in ('states', 'transitions', 'ok', 'complete', 'wall')}, flush=True)
        if not r['ok'] and os.environ.get('S'):
            t = r['out']; print([l for l in t.split('\n') if 'Error' in l][:2], t[t.find('accepted'):][:700] if 'accepted' in t else '')
            k = t.rfind('/\\ last ='); print(t[k:k + 500]); m = t.rfind('  blk |->'); print(t[m:m + 2000])
        elif not r['ok']: print('\n'.join(l for l in r['out'].split('\n') if not l.startswith(('Parsing', 'Semantic', 'Linting')))[:6000])
