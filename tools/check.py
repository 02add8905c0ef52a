#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property on /repo's current tree: the scripts of the property's profile are replayed into the
implementation, the recorded traces are validated against the specification by TLC, and the specification's
small instances are model checked. Exit 0: held; 1 with a VIOLATION line: broken."""
import sys, os, json, time, random, subprocess, tempfile, shutil, resource, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, gen, mc, mcgen, profiles
ROOT = build.VERIF
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
try: resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
except Exception: pass
T0 = time.time()
def log(*a): print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

class Script:
    def __init__(s, cfg, kind, text, seed, place=0):
        s.cfg, s.kind, s.text, s.seed, s.place = cfg, kind, text, seed, place
        s.trace = None; s.problem = None; s.lines = 0
def env_of(sc): return dict(os.environ, DRV_CFG=sc.cfg, DRV_SEED=str(sc.seed), DRV_PLACE=str(sc.place))

def drive(sc, d, n, timeout=90):
    exe = build.build(sc.cfg)
    w = os.path.join(d, 's%d' % n); os.makedirs(w, exist_ok=True)
    sp, tp = os.path.join(w, 'script'), os.path.join(w, 'trace')
    open(sp, 'w').write(sc.text)
    if os.path.exists(tp): os.remove(tp)
    with open(os.path.join(w, 'out'), 'wb') as o:
        p = subprocess.Popen([exe, sp, tp], cwd=w, env=env_of(sc), stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.STDOUT, start_new_session=True)
        try: rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait(); rc = 'hang'
        try: os.killpg(p.pid, 9)
        except OSError: pass
    sc.trace = tp if os.path.exists(tp) else None
    sc.rc = rc
    sc.lines = 0
    if sc.trace:
        b = open(tp, 'rb').read()
        if not b.endswith(b'\n'):                     # cut off in the middle of an event
            b = b[:b.rfind(b'\n') + 1]; open(tp, 'wb').write(b)
        sc.lines = b.count(b'\n')
    out = open(os.path.join(w, 'out'), 'rb').read()[-600:].decode(errors='replace')
    if rc == 'hang': sc.problem = 'the run does not end'
    elif rc not in (0, 3): sc.problem = 'the run ended with status %s %s' % (rc, out)
    return sc

def validate(group, d, n):
    """TLC over the traces of a group of scripts -> [(script, prop, rule, event line)]"""
    f = os.path.join(d, 'g%d' % n)
    first, line = [], 0
    with open(f, 'wb') as o:
        for sc in group:
            first.append(line); o.write(open(sc.trace, 'rb').read()); line += sc.lines
    if line == 0: return [], 0
    m = tempfile.mkdtemp(prefix='tlc', dir=d)
    r = subprocess.run(['java', '-Xmx3g', '-Xss64m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-cp', mc.CP, 'tlc2.TLC', '-workers', '1', '-noGenerateSpecTE', '-metadir', m,
                        '-config', 'Trace.cfg', 'Trace.tla'], cwd=mc.SPEC, env=dict(os.environ, TRACE=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res, done = [], False
    for l in r.stdout.split('\n'):
        l = l.strip().strip('"')
        p = l.split('|')
        if p[0] == 'VIOL': at, prop, rule = int(p[3]), p[1], p[2]
        elif p[0] == 'CRASH': at, prop, rule = int(p[2]), 'CRASH', 'valid call ended the process: %s in "%s"' % (p[1], '|'.join(p[3:]))
        elif p[0] == 'DONE': done = int(p[1]) == line; continue
        else: continue
        k = max(j for j in range(len(group)) if first[j] < at)
        ev = open(group[k].trace, 'rb').read().split(b'\n')[at - first[k] - 1].decode(errors='replace')
        res.append((group[k], prop, rule, at - first[k], ev))
    if not done:
        if len(group) == 1: return [(group[0], 'CRASH', 'the recorded trace cannot be read as a behaviour: ' + ' '.join(x for x in r.stdout.split('\n') if 'rror' in x)[:300], 0, r.stdout[-1500:])], 0
        h = len(group) // 2
        a, b = validate(group[:h], d, n * 2 + 1000), validate(group[h:], d, n * 2 + 1001)
        return a[0] + b[0], a[1] + b[1]
    os.remove(f)
    return res, line

def userfaultfd():
    """may a process of this environment monitor its own page faults"""
    import ctypes, platform
    f = ctypes.CDLL(None, use_errno=True).syscall(dict(x86_64=323, aarch64=282).get(platform.machine(), 323), 1)
    if f >= 0: os.close(f)
    return f >= 0

def known():
    p = os.path.join(ROOT, 'known-findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                f = dict(x.split('=', 1) for x in l[8:].strip().split(' | '))
                r.append(f)
    return r

def scripts_of(prop, tier, seed):
    prof = profiles.profile(prop, tier)
    for c in build.CFGS: pass
    out = []
    for j in prof['jobs']:
        kind, cfg = j[0], j[1]
        if kind == 'gen':
            _, _, wl, n = j[:4]; place = j[4] if len(j) > 4 else 0
            for k in range(n):
                rng = random.Random('%s/%s/%s/%d/%d' % (prop, cfg, wl, seed, k))
                w = gen.W(rng, build.CFGS[cfg]); getattr(gen, wl)(w)
                out.append(Script(cfg, wl, w.text(), rng.randint(1, 1 << 30), (k % 4 if place == 'all' else place)))
    return out
def spec_scripts(prop, tier, seed):
    """scripts enumerated by TLC from Gen.tla"""
    out, stat = [], []
    for j in profiles.profile(prop, tier)['jobs']:
        if j[0] != 'tla': continue
        _, cfg, inst, depth, per = j
        lst, states = mcgen.generate(inst, depth)
        rng = random.Random('%s/%s/%s/%d' % (prop, cfg, inst, seed))
        total = len(lst)
        if per and total > per: lst = rng.sample(lst, per)
        stat.append(dict(instance=inst, depth=depth, call_sequences=total, replayed=len(lst), states=states))
        init = build.CFGS[cfg]['defs'].get('AUTO_CTOR_DTOR', 1) == 0
        # several sequences in one process would share a heap: each one gets a process of its own
        for l in lst: out.append(Script(cfg, 'tla:' + inst, mcgen.concrete(l, rng, init), rng.randint(1, 1 << 30)))
    return out, stat

def judge(scripts, d, workers=8):
    log('running %d scripts' % len(scripts))
    with ThreadPoolExecutor(workers) as ex: list(ex.map(lambda x: drive(x[1], d, x[0]), enumerate(scripts)))
    ok = [s for s in scripts if s.trace and s.lines]
    log('%d traces, %d events' % (len(ok), sum(s.lines for s in ok)))
    # groups of similar cost
    tot = sum(os.path.getsize(s.trace) for s in ok) or 1
    ng = max(1, min(len(ok), max(workers, tot // 4000000)))
    gs = [[] for _ in range(ng)]; sz = [0] * ng
    for s in sorted(ok, key=lambda s: -os.path.getsize(s.trace)):
        k = sz.index(min(sz)); gs[k].append(s); sz[k] += os.path.getsize(s.trace)
    with ThreadPoolExecutor(workers) as ex: rs = list(ex.map(lambda x: validate(x[1], d, x[0]), enumerate(gs)))
    return [v for r in rs for v in r[0]], sum(r[1] for r in rs)

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    d = tempfile.mkdtemp(prefix='chk_%s_' % prop)
    try: return go(prop, tier, seed, d, a)
    finally: shutil.rmtree(d, ignore_errors=True)

def report(prop, sc, rule, line, ev, other=None):
    rd = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    p = os.path.join(rd, '%s.json' % prop)
    json.dump(dict(property=prop, rule=rule, broken_rules=other, cfg=sc.cfg, kind=sc.kind, seed=sc.seed, place=sc.place, event_line=line, event=ev, script=sc.text), open(p, 'w'), indent=1)
    print('%s: %s (configuration %s, workload %s)' % (prop, rule, sc.cfg, sc.kind))
    print('  at event %d: %s' % (line, ev[:600]))
    print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)

def go(prop, tier, seed, d, a):
    if '--replay' in a:
        r = json.load(open(a[a.index('--replay') + 1]))
        if r.get('conc'):
            import conc
            return conc.replay(prop, r, d)
        if r.get('twin'):
            import twin
            _, v, n = twin.one((r['cfg'], r['kind'], r['script'], r['seeds'], r['place'], d))
            for x in v: print('broken:', *x)
            if v: print('VIOLATION property=%s replay=%s' % (prop, a[a.index('--replay') + 1])); return 1
            return 0
        sc = Script(r['cfg'], r['kind'], r['script'], r['seed'], r['place'])
        v, n = judge([sc], d)
        for x in v: print('broken:', x[1], x[2], 'at event', x[3], x[4][:500])
        if sc.problem: print('broken:', sc.problem)
        if v or sc.problem: print('VIOLATION property=%s replay=%s' % (prop, a[a.index('--replay') + 1])); return 1
        return 0
    prof = profiles.profile(prop, tier)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    ex = ThreadPoolExecutor(4)
    mcf = [ex.submit(mc.run, i, timeout=t, workers=w, judge=bool(jd), mutate=bool(jd), over=ov) for (i, t, w, jd, ov) in prof['mc']]
    tf = ex.submit(spec_scripts, prop, tier, seed)
    skipped = []
    if not userfaultfd():
        skipped = sorted({j[1] for j in prof['jobs'] if build.CFGS[j[1]]['defs'].get('UNINIT_READ_SANITY')})
        log('no userfaultfd in this environment, left out:', *skipped)
    cfgs = sorted({j[1] for j in prof['jobs']} - set(skipped))
    try:
        with ThreadPoolExecutor(4) as bx: list(bx.map(build.build, cfgs))
    except RuntimeError as e:
        print('cannot build the driver against the current tree:\n' + str(e)[-3000:]); return 2
    log('built', *cfgs)
    scripts = [s for s in scripts_of(prop, tier, seed) if s.cfg not in skipped]
    ts, tstat = tf.result(); scripts += ts
    viol, events = judge(scripts, d)
    log('validated')
    # runs that did not come to an end: only if that can be repeated
    for s in [s for s in scripts if s.problem][:4]:
        first = s.problem
        drive(s, d, 999000, timeout=240)
        if s.problem: viol.append((s, 'CRASH', s.problem, s.lines, 'no further events'))
        else: log('not repeated:', first)
    kn, shown = known(), set()
    left = []
    for v in viol:
        hit = [k for k in kn if k.get('rule') == v[2] and k.get('cfg', v[0].cfg) == v[0].cfg and (k.get('call', '') in v[4])]
        if hit: shown.add((hit[0].get('property', prop), hit[0].get('what', v[2])))
        else: left.append(v)
    rc = 0
    for p, w in sorted(shown):
        if p == prop: print('KNOWN-FINDING: property=%s %s' % (p, w))
    left.sort(key=lambda v: (v[1] != prop, v[1] != 'CRASH', len(v[0].text)))
    if left:
        sc, p, rule, line, ev = left[0]
        what = rule if p in (prop, 'CRASH') else 'the implementation leaves the specified behaviour the property is checked on: %s (%s)' % (rule, p)
        report(prop, sc, what, line, ev, sorted({'%s: %s' % (x[1], x[2]) for x in left}))
        rc = 1
    twin_cov = {}
    if prof.get('twin') and rc == 0:
        import twin
        tr = twin.run(prop, prof['twin'], tier, seed, d)
        log('runs with different entropy judged')
        twin_cov = dict(runs=sum(len(j[3]) for j, v, n in tr), events=sum(n for j, v, n in tr), programs=len(tr), by_configuration=sorted({'%s/%s' % (j[0], j[1]) for j, v, n in tr}))
        cov['traces_validated_against_impl'] += twin_cov['runs']; cov['transitions'] += twin_cov['events']
        for j, v, n in sorted(tr, key=lambda x: len(x[0][2])):
            if v and rc == 0:
                rd = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
                p = os.path.join(rd, '%s.json' % prop)
                json.dump(dict(property=prop, twin=1, rule=v[0][1], cfg=j[0], kind=j[1], script=j[2], seeds=j[3], place=j[4], broken_rules=sorted({'%s: %s' % (x[0], x[1]) for x in v})), open(p, 'w'), indent=1)
                print('%s: %s (configuration %s, program %s, %d runs with different entropy)' % (prop, v[0][1], j[0], j[1], len(j[3])))
                print('  at event %d: %s' % (v[0][2], v[0][3]))
                print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)
                rc = 1
    conc_cov = {}
    if prof.get('conc') and rc == 0:
        import conc
        rc, conc_cov = conc.check(prop, tier, seed, d, prof['conc'], log)
    mres = [f.result() for f in mcf]
    log('model checking done')
    for r in mres:
        if not r['ok']:
            print('the specification itself fails in instance %s:\n%s' % (r['inst'], r['out'][-3000:])); rc = rc or 2
    byk = {}
    for s in scripts:
        k = '%s/%s' % (s.cfg, s.kind); byk.setdefault(k, [0, 0]); byk[k][0] += 1; byk[k][1] += s.lines
    pick = random.Random(seed).sample(scripts, min(2, len(scripts)))
    cov.update(states=sum(r['states'] for r in mres) + sum(t['states'] for t in tstat), transitions=sum(r['transitions'] for r in mres) + events,
               traces_validated_against_impl=sum(1 for s in scripts if s.lines),
               samples=[dict(cfg=s.cfg, workload=s.kind, script=s.text.split('\n')[:40], first_events=[l[:300] for l in (open(s.trace).read().split('\n')[1:6] if s.trace and os.path.exists(s.trace) else [])]) for s in pick],
               events_judged=events, rules_broken=len(viol),
               model_instances=[{k: r[k] for k in ('inst', 'states', 'transitions', 'complete', 'wall')} for r in mres],
               enumerated=tstat, configurations_left_out=skipped, scripts_by_configuration={k: dict(scripts=v[0], events=v[1]) for k, v in sorted(byk.items())})
    if twin_cov: cov['runs_with_different_entropy'] = twin_cov
    if conc_cov:
        for k in ('states', 'transitions', 'traces_validated_against_impl'): cov[k] += conc_cov.pop(k, 0)
        cov['samples'] += conc_cov.pop('samples', [])
        cov.update(conc_cov)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
                   assumptions=['the driver records calls, results, mappings and contents faithfully', 'traces cover the scripts named, the instances of the specification are bounded as listed'],
                   wall_s=round(time.time() - T0, 1), violations=len(left) + (1 if rc == 1 and not left else 0)), open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    log('done', rc)
    return rc
if __name__ == '__main__': sys.exit(main())
