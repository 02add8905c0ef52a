"""What each property's check runs.
jobs: ('gen', configuration, workload, scripts[, placement]) directed random scripts
      ('tla', configuration, instance of Gen.tla, depth, at most)  call sequences enumerated from the specification
mc:   (instance of MC.tla, seconds, workers, with Judge, overrides)"""
def G(cfgs, wl, n, place=0): return [('gen', c, wl, n, place) for c in cfgs.split()]
def TL(cfg, inst, depth, per): return [('tla', cfg, inst, depth, per)]
def CN(cfgs, themes, n, sched): return [(c, t, n, sched) for c in cfgs.split() for t in themes.split()]
ALLT = 'mix same queue bigs mail pzone pzones newzone retire leak'
SMALL = {}
Q = {
 'C01': dict(jobs=G('base smallq sane tag guards', 'mix', 5, 'all') + G('base smallq', 'fills', 2) + G('smallq', 'retire', 2) + G('smallq guards', 'bigs', 3) + G('smallq', 'zones', 2) + G('base', 'reallocs', 2) + G('base smallq uaf', 'storm', 1) + TL('smallq', 'chunk', 4, 250), mc=[('free', 20, 2, 1, {})]),
 'C02': dict(jobs=G('base smallq zero strong', 'mix', 4) + G('base smallq', 'limits', 3) + G('base', 'huge', 1) + G('base sane', 'samples', 2) + G('base guards', 'guards', 2) + G('smallq', 'bigs', 2) + TL('smallq', 'realloc', 3, 200), mc=[('big', 20, 2, 1, {})]),
 'C03': dict(jobs=G('base smallq sanit sane', 'callocs', 5) + G('nocan', 'callocs', 3), mc=[('big', 20, 2, 1, {})]),
 'C04': dict(jobs=G('base smallq sane permre guards', 'reallocs', 4) + TL('smallq', 'realloc', 4, 300) + TL('base', 'mixed', 4, 200), mc=[('realloc', 20, 2, 1, {})]),
 'C05': dict(jobs=G('base smallq sane sanit', 'strings', 5) + G('tag', 'strings', 2), mc=[('zone', 20, 2, 1, {})]),
 'C06': dict(jobs=G('base smallq guards sane tag', 'doublefree', 5) + G('base smallq', 'probes', 2) + G('smallq uaf', 'storm', 1), mc=[('free', 20, 2, 1, {})]),
 'C07': dict(jobs=G('base smallq guards sane tag strong', 'probes', 5, 'all'), mc=[('zone', 20, 2, 1, {})]),
 'C08': dict(jobs=G('base smallq guards permre tag', 'perms', 4) + TL('smallq', 'chunk', 4, 200) + TL('smallq', 'big', 4, 150) + G('permre smallq', 'storm', 1), mc=[('free', 20, 2, 1, {})]),
 'C09': dict(jobs=G('base smallq sanit verif guards', 'quarantine', 3) + TL('verif', 'chunk', 5, 300) + TL('smallq', 'big', 4, 100), mc=[('quar', 20, 2, 1, {})]),
 'C10': dict(jobs=G('base smallq guards sanit tag', 'corrupt', 4) + G('base smallq', 'adjacent', 2) + G('base', 'storm', 1) + G('fuzz', 'corrupt', 3), mc=[('free', 20, 2, 1, {})]),
 'C11': dict(jobs=G('base gcc smallq sane tag sanit guards strong spin nothr smallmem nocan nomask verif permre zero named norand dtorsane uaf aon cpupin', 'mix', 2, 'all') + G('base uaf cpupin', 'storm', 1) + G('smallq', 'retire', 2) + G('smallq', 'manyzones', 1) + G('base', 'fills', 1) + G('cores coretag', 'cores', 1) + G('uafs', 'dangling', 1), mc=[('zone', 20, 2, 1, {})]),
 'C12': dict(jobs=G('base smallq tag sane', 'zones', 4) + G('smallq', 'manyzones', 2) + TL('smallq', 'zone', 4, 200) + TL('smallq', 'zone2', 4, 200), mc=[('zones', 20, 2, 1, {})]),
 'C13': dict(jobs=G('base smallq strong sanesmall', 'mix', 4) + G('strong base', 'fills', 2) + G('strong', 'storm', 1) + G('base strong', 'callocs', 1) + TL('strong', 'realloc', 3, 150), mc=[('strong', 20, 2, 1, {})]),
 'C14': dict(jobs=G('base guards smallq tag smallmem sane', 'guards', 4) + G('smallq tag', 'manyzones', 2) + G('guards smallq', 'bigs', 2) + G('smallq', 'retire', 1), mc=[('big', 20, 2, 1, {})]),
 'C15': dict(jobs=G('smallq tagsan', 'retire', 5) + G('smallq tagsan', 'manyzones', 2) + G('base', 'retire', 2) + G('smallq', 'mix', 3), mc=[('retire', 20, 2, 1, {})]),
 'C16': dict(jobs=G('base smallq guards guardsan fuzz', 'bigs', 4) + G('smallq guards', 'bigcycle', 2) + G('smallq guards base', 'biglist', 2) + TL('smallq', 'big', 5, 300), mc=[('big', 20, 2, 1, {}), ('biglist', 20, 2, 0, {})]),
 'C17': dict(jobs=G('base smallq sane tag', 'mix', 1) + G('spin', 'zones', 1), mc=[('zone', 20, 2, 1, {})],
             conc=CN('base smallq', ALLT, 4, 25) + CN('sane guards tag spin strong', ALLT, 2, 12) + CN('tag tagsan', 'tagged', 4, 25) + CN('prof', 'traces', 2, 20) + CN('verif sanit nocan uaf', 'mix queue pzone', 1, 12)),
 'C18': dict(jobs=G('base smallq sane guards tag strong', 'mix', 1) + G('base smallq', 'zones bigs'.split()[0], 1) + G('smallq', 'leaks', 1) + G('base', 'faults', 1), mc=[('zone', 20, 2, 1, {})],
             conc=CN('base smallq spin', ALLT + ' protect', 3, 25) + CN('sane guards tag strong', ALLT, 2, 12) + CN('tag tagsan', 'tagged', 3, 20) + CN('prof', 'traces', 2, 20)),
 'C19': dict(jobs=G('base smallq sane guards tag', 'leaks', 4) + G('smallq', 'fills', 2) + G('smallq', 'storm', 1) + G('smallq', 'zones', 2) + TL('smallq', 'mixed', 4, 150), mc=[('realloc', 20, 2, 1, {})]),
 'C20': dict(jobs=G('tag tagsan', 'tags', 8) + G('tag tagsan', 'tagrefresh', 2) + TL('tagsan', 'tagged', 5, 200), mc=[('tags', 20, 2, 1, {})], conc=CN('tag tagsan', 'tagged', 4, 25)),
 'C21': dict(jobs=G('hook', 'hooks', 14) + G('hook', 'hookalign', 4) + G('hook', 'mix', 2), mc=[('realloc', 20, 2, 1, {})]),
 'C22': dict(jobs=G('sane sanesmall', 'samples', 8) + G('sane', 'mix', 3) + G('dtorsane', 'samples', 2) + G('sane', 'probes', 2), mc=[('sample', 20, 2, 1, {})]),
 'C23': dict(jobs=G('sanit tagsan guardsan', 'mix', 5) + G('base', 'perms', 3) + G('guardsan sanit', 'bigs', 3) + G('nocan', 'callocs', 2) + G('sanit', 'quarantine', 2), mc=[('free', 20, 2, 1, {})]),
 'C24': dict(jobs=G('mem', 'memf', 14), mc=[('free', 20, 2, 1, {})]),
 'C25': dict(jobs=G('base smallq guards sane tag', 'faults', 4) + G('base guards smallq', 'faultnew', 2), mc=[('big', 20, 2, 1, {})]),
 'C26': dict(jobs=G('base smallq sane nothr tag', 'protect', 4), mc=[('free', 20, 2, 1, {})], conc=CN('base smallq tag spin', 'protect', 6, 30)),
 'C27': dict(jobs=G('prof', 'profs', 10) + G('prof', 'profmany', 2) + G('prof', 'profmix', 2), mc=[('realloc', 20, 2, 1, {})], conc=CN('prof', 'traces mix', 3, 20)),
 'C28': dict(jobs=G('base smallq tag', 'mix', 1), mc=[('zone', 20, 2, 1, {})],
             twin=[(c, 'short', 1, 64, p) for c, p in (('base', 2), ('gcc', 0), ('tag', 2), ('smallmem', 0), ('sane', 0), ('nothr', 2), ('guards', 0), ('norand', 2), ('nocan', 0), ('strong', 0))]
                + [(c, 'late', 3, 16, 2) for c in 'base tag smallmem strong'.split()] + [(c, 'long', 1, 12, 2) for c in 'base smallq'.split()] + [('tag', 'tags', 2, 8, 2), ('tagsan', 'tags', 1, 8, 0)] + [('base', 'fill', 1, 6, 2), ('smallmem', 'fill', 1, 6, 0)]),
 'C29': dict(jobs=G('cores coretag', 'cores', 14) + G('cores', 'mix', 2) + G('cores coretag', 'zones', 2), mc=[('cores', 30, 2, 1, {})]),
 'C30': dict(jobs=G('base smallq tag guards sanit', 'mix', 3) + G('smallq guards', 'bigs', 3) + G('smallq tag', 'zones', 3) + G('smallq', 'retire', 2) + G('smallq tag', 'manyzones', 1) + G('base', 'protect', 1), mc=[('zones', 20, 2, 1, {})]),
 'C31': dict(jobs=G('base smallq sanit tag guards', 'mix', 3) + G('smallq tagsan', 'retire', 2) + G('smallq tag', 'manyzones', 2) + G('base smallq', 'fills', 2) + G('base', 'storm', 1) + G('base smallq', 'perms', 2), mc=[('free', 20, 2, 1, {})]),
 'C32': dict(jobs=G('uafs', 'dangling', 12) + G('uaf base', 'dangling', 2) + G('uafs', 'mix', 2), mc=[('free', 20, 2, 1, {})]),
 'C33': dict(jobs=G('aon', 'refusals', 8) + G('aon', 'limits', 3) + G('aon', 'callocs', 3) + G('aon', 'reallocs', 3) + G('aon', 'zones', 3) + G('aon', 'mix', 3) + G('base sane', 'refusals', 2), mc=[('realloc', 20, 2, 1, {})]),
 'C34': dict(jobs=G('dtorsane', 'mix', 6) + G('dtorsane', 'bigs', 4) + G('dtorsane', 'zones', 4) + G('dtorsane', 'samples', 4) + G('dtorsane', 'reallocs', 2) + G('dtor', 'mix', 3) + G('dtor', 'bigs', 2) + G('dtortag', 'mix', 3) + G('dtortag', 'retire', 2) + G('dtortag', 'manyzones', 1) + G('dtortag', 'bigs', 2), mc=[('sample', 20, 2, 1, {})]),
 'C35': dict(jobs=G('uninit', 'uninit', 10) + G('uninit', 'mix', 2) + G('uninit', 'samples', 3) + G('uninit', 'reallocs', 2) + G('uninit', 'bigs', 2) + G('uninit', 'strings', 2) + G('sane base', 'uninit', 2), mc=[('sample', 20, 2, 1, {})]),
}
K = 5          # scale of the quick tier
def profile(prop, tier):
    p = Q[prop]
    p = dict(p, jobs=[(j[0], j[1], j[2], j[3] * (1 if j[2] in ('huge',) else K)) + j[4:] if j[0] == 'gen' else j for j in p['jobs']])
    if tier == 'quick': return p
    jobs = []
    for j in p['jobs']:
        if j[0] == 'gen': jobs.append((j[0], j[1], j[2], j[3] * 8) + j[4:])
        else: jobs.append((j[0], j[1], j[2], j[3] + 1, j[4] * 8))
    have = {(j[1], j[2]) for j in jobs}
    wls = {j[2] for j in jobs if j[0] == 'gen'}
    import build
    for c, d in build.CFGS.items():
        if d['hook'] or d['mem'] or d['prof']: continue
        for w in wls:
            if w in ('tags', 'tagrefresh') and not d['defs'].get('MEMORY_TAGGING'): continue
            if w in ('memf', 'huge'): continue
            if c == 'uafs' and w not in ('dangling', 'mix'): continue     # its search of all memory is slow
            if (c, w) not in have: jobs.append(('gen', c, w, 8, 'all'))
    mcs = [(i, 600, 4, jd, {}) for (i, t, w, jd, ov) in p['mc']]
    return dict(p, jobs=jobs, mc=mcs)
