#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after a property is added)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import profiles
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = 'TLA+ specification model checked with TLC; recorded executions of the implementation validated against it by TLC'
CON = 'TLA+ specifications (lock-level model, linearisability) checked with TLC; executions of the implementation under a controlled scheduler validated against them'
NOTE = {
 'C01': 'exclusiveness and preservation are invariants of MC.tla and are judged on every event of every recorded run (contents of all live blocks compared after every call)',
 'C02': 'sizes at every class and page boundary plus random ones up to 2^64-1; bounded only by the scripts',
 'C03': 'recycled chunks, big blocks and zones; products around 2^32 and 2^64',
 'C04': 'all size-class transitions of the generator plus every call sequence of bounded length from Gen.tla',
 'C05': 'sources end at an inaccessible page, so over-reads fault',
 'C06': 'each repeated free runs in a forked child of a recorded state',
 'C07': 'interior, reserved, unused, metadata and foreign addresses, every free function, in forked children',
 'C08': 'permanent frees in every zone kind followed by long reuse',
 'C09': 'the pending set is part of the specification state; release is observed from memory contents',
 'C10': 'single byte damage at the protected words followed by each detector, in forked children',
 'C11': 'every configuration of the build matrix that supports native calls, four mapping placements',
 'C12': 'zone creation, filling, refusal, recovery, destruction, zones of neighbouring sizes',
 'C13': 'first-fit placement, eightfold waste rule, strong isolation',
 'C14': 'protections of every mapping are tracked through the intercepted system calls',
 'C15': 'retirement counted by the specification, mappings of retired zones must disappear with the call',
 'C16': 'reuse, waste, use count and list length are state of the specification',
 'C17': 'histories of 2-4 threads under randomised priority schedules with preemption at shared accesses; linearisability decided by TLC per history',
 'C18': 'deadlock freedom of the lock-level model for every interleaving; lock balance on every sequential event; scheduled executions of the implementation never stall',
 'C19': 'leak and usage queries compared with the specification state exactly',
 'C20': 'configurations with memory tagging; stale, wrong and foreign tags in forked children',
 'C21': 'libc and C++ interfaces compiled from the repository under other names; alignments above 32 are a known finding',
 'C22': 'sampling odds lowered so that sampled and ordinary blocks alternate',
 'C23': 'contents of every released chunk are inspected after the call that released it',
 'C24': 'all offsets and lengths of a bounded set plus random ones, both overlap directions',
 'C25': 'for each call every k-th system request in it is refused in a forked child',
 'C26': 'protect and unprotect around native calls; use while protected in forked children',
 'C29': 'the core a call runs on is chosen by the script (interposed sched_getcpu), cores up to 300',
 'C30': 'all allocator mappings but the chunks are searched for plain addresses after every call',
 'C31': 'values of all visible canaries are compared with each other and with their addresses on every event',
 'C32': 'sampling odds lowered to one half; dangling addresses at random places of live chunks',
 'C33': 'every refusal reason in the aborting configuration, in forked children, and the same requests where refusal returns NULL',
 'C34': 'mappings left after iso_alloc_destroy in the configuration that cleans up',
 'C35': 'the first access to a sampled block, read or write, at any offset, is chosen by the script; a detected read ends the run',
 'C28': 'up to 64 runs of one program with different entropy (interposed getrandom) judged together: every choice that repeats is reported; not an entropy measurement',
 'C27': 'profiler odds lowered to one half; call paths recognised by return addresses',
}
CS = SEQ + '; and executions under a controlled scheduler, decided by a linearisability specification'
TECH = {'C17': CON, 'C18': CON, 'C20': CS, 'C26': CS, 'C27': CS}
NA = {}
for p in ['C%02d' % i for i in range(1, 36)]:
    if p not in profiles.Q and p not in NA: NA[p] = 'the check of this property is not built yet'
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p, quick_cmd='python3 tools/check.py %s' % p, thorough_cmd='python3 tools/check.py %s --tier thorough' % p,
                      technique=TECH.get(p, SEQ), level='model_checking', level_note=NOTE[p]) for p in sorted(profiles.Q)],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())])
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
