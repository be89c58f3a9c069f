"""C12: the generator under threads, failures, cleanup and fork."""
from .. import tlc
from ..rbg import *
from ..keys import run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of the generator among threads and processes (TLC, exhaustive interleavings, safety and liveness); TLC-generated sequences with failures, cleanups and forks replayed, threaded runs checked to be a partition of the specified stream'
NOTE = 'RbgSpec.tla: threads, lock, seeding that may fail, cleanup, fork; TLC checks over all interleavings that no unit is delivered twice in any process, requests are consecutive, failures deliver nothing and nobody waits for ever. Replayed on the engine with a scripted source: failing and recovering seeding, cleanup, forks of children and grandchildren, and eight threads whose pieces must partition the specified stream, first use included (the scripted source and clock are slow, to widen races). Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver; thread schedules on the implementation are those that occur.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the default OpenSSL source is itself safe under fork (the scripted one is)', 'thread interleavings on the implementation are sampled, those of the model are exhaustive']

def run(c):
    c.model('MCRbg', None if c.quick else 'MCRbgBig.cfg', workers=8, timeout=3000)
    c.model('MCRbg', 'MCRbgLive.cfg', workers=8)
    beh = tlc.simulate('GenRbg', 'GenRbg.cfg', c.pick(120, 1500), 60, c.seed + 1200, consts={'D': 30, 'Hard': 'TRUE'})
    c.count('generated_behaviours', len(beh)); c.sample({'generated_behaviour': beh[0][:12]})
    plans = [from_behaviour(c, b) for b in beh]
    R = c.rng
    # fork with and without seeding before it, repeatedly
    for pre in (0, 16):
        P = RbgPlan(c)
        if pre: P.get(pre)
        for k in range(4): P.fork(48, 48, 48, 'mR'[k % 2]); P.get(5)
        P.clean(); P.fork(40, 40, 0); P.status(); P.fork(40, 40, 40)
        plans.append(P.end())
    # failures at first use, after cleanup, and recovery
    for m in (1, 2):
        P = RbgPlan(c); P.mode(m); P.get(16); P.status(); P.get(3, 'R'); P.mode(0); P.get(16); P.mode(m); P.get(16); P.get(200)
        P.clean(); P.get(8); P.get(8, 'P'); P.mode(0); P.status(); P.get(30); P.clean(); P.clean(); P.get(30); plans.append(P.end())
    # threads
    for k in range(c.pick(24, 300)):
        P = RbgPlan(c, delay=R.choice([0, 200, 2000]))
        if k % 3 == 0: P.get(R.randrange(1, 40))
        if k % 3 == 1: P.get(4); P.clean()
        T = R.choice([2, 3, 8, 8])
        P.threads([[R.choice([8, 9, 16, 33, 100, 250]) for _ in range(R.randrange(1, 12))] for _ in range(T)], flags=R.choice([0, 1, 2, 7]), how=R.choice('mmR'))
        P.get(32)
        if k % 2: P.threads([[R.choice([8, 20, 120]) for _ in range(10)] for _ in range(8)], flags=R.choice([0, 6])); P.get(9)
        plans.append(P.end())
    run_sessions(c, plans, 'generator', mod='TraceRbg', parallel=6)
