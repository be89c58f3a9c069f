"""C11: the generator's stream."""
from .. import tlc
from ..rbg import *
from ..keys import run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of the shared generator (TLC, exhaustive); TLC-generated call sequences replayed with scripted seed and clock, every octet delivered compared with the DSTU 4145 Annex A generator written in TLA+'
NOTE = 'Rbg.tla is the Annex A bit generator over the specified GOST 28147; RbgSpec.tla the shared stream. TLC-generated sequences of requests (all sizes and entry points), status, add and seed calls and clock changes run against the engine with the default OpenSSL source and the clock replaced by scripted ones; every delivered octet must be the next one of the specified stream. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver, symbol interposition of RAND_OpenSSL and time.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the seed is 32 octets of key followed by 8 octets of state, the start time 8 octets little-endian', 'asking for the status may seed the generator']

def run(c):
    c.model('MCRbg', None if c.quick else 'MCRbgBig.cfg', workers=8, timeout=3000)
    beh = tlc.simulate('GenRbg', 'GenRbg.cfg', c.pick(120, 1500), 60, c.seed + 1100, consts={'D': 30})
    c.count('generated_behaviours', len(beh)); c.sample({'generated_behaviour': beh[0][:12]})
    plans = [from_behaviour(c, b) for b in beh]
    # one stream in pieces of every size, and special seeds
    for seeds in (None, bytes(80), b'\xff' * 80, bytes(32) + b'\xff' * 48, c.rb(32) + bytes(8) + bytes(40)):
        P = RbgPlan(c, seeds=seeds or c.rb(80), t=c.rng.choice([0, 1, (1 << 32) - 1, 1 << 32, 0x0102030405060708]))
        for n in list(range(0, 70)) + [128, 255, 256, 257]: P.get(n, 'mpRP'[n % 4])
        plans.append(P.end())
    P = RbgPlan(c)
    for n in c.pick([1, 20000, 1, 65536, 3], [1, 100000, 7, 1 << 20, 9, 1 << 20]): P.get(n); P.status(); P.add(c.rb(40)); P.seed(c.rb(7))
    plans.append(P.end())
    # very many small requests
    P = RbgPlan(c)
    for n in range(c.pick(600, 5000)): P.get(1 + n % 5)
    plans.append(P.end())
    run_sessions(c, plans, 'generator', mod='TraceRbg', parallel=6)
