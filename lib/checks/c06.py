"""C06: signatures made are valid, well formed and verify."""
from ..keys import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ signer/verifier model (TLC, exhaustive on tiny curves); recorded signatures validated against the specification'
NOTE = 'DSTU 4145 written from the standard in TLA+; the signer/verifier state machine is checked exhaustively over all keys, hashes and nonces of curves of up to 59 points; on the implementation, all private values of tiny curves and sampled ones of all ten named curves sign hashes and messages of many shapes, and every signature returned must satisfy the specification and be accepted by the implementation. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the random source works (C19 covers failing ones)', 'a hash has at least one octet']

def hashes(c, cv):
    out = [c.rb(32), bytes(32), b'\xff' * 32, bytes(31) + b'\x01', b'\x01' + bytes(31), c.rb(1), c.rb(20), c.rb(64), c.rb(33), bytes(1), bytes(80)]
    if cv.m < 256:          # the low bits vanish, the rest does not
        z = (cv.m + 7) // 8
        out += [bytes(z) + c.rb(max(1, 32 - z)), bytes(z) + b'\x01', (1 << cv.m).to_bytes(z + 1, 'little'), (((1 << 16) - 1) << cv.m).to_bytes(z + 3, 'little')]
    out.append((c.rng.getrandbits(40) << max(0, cv.m - 3)).to_bytes((cv.m + 50) // 8, 'little'))
    return out

def long_hashes(c):
    """hashes longer than any field"""
    return [c.rb(c.rng.choice([65, 66, 72, 80])), c.rb(c.rng.choice([96, 128, 129])), c.rb(c.rng.choice([200, 256, 257, 1000])), c.rb(60) + bytes(40), bytes(56) + c.rb(30)]

def pair(P, c, cv, le, d, sb, explicit=False):
    P.load('priv', priv_der(le, cv, d, sb, explicit), s=0)
    Q = cv.neg(cv.mul(d, cv.G))
    if cv.compress(Q) or Q[0] == 0:
        P.load('pub', pub_der(le, cv, Q, sb, explicit), s=1); return 1
    return 0

def run(c):
    c.model('MCSig', None if c.quick else 'MCSigBig.cfg', workers=8)
    plans = []
    # all private values of tiny curves
    for cv in (TINYC[:4] if c.quick else TINYC):
        P = KeyPlan(c)
        for d in range(1, cv.n):
            if cv.n > 100 and d % (7 if cv.n < 1100 else 29): continue
            for le in ((d % 2 == 0,) if c.quick else (True, False)):
                v = pair(P, c, cv, le, d, c.rb(64) if d % 3 == 0 else None)
                for h in c.rng.sample(hashes(c, cv), 4) + c.rng.sample(long_hashes(c), 1) + [bytes([x]) for x in c.rng.sample(range(256), c.pick(2, 8))]:
                    P.sign(0, h); P.back(v, h)
                m = c.rb(c.rng.randrange(100))
                P.dsign(0, m); P.back(v, None, m)
                if v: P.free(1)
                P.free(0)
        plans.append(P.end())
    # the named curves
    for cv in NAMED:
        P = KeyPlan(c)
        for rep in range(c.pick(1, 12)):
            for le in (True, False):
                for sb in (None, c.rb(64)):
                    d = c.rng.choice([1, 2, cv.n - 1, cv.n - 2, c.rng.randrange(1, cv.n), c.rng.randrange(1, cv.n), c.rng.randrange(1, 1 << 24)])
                    v = pair(P, c, cv, le, d, sb, explicit=c.rng.random() < .3)
                    size = 2 + 2 * cv.nb
                    hs = hashes(c, cv)
                    for h in (c.rng.sample(hs, 5) + c.rng.sample(long_hashes(c), 2) if c.quick else hs + long_hashes(c)):
                        P.sign(0, h); P.back(v, h)
                    P.sign(0, hs[0], -1)
                    for n in sorted({0, 1, 2, cv.nb, size - 3, size - 2, size - 1}): P.sign(0, hs[0], n)
                    for n in (size, size + 1, size + 50): P.sign(0, hs[0], n); P.back(v, hs[0])
                    for n in (0, 1, 31, 32, 33, 100, c.rng.choice([1023, 1024, 1025, 4096, 5000])):
                        m = c.rb(n); P.dsign(0, m); P.back(v, None, m)
                    if v:
                        P.sign(1, hs[0]) ; P.free(1)         # a public key cannot sign
                    P.free(0)
        plans.append(P.end())
    run_sessions(c, plans, 'signing', parallel=6)
