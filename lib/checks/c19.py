"""C19: signature nonces."""
from ..keys import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of signer and random source (TLC, safety and liveness, exhaustive on tiny curves); nonces of recorded signatures recovered and judged by the specification'
NOTE = 'NonceSpec.tla: a signer that draws until a value is usable, against a source that may answer anything or fail; TLC checks that every signature has its own in-range draw, that failures give no signature and that every request ends. On the implementation the nonce behind each recorded signature is recovered with the private value (NonceOf): in range, distinct across keys and byte orders, no fixed bit, on tiny curves every usable nonce equally often; the random source is scripted to zero, order-related and rejected draws and to fail at each call. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'statistical bounds are wider than six standard deviations and the random source is a fixed pseudo-random sequence',
               'a hash has at least one octet']

be = lambda v: v.to_bytes((v.bit_length() + 7) // 8, 'big')

class NPlan(KeyPlan):
    def __init__(self, c, seed=None):
        super().__init__(c, seed); self.keys = []; self.cur = {}
    def priv(self, s, le, cv, d, sb=None):
        der = priv_der(le, cv, d, sb); self.keys.append(der); self.cur[s] = len(self.keys); self.load('priv', der, s=s)
    def nsign(self, s, h=None, m=None, rnd='ok'):
        k = self.cur[s]
        if m is None: self.p.append(({'op': 'sign', 's': s, 'hash': h, 'buf': -2, 'rnd': rnd, 'key': k}, ('sign', s, h, -2)))
        else: self.p.append(({'op': 'dsign', 's': s, 'msg': m, 'rnd': rnd, 'key': k}, ('dsign', s, m, 0)))
    def many(self, s, h, n): self.p.append(({'op': 'many', 's': s, 'hash': h, 'n': n}, ('sign_many', s, h, n)))
    def nonces(self):
        keys = list(self.keys)
        def g(out):
            sigs = [{'k': e['key'], 'sig': e['res']['out']} for e in out if e.get('key') and e['res'].get('out')]
            return {'op': 'nonces', 'keys': keys, 'sigs': sigs}, ('rnd_log',)
        self.p.append(g)

def low_zero(cv):
    """hashes whose field part vanishes, or nearly"""
    z = (cv.m + 7) // 8
    return [bytes(32), bytes(z) + b'\x01', (1 << cv.m).to_bytes(z + 1, 'little'), (((1 << 16) - 1) << cv.m).to_bytes(z + 3, 'little'),
            (1 << (cv.m - 1)).to_bytes(z, 'little'), bytes(1), b'\xff' * 80, bytes(64) + b'\x80']

def run(c):
    c.model('MCNonce', None if c.quick else 'MCNonceBig.cfg', workers=8)
    plans = []
    # recovered nonces on the named curves, several keys and byte orders in one process
    for first, seed in (((6, 0), None), ((9, 3), None)) if c.quick else [((i, (i + 5) % 10), None) for i in range(10)]:
        P = NPlan(c, seed)
        for i, j in enumerate(first):
            cv = NAMED[j]
            P.priv(2 * i, True, cv, c.rng.randrange(1, cv.n)); P.priv(2 * i + 1, False, cv, c.rng.randrange(1, cv.n), c.rb(64))
        h, m = c.rb(32), c.rb(40)
        for n in range(c.pick(25, 60)):
            for s in range(4):
                P.nsign(s, h) if n % 2 else P.nsign(s, c.rb(32)) if n % 4 else P.nsign(s, m=m)
        P.nonces(); plans.append(P.end())
    # the same with the default source and with the engine's own generator as source
    for src in ('default', 'engine'):
        P = NPlan(c); P.raw(('rnd', src)); cv = NAMED[c.rng.choice([0, 6])]
        P.priv(0, True, cv, c.rng.randrange(1, cv.n)); P.priv(1, True, cv, c.rng.randrange(1, cv.n))
        for n in range(48):
            for s in (0, 1): P.nsign(s, c.rb(32) if n % 2 else bytes(32))
        P.nonces(); plans.append(P.end())
    # all usable nonces equally often
    for cv in TINYC[:c.pick(3, 4)]:
        for le in (True, False):
            P = NPlan(c)
            for d in c.rng.sample(range(1, cv.n), 2):
                P.priv(0, le, cv, d)
                for h in [c.rb(32), bytes(32)] + c.rng.sample(low_zero(cv), 1): P.many(0, h, 300 * cv.n)
                P.free(0)
            plans.append(P.end())
    # signing ends for every hash
    for cv in TINYC[:2]:
        P = NPlan(c)
        for d in range(1, cv.n):
            P.priv(0, d % 2 == 0, cv, d)
            for v in range(256): P.nsign(0, bytes([v]))
            for h in low_zero(cv): P.nsign(0, h)
            P.free(0)
        plans.append(P.end())
    for cv in NAMED:
        P = NPlan(c); P.priv(0, True, cv, c.rng.randrange(1, cv.n))
        for h in low_zero(cv): P.nsign(0, h)
        # draws that have to be repeated
        for script in (bytes(cv.nb), bytes(4 * cv.nb), b'\xff' * 6 * cv.nb, be(cv.n), be(cv.n) * 3 + bytes(2 * cv.nb), bytes(cv.nb - 1) + b'\1', be(cv.n - 1)):
            P.raw(('rnd', 'script', script)); P.nsign(0, c.rb(32))
        plans.append(P.end())
    for cv in TINYC[:5]:
        P = NPlan(c)
        for d in c.rng.sample(range(1, cv.n), min(5, cv.n - 1)):
            P.priv(0, True, cv, d)
            for first in range(min(256, 2 << cv.n.bit_length())):
                P.raw(('rnd', 'script', bytes([first]) * 4)); P.nsign(0, bytes([c.rng.randrange(256)]))
            P.free(0)
        plans.append(P.end())
    # keys decoded with an order that is not that of the base point: no nonce may be usable, signing ends all the same
    for cv in [NAMED[6], TINYC[1], TINYC[2], TINYC[4]]:
        P = NPlan(c); w = cv.fb
        for n in (2, 3, 4, 5, 6, 8, 16):
            for _ in range(c.pick(3, 20)):
                le = c.rng.random() < .5; d = c.rng.randrange(1, n)
                der = seq(dint(0), seq(oid(OID_LE if le else OID_BE), seq(seq(field_der(cv.p), dint(cv.a), oct(num(le, cv.b, w)), dint(n), oct(num(le, cv.compress(cv.mul(c.rng.randrange(1, cv.n), cv.G)), w))))), oct(bytes([d])))
                P.raw(('k_priv', 0, der))
                for h in [c.rb(32) for _ in range(6)] + [bytes(32), b'\1']: P.p.append(lambda out, h=h: ({'op': 'nop'}, ('sign', 0, h, -2)) if [e for e in out if e['res'].get('p8')][-1]['res'].get('ok') == 1 else None)
                P.raw(('k_free', 0))
        plans.append(P.end())
    # a source that gives nothing but zeros
    for cv in (NAMED[0], TINYC[2]):
        P = NPlan(c); P.priv(0, True, cv, c.rng.randrange(1, cv.n)); P.raw(('rnd', 'script', bytes(1 << 20))); P.raw(('sign', 0, c.rb(32), -2)); P.raw(('rnd', 'script', b'')); P.nsign(0, c.rb(32)); plans.append(P.end())
    # a failing source
    for cv in [NAMED[6], NAMED[0], TINYC[1], TINYC[4]] if c.quick else NAMED + TINYC:
        P = NPlan(c); P.priv(0, True, cv, c.rng.randrange(1, cv.n)); P.priv(1, False, cv, c.rng.randrange(1, cv.n))
        for mode in (0, -1):
            for once in (0, 1):             # for good, or a single time
                for k in range(8):
                    for s in (0, 1):
                        P.raw(('rnd', 'fail', k, mode, once)); P.nsign(s, c.rb(32), rnd='fail' if k == 0 else 'maybe')
                        P.raw(('rnd', 'fail', k, mode, once)); P.nsign(s, m=c.rb(20), rnd='fail' if k == 0 else 'maybe')
            if cv.n.bit_length() > 100:     # a draw that cannot be used, then a failure
                for bad in (bytes(cv.nb + 1), bytes(3 * cv.nb)):
                    P.raw(('rnd', 'script', bad)); P.raw(('rnd', 'fail', 1, mode, 1)); P.nsign(0, c.rb(32), rnd='fail'); P.raw(('rnd', 'nofail'))
        P.raw(('rnd', 'nofail')); P.nsign(0, c.rb(32)); P.nsign(1, c.rb(32))
        plans.append(P.end())
    run_sessions(c, plans, 'nonces', parallel=8)
