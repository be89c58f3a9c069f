"""C09: exact encodings and round trips."""
from ..keys import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ codec specification (TLC: every key of tiny curves, every encoding read back); encodings recorded from the implementation compared octet for octet'
NOTE = 'KeyCodec.tla defines the one DER encoding of a key and the key an encoding denotes; TLC checks that they are inverse over every key of the smallest curves. The implementation loads every private value and every public point (x = 0 included) of tiny trinomial and pentanomial curves with a = 0 and 1, and keys of all ten named curves, in named and explicit form, both byte orders, default and other tables; what it shows of itself (parameters, SubjectPublicKeyInfo, PKCS#8, bits, size) must be octet for octet the specified one, and decode to an equal key again. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'public points are multiples of the base point, or the point with x = 0']

def subgroup(cv):
    P, out = cv.G, []
    while P: out.append(P); P = cv.add(P, cv.G)
    return out

def tables(c):
    return [None, c.rb(64), DEF[:-1] + bytes([DEF[-1] ^ 1]), bytes([DEF[0] ^ 0x80]) + DEF[1:], bytes(63) + b'\1', b'\xff' * 64]

def run(c):
    c.model('MCCodec', None if c.quick else 'MCCodecBig.cfg', workers=8)
    plans = []
    for cv in (TINYC[:6] if c.quick else TINYC):
        P = KeyPlan(c)
        pts = subgroup(cv)
        ds = range(1, cv.n)
        if c.quick and cv.n > 100:
            pts = c.rng.sample(pts, 60); ds = c.rng.sample(ds, 60)
        for Q in pts + [(0, cv.sqrt(cv.b))]:
            if not cv.compress(Q) and Q[0]: continue
            for le in ((True, False) if not c.quick or cv.n < 20 else (c.rng.random() < .5,)):
                P.load('pub', pub_der(le, cv, Q, c.rng.choice(tables(c)) if c.rng.random() < .3 else None)); P.free()
        for d in ds:
            for le in ((True, False) if not c.quick or cv.n < 20 else (c.rng.random() < .5,)):
                P.load(c.rng.choice(['priv', 'priv', 'auto']), priv_der(le, cv, d, c.rng.choice(tables(c)) if c.rng.random() < .3 else None)); P.free()
        plans.append(P.end())
    for cv in NAMED:
        P = KeyPlan(c)
        for rep in range(c.pick(1, 10)):
            for le in (True, False):
                for sb in tables(c) + [DEF]:
                    e = c.rng.random() < .4
                    d = c.rng.choice([1, 2, cv.n - 1, cv.n - 2, c.rng.randrange(1, cv.n), c.rng.randrange(1, cv.n), c.rng.randrange(1, 1 << 16), c.rng.randrange(1, cv.n >> 16)])
                    P.load('priv', priv_der(le, cv, d, sb, e)); P.show(0); P.free()
                    P.load('par', params_der(le, cv, sb, e), le); P.free()
                    Q = cv.mul(c.rng.randrange(1, cv.n), cv.G)
                    P.load('pub', pub_der(le, cv, Q, sb, e)); P.free()
                P.load('pub', pub_der(le, cv, (0, cv.sqrt(cv.b)), None)); P.free()
                for n in (1, 2, 3, 8, c.pick(9, 30)):              # small multiples: all traces early
                    P.load('pub', pub_der(le, cv, cv.mul(n, cv.G), None)); P.free()
        plans.append(P.end())
    # other moduli: pentanomials and trinomials with a custom curve on the field of a named one
    P = KeyPlan(c)
    for cv in NAMED if not c.quick else c.rng.sample(NAMED, 4):
        for le in (True, False):
            for d in (3, c.rng.randrange(1, cv.n)):
                other = Curve(cv.p, cv.a, cv.b, cv.n, *cv.mul(d, cv.G), name='other')   # another base point of the same order
                e = c.rng.randrange(1, cv.n)
                P.load('priv', priv_der(le, other, e, c.rb(64) if d != 3 else None)); P.free()
                P.load('pub', pub_der(le, other, other.mul(e, other.G))); P.free()
                P.load('par', params_der(le, other), le); P.free()
    plans.append(P.end())
    run_sessions(c, plans, 'encoding', parallel=8)
