"""C23: the ten named curves, their sizes, and the recognition of curves."""
from ..keys import *
from .c08 import GenPlan, group_args

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ table of the curves of DSTU 4145 and of one-parameter changes of them (TLC: field, base point, prime order, cofactor, encoding); keys on every curve recorded and validated against the specification'
NOTE = 'CurveSpec.tla holds the ten curves; TLC establishes irreducibility, prime order (Miller-Rabin), nG = O, cofactor, that a curve given explicitly denotes the named one, and that changing any one parameter does not. On the implementation every curve, by name, by explicit encoding and as a group, must give the public points, key and signature sizes and encodings of the specification, and every one-parameter change must be refused or kept as the different curve it is, also in comparisons. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver, the table of curves (copied once and checked for the properties above).'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'b and the base point of the standard cannot be derived: the table of the specification is the reference']

def explicit(le, cv, **ch):
    f = dict(p=cv.p, a=cv.a, b=cv.b, n=cv.n, z=cv.compress(cv.G)); f.update(ch)
    w = cv.fb
    return seq(field_der(f['p']), dint(f['a']), oct(num(le, f['b'], w)), dint(f['n']), oct(num(le, f['z'], w)))

def changes(c, cv, k):
    out = [dict(a=1 - cv.a)]
    out += [dict(b=cv.b ^ 1 << j) for j in [0, cv.m - 1] + c.rng.sample(range(cv.m), k)]
    out += [dict(n=cv.n ^ 1 << j) for j in [1, cv.n.bit_length() - 1] + c.rng.sample(range(1, cv.n.bit_length() - 1), k)] + [dict(n=cv.n + 2), dict(n=cv.n - 2), dict(n=2 * cv.n)]
    for d in (2, 3, cv.n - 1, c.rng.randrange(4, cv.n)): out.append(dict(z=cv.compress(cv.mul(d, cv.G))))
    for _ in range(k): out.append(dict(z=cv.compress(cv.G) ^ 1 << c.rng.randrange(cv.m)))
    for o in NAMED:
        if o.m == cv.m and o is not cv: out += [dict(b=o.b), dict(n=o.n)]
    t = cv.taps
    for j in range(1, 40):
        q = cv.p ^ (1 << j)
        if bin(q).count('1') in (3, 5): out.append(dict(p=q))
    if len(t) == 4:
        for _ in range(k):
            x = sorted(c.rng.sample(range(1, 60), 3)); out.append(dict(p=1 << cv.m | 1 | sum(1 << j for j in x)))
    return out

def run(c):
    c.model('MCCurves', None if c.quick else 'MCCurvesBig.cfg', workers=8, timeout=3000)
    plans = []
    for i, cv in enumerate(NAMED):
        P = KeyPlan(c)
        for le in (True, False):
            P.load('par', params_der(le, cv), le, s=0)
            P.load('par', params_der(le, cv, explicit=True), le, s=1); P.pcmp(0, 1); P.pcmp(1, 0)
            P.load('par', params_der(le, cv, DEF, explicit=True), le, s=2); P.pcmp(0, 2); P.free(2)
            ds = [1, 2, 3, cv.n - 1, cv.n - 2, (cv.n + 1) // 2] + [c.rng.randrange(1, cv.n) for _ in range(c.pick(2, 20))]
            for d in ds:
                ex = c.rng.random() < .5
                P.load('priv', priv_der(le, cv, d, explicit=ex), le, s=2); P.pcmp(0, 2)
                P.load('pub', pub_der(le, cv, cv.neg(cv.mul(d, cv.G)), explicit=not ex), le, s=3); P.cmp(2, 3)
                h = c.rb(32); P.sign(2, h, -1); P.sign(2, h); P.back(3, h)
                P.free(2); P.free(3)
            P.load('priv', priv_der(le, cv, cv.n), le, s=2)                  # the order is the order: refused
            P.load('priv', priv_der(le, cv, cv.n - 1, explicit=True), le, s=2); P.free(2)
            # the nearest curves
            for ch in changes(c, cv, c.pick(3, 25)):
                der = seq(explicit(le, cv, **ch))
                P.load('par', der, le, s=2)
                P.p.append(cond({'op': 'pcmp', 's': 0, 't': 2}, ('k_pcmp', 0, 2)))
                P.p.append(cond({'op': 'pcmp', 's': 2, 't': 1}, ('k_pcmp', 2, 1)))
                P.p.append(cond({'op': 'free', 's': 2}, ('k_free', 2)))
                if 'z' in ch:
                    P.load('priv', seq(dint(0), seq(oid(OID_LE if le else OID_BE), der), oct(b'\5')), le, s=2)
                    P.p.append(cond({'op': 'pcmp', 's': 0, 't': 2}, ('k_pcmp', 0, 2)))
                    P.p.append(cond({'op': 'free', 's': 2}, ('k_free', 2)))
            P.free(0); P.free(1)
        plans.append(P.end())
    # all pairs, by name and as a group
    for le in (True, False):
        P = GenPlan(c)
        for i, cv in enumerate(NAMED): P.load('par', params_der(le, cv, explicit=i % 2 == 0), le, s=20 + i)
        for i in range(10):
            for j in range(10): P.pcmp(20 + i, 20 + j) if i != j else None
        for i, cv in enumerate(NAMED):
            P.new(0, le); P.init(0); P.grp(0, cv); P.gen(0); P.cstr(0, b'uacurve%d' % (9 - i)); P.gen(0)
            for d in (2, cv.n - 1, c.rng.randrange(3, cv.n)):
                G = cv.mul(d, cv.G); P.grp(0, Curve(cv.p, cv.a, cv.b, cv.n, G[0], G[1])); P.gen(0)
            P.gfree(0)
        P.new(0, le); P.init(0); P.gen(0); P.gfree(0)          # the default
        plans.append(P.end())
    run_sessions(c, plans, 'named curves', parallel=8)

def cond(ev, cmd):
    """only while slot 2 holds a key the specification followed"""
    def f(out):
        l = next(e for e in reversed(out) if e['op'] == 'load')
        return (ev, cmd) if l['res'].get('ok') == 1 else None
    return f
