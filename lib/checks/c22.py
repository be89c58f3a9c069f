"""C22: comparison of keys."""
from ..keys import *
from .c09 import tables

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ definition of key equality (TLC: agrees with the encodings and is an equivalence over all keys of tiny curves); answers of the implementation compared with it'
NOTE = 'Keys of tiny curves (all public points) and named curves, given in every form (private, public, parameters only; named and explicit; table absent, default, other; both byte orders) are compared pairwise in both orders, and with their own re-decoding; each answer must be the specified one. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'for keys without a public point only the absence of a positive answer is demanded']

def run(c):
    c.model('MCKeyEq', None if c.quick else 'MCKeyEqBig.cfg', workers=8)
    plans = []
    def pairs(P, n, want):
        ps = [(i, j) for i in range(n) for j in range(n)]
        for i, j in (ps if len(ps) <= want else c.rng.sample(ps, want)): P.cmp(i, j); P.pcmp(i, j)
        for i, j in c.rng.sample(ps, min(len(ps), 60)): P.copyp(i, j); P.show(i)
    for cv in NAMED if not c.quick else c.rng.sample(NAMED, 6) + [NAMED[6]]:
        for le in (True, False):
            P = KeyPlan(c); n = 0
            sb = c.rb(64); sb2 = bytes([sb[0] ^ 1]) + sb[1:]; sb3 = sb[:-1] + bytes([sb[-1] ^ 0x10])
            d = c.rng.randrange(1, cv.n); Q = cv.neg(cv.mul(d, cv.G))
            other = NAMED[(NAMED.index(cv) + 1) % 10]
            moved = Curve(cv.p, cv.a, cv.b, cv.n, *cv.mul(2, cv.G), name='moved')
            forms = []
            for s in (None, DEF, sb, sb2, sb3):
                for e in (False, True):
                    forms += [('priv', priv_der(le, cv, d, s, e)), ('pub', pub_der(le, cv, Q, s, e)), ('par', params_der(le, cv, s, e))]
            forms += [('pub', pub_der(le, cv, cv.neg(Q))), ('pub', pub_der(le, cv, cv.mul(2, Q))), ('priv', priv_der(le, cv, cv.n - d)), ('priv', priv_der(le, cv, d + cv.n)),
                      ('pub', pub_der(not le, cv, Q)), ('priv', priv_der(not le, cv, d)), ('par!', params_der(not le, cv)),
                      ('priv', priv_der(le, other, d % other.n)), ('par', params_der(le, other)), ('priv', priv_der(le, moved, d)), ('par', params_der(le, moved)),
                      ('pub', pub_der(le, cv, (0, cv.sqrt(cv.b))))]
            for k, x in forms:
                P.load(k.strip('!'), x, le if '!' not in k else not le, s=n); n += 1
            pairs(P, n, c.pick(500, 10 ** 6))
            plans.append(P.end())
    for cv in TINYC[:4]:
        pts, X = [], cv.G
        while X: pts.append(X); X = cv.add(X, cv.G)
        pts = [q for q in pts if cv.compress(q)] + [(0, cv.sqrt(cv.b))]
        for le in (True, False):
            P = KeyPlan(c)
            ps = pts if len(pts) < 20 else c.rng.sample(pts, 16)
            for n, q in enumerate(ps): P.load('pub', pub_der(le, cv, q), s=n)
            for n in range(1, min(8, cv.n)): P.load('priv', priv_der(le, cv, n), s=20 + n)
            t = Curve(cv.p, cv.a, cv.b, cv.n, *cv.mul(3, cv.G))
            P.load('par', params_der(le, cv), le, s=40); P.load('par', params_der(le, t), le, s=41); P.load('priv', priv_der(le, t, 1), s=42); P.load('par', params_der(le, cv, DEF), le, s=43)
            sl = list(range(len(ps))) + list(range(21, 20 + min(8, cv.n))) + [40, 41, 42, 43]
            al = [(i, j) for i in sl for j in sl]
            for i, j in (al if not c.quick else c.rng.sample(al, min(len(al), 250))): P.cmp(i, j); P.pcmp(i, j)
            plans.append(P.end())
    run_sessions(c, plans, 'comparison', parallel=8)
