"""C26: keys as text."""
from ..keys import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ definition of the printed sections of a key (TLC: over all keys of tiny curves they determine the key and public text hides the private value); text printed by the implementation compared with it'
NOTE = 'KeyText.tla gives the sections (private value, public point, field polynomial, a, b, base point, order) a printed key has; TLC checks over all keys of tiny curves that the private text determines the key and that the public text is that of the public key alone. Keys of all ten named curves and of tiny ones, private, public and parameters only, with and without tables, in both byte orders, are printed in the three ways and the sections compared; the key must be unchanged by printing, also to an output that refuses to take the text. The text is split into sections by the harness. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'layout of the text, sections other than those listed and the bit count in the heading are not judged']

def run(c):
    c.model('MCKeyText', None if c.quick else 'MCKeyTextBig.cfg', workers=8)
    plans = []
    def show(P, s, hasd):
        for what in c.rng.sample(['par', 'pub', 'priv'], 3): P.text(s, what, c.rng.choice([0, 0, 1, 4, 13]))
        P.cut(s, c.rng.choice(['par', 'pub', 'priv']), c.rng.choice([0, 1, 5, 20, 40]))
        if hasd: h = c.rb(32); P.sign(s, h); P.back(s, h)
        P.show(s)
    for cv in NAMED + TINYC:
        P = KeyPlan(c)
        for rep in range(c.pick(1, 12)):
            for le in (True, False):
                for d in [1, cv.n - 1] + [c.rng.randrange(1, cv.n) for _ in range(4)] + [c.rng.randrange(1, max(2, cv.n >> 11))]:
                    sb = c.rng.choice([None, c.rb(64), DEF])
                    e = c.rng.random() < .3
                    Q = cv.mul(d, cv.G)
                    P.load(c.rng.choice(['priv', 'auto']), priv_der(le, cv, d, sb, e), s=0); show(P, 0, True)
                    P.load('pub', pub_der(le, cv, Q, sb, e), s=1); show(P, 1, False)
                P.load('pub', pub_der(le, cv, (0, cv.sqrt(cv.b))), s=2); show(P, 2, False)
                P.load('par', params_der(le, cv, c.rng.choice([None, c.rb(64)]), c.rng.random() < .3), le, s=3); show(P, 3, False)
                other = Curve(cv.p, cv.a, cv.b, cv.n, *cv.mul(c.rng.randrange(2, cv.n), cv.G), name='other')
                P.load('priv', priv_der(le, other, c.rng.randrange(1, cv.n)), s=4); show(P, 4, True)
                h = c.rb(32)
                P.sign(4, h); P.text(4, 'pub'); P.back(4, h)
        plans.append(P.end())
    run_sessions(c, plans, 'printing', parallel=8)
