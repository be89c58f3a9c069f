"""Sessions of the engine's life (driver started without the engine)."""
from .keys import NAMED, priv_der, pub_der, seq, alg_der, bits, oct, oid, tlv, OID_LE, OID_BE
from .frame import session

class LifePlan:
    def __init__(self, c):
        self.c, self.p, self.fref, self.loaded = c, [], 0, False
        self.add('libinit', {}, ('li_libinit',))
    def add(self, op, ev, cmd): self.p.append((dict(ev, op=op), cmd))
    def do(self, op, **e):
        c = self.c
        if op == 'byid': self.loaded = True; self.add(op, e, ('li_byid',))
        elif op in ('init', 'finish', 'free', 'up', 'undefault', 'register', 'look', 'unconf', 'cleanup'): self.add(op, e, ('li_' + op,))
        elif op == 'dyn': self.add(op, e, ('li_dyn', c.rng.choice('012'), c.rng.randrange(2)))
        elif op == 'conf': self.add(op, e, ('li_conf', c.rng.randrange(3)))
        elif op == 'default': self.add(op, e, ('li_default', e['v']))
        elif op == 'md': m = c.rb(c.rng.choice([0, 3, 32, 50])); self.add(op, dict(e, data=m), ('li_md', e['how'], e['eng'], m))
        elif op == 'ci':
            k, v, d, n = c.rb(32), c.rb(8), c.rb(c.rng.choice([1, 8, 13, 40])), c.rng.randrange(2)
            self.add(op, dict(e, enc=n, key=k, iv=v, data=d), ('li_ci', e['how'], e['eng'], n, k, v, d))
        elif op == 'rand': self.add(op, e, ('li_rand', e['how'], 16))
        elif op == 'setrand': self.add(op, e, ('li_setrand', e['v']))
        elif op == 'mopen': self.add(op, e, ('li_mopen', e['s'], e['how'], e['eng']))
        elif op == 'mupd': d = c.rb(c.rng.choice([1, 31, 33])); self.add(op, dict(e, data=d), ('li_mupd', e['s'], d))
        elif op == 'mfin': self.add(op, e, ('li_mfin', e['s'])); self.add('mfree', e, ('li_mfree', e['s']))
        elif op == 'mfree': self.add(op, e, ('li_mfree', e['s']))
        elif op == 'copen': k, v = c.rb(32), c.rb(8); self.add(op, dict(e, key=k, iv=v), ('li_copen', e['s'], e['how'], e['eng'], k, v))
        elif op == 'cupd': d = c.rb(c.rng.choice([1, 7, 8, 20])); self.add(op, dict(e, data=d), ('li_cupd', e['s'], d))
        elif op in ('cfree', 'kfree'): self.add(op, e, ('li_' + op, e['s']))
        elif op == 'load':
            cv = NAMED[0]; d = priv_der(c.rng.random() < .5, cv, c.rng.randrange(1, cv.n)); self.add(op, dict(e, der=d), ('li_load', e['s'], d))
        elif op == 'gen': le = c.rng.randrange(2); self.add(op, dict(e, le=le), ('li_gen', e['s'], 'le' if le else 'be', e['eng']))
        elif op == 'err':   # a private key the engine itself refuses (its parameters cannot be read)
            le, z = c.rng.random() < .5, c.rb(32)
            o = oid(OID_LE if le else OID_BE)
            x = seq(tlv(2, b'\0'), c.rng.choice([seq(o, tlv(5)), seq(o, tlv(4, z)), seq(o), seq(o, seq(oid(OID_LE + b'\2\x0a')))]), oct(z))
            self.add(op, dict(e, der=x), ('li_err', x))
        elif op == 'sv': h = c.rb(32); self.add(op, dict(e, hash=h), ('li_sv', e['s'], e['eng'], h))
        else: raise ValueError(op)
    def guard(self, op, **e):
        """a use of a slot only if what it holds was really obtained"""
        opener = {'mupd': 'mopen', 'mfin': 'mopen', 'cupd': 'copen', 'sv': ('load', 'gen'), 'cfree': 'copen', 'kfree': ('load', 'gen')}[op]
        opener = (opener,) if isinstance(opener, str) else opener
        q = LifePlan.__new__(LifePlan); q.c, q.p, q.fref, q.loaded = self.c, [], 0, True
        q.do(op, **e)
        for ev, cmd in q.p:
            def f(out, ev=ev, cmd=cmd):
                last = next((x for x in reversed(out) if x.get('s') == e['s'] and x['op'] in opener), None)
                return (ev, cmd) if last and last['res'].get('ok') == 1 else None
            self.p.append(f)
    def end(self): return self.p

def from_behaviour(c, beh):
    P = LifePlan(c)
    md, ci, ks = set(), set(), set()
    for e in beh:
        e = dict(e); op = e.pop('op')
        if op in ('mupd', 'mfin', 'cupd', 'cfree', 'sv', 'kfree'): P.guard(op, **e)
        else: P.do(op, **e)
        if op == 'mopen': md.add(e['s'])
        if op == 'mfin': md.discard(e['s'])
        if op == 'copen': ci.add(e['s'])
        if op == 'cfree': ci.discard(e['s'])
        if op in ('load', 'gen'): ks.add(e['s'])
        if op == 'kfree': ks.discard(e['s'])
    f = sum(1 for e in beh if e['op'] == 'init') - sum(1 for e in beh if e['op'] == 'finish')
    if c.rng.random() < .7:
        # let go of everything, in some order, then clean the library up
        for s in md: P.guard('mfin', s=s)
        for s in ci: P.guard('cfree', s=s)
        for s in ks: P.guard('kfree', s=s)
        for _ in range(f): P.do('finish')
        if c.rng.random() < .5 and any(e['op'] == 'byid' for e in beh): P.do('init'); P.do('md', how='n', eng=0); P.do('finish')
        P.do('cleanup')
    return P.end()
