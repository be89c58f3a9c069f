"""Sessions with the engine's generator."""
from . import tlc
from .frame import session

class RbgPlan:
    def __init__(self, c, delay=0, nseeds=8, t=None, default=False, seeds=None):
        self.c, self.p = c, []
        t = c.rng.choice([0, 1, 1700000000, c.rng.getrandbits(40), (1 << 62) + c.rng.getrandbits(30)]) if t is None else t
        seeds = c.rb(40 * nseeds) if seeds is None else seeds
        self.p.append(({'op': 'source', 'seeds': seeds, 't': t.to_bytes(8, 'little')}, ('osrc', seeds, t, delay)))
        self.p.append(({'op': 'nop'}, ('rb_default',)))
    def get(self, n, how='m'): self.p.append(({'op': 'get', 'n': n}, ('rb', how, n)))
    def status(self, how='m'): self.p.append(({'op': 'status'}, ('rb_status', how)))
    def add(self, b): self.p.append(({'op': 'feed'}, ('rb_add', b)))
    def seed(self, b): self.p.append(({'op': 'feed'}, ('rb_seed', b)))
    def clean(self): self.p.append(({'op': 'clean'}, ('rb_clean',)))
    def mode(self, v): self.p.append(({'op': 'mode', 'v': v}, ('osrc_mode', v)))
    def time(self, t): self.p.append(({'op': 'time', 't': t.to_bytes(8, 'little')}, ('osrc_time', t)))
    def fork(self, n, n1, n2, how='m'): self.p.append(({'op': 'fork', 'n': n, 'n1': n1, 'n2': n2}, ('rb_fork', how, n, n1, n2)))
    def threads(self, lists, flags=0, how='m'):
        self.p.append(({'op': 'threads', 'sizes': [x for l in lists for x in l]}, ('rb_thr', how, flags) + tuple(bytes(l) for l in lists)))
    def end(self): return self.p

def from_behaviour(c, beh):
    P = RbgPlan(c, nseeds=20)
    for e in beh:
        o = e['op']
        if o == 'get': P.get(e['n'], e['how'])
        elif o == 'status': P.status(c.rng.choice('mR'))
        elif o == 'add': P.add(c.rb(c.rng.randrange(1, 80)))
        elif o == 'seed': P.seed(c.rb(c.rng.randrange(1, 80)))
        elif o == 'time': P.time(c.rng.getrandbits(33))
        elif o == 'clean': P.clean()
        elif o == 'mode': P.mode(e['v'])
        elif o == 'fork': P.fork(c.rng.choice([8, 40, 64]), c.rng.choice([8, 40, 64]), e['n2'], c.rng.choice('mR'))
    return P.end()
