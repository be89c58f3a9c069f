"""C08: key generation."""
from .. import tlc
from ..keys import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of key generation contexts (TLC, exhaustive on symbolic settings); TLC-generated request sequences replayed, every generated key compared with the specification'
NOTE = 'KeygenSpec.tla says which settings a context has after any sequence of requests by name, group, table, string, duplication and refusal; TLC checks it against the history of accepted requests. Sequences generated by TLC are executed with named, explicit and tiny curves and good and bad names and tables; each key generated must be sound, on the specified curve, with the specified table, and decode to itself. The random source is scripted: zero draws, draws that need repetition, and failures at each call. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'a table string of 128 zeros may be refused', 'groups supplied describe a sound curve over GF(2^m)']

be = lambda v: v.to_bytes((v.bit_length() + 7) // 8, 'big')
BADC = [b'uacurve10', b'uacurve', b'', b'uacurve66', b'UACURVE6', b'uacurve6 ', b' uacurve6', b'dstu4145le', b'dstu34311', b'prime256v1', b'6', b'uacurve-1', b'sect163k1', b'id-smime']
def group_args(cv): return [be(v) for v in (cv.p, cv.a, cv.b, cv.n, cv.gx, cv.gy)]

class GenPlan(KeyPlan):
    def new(self, s, le): self.p.append(({'op': 'g_new', 's': s, 'le': int(le)}, ('pc_new', s, 'le' if le else 'be')))
    def init(self, s): self.p.append(({'op': 'g_init', 's': s}, ('pc_kginit', s)))
    def cstr(self, s, v): self.p.append(({'op': 'g_cstr', 's': s, 'v': v}, ('pc_str', s, 'curve', v)))
    def sstr(self, s, v): self.p.append(({'op': 'g_sstr', 's': s, 'v': v}, ('pc_str', s, 'sbox', v)))
    def other(self, s, t, v): self.p.append(({'op': 'g_other', 's': s}, ('pc_str', s, t, v)))
    def grp(self, s, cv): self.p.append(({'op': 'g_grp', 's': s, 'given': cv is not None, 'cv': cv.rec() if cv else 0}, ('pc_curve', s) + tuple(group_args(cv) if cv else ['-'])))
    def sbox(self, s, v, p1=64): self.p.append(({'op': 'g_sbox', 's': s, 'given': v is not None, 'p1': p1, 'data': v or b''}, ('pc_sbox', s, p1, v)))
    def dup(self, s, f): self.p.append(({'op': 'g_dup', 's': s, 'from': f}, ('pc_dup', s, f)))
    def gfree(self, s): self.p.append(({'op': 'g_free', 's': s}, ('pc_free', s)))
    def gen(self, s, k=0, rnd='ok', back=True):
        self.p.append(({'op': 'g_gen', 's': s, 'k': k, 'rnd': rnd}, ('pc_keygen', s, k)))
        if back:          # the key equals what it decodes to
            def f(kind):
                def g(out):
                    r = next((e['res'] for e in reversed(out) if e['op'] == 'g_gen'))
                    if not r.get(kind): return None
                    return {'op': 'load', 's': k + 1, 'kind': kind, 'der': r[kind], 'le': r['le']}, ('k_load', k + 1, KIND[kind], 'le', r[kind])
                return g
            def cmp(op, a, b):
                return lambda out: ({'op': op, 's': a, 't': b}, ('k_' + op, a, b)) if out[-1]['op'] in ('load', 'cmp', 'pcmp') and out[-1]['res'].get('ok', 1) == 1 else None
            for kind in ('priv', 'pub'):
                self.p += [f(kind), cmp('cmp', k, k + 1), cmp('pcmp', k + 1, k)]
                self.p.append(lambda out: ({'op': 'free', 's': k + 1}, ('k_free', k + 1)) if out[-1]['op'] == 'pcmp' else None)
        self.p.append(lambda out: ({'op': 'free', 's': k}, ('k_free', k)) if next((e['res'] for e in reversed(out) if e['op'] == 'g_gen')).get('ok') == 1 else None)
    def drawn(self, order, since):
        def g(out):
            ds = [tlv_last(e['res']['priv']) for e in out if e['op'] == 'g_gen' and e.get('res', {}).get('priv')]
            return {'op': 'drawn', 'all': order, 'ds': ds[-since:]}, ('rnd_log',)
        self.p.append(g)

def tlv_last(der):
    """contents of the OCTET STRING that ends a PKCS#8"""
    for n in range(1, min(80, len(der) - 2)):
        if der[-n - 1] == n and der[-n - 2] == 4: return der[-n:]
    return der[-8:]

def plan_from(c, beh):
    P = GenPlan(c)
    cvs = NAMED + TINYC
    for e in beh:
        o, s = e['op'], e['s']
        if o == 'g_new': P.new(s, e['le'])
        elif o == 'g_init': P.init(s)
        elif o == 'g_cstr': P.cstr(s, b'uacurve%d' % c.rng.randrange(10) if e['v'] == 'good' else c.rng.choice(BADC))
        elif o == 'g_sstr':
            x = c.rng.choice([c.rb(64), c.rb(64), DEF]).hex()
            if c.rng.random() < .3: x = x.upper()
            if e['v'] != 'good': x = c.rng.choice([x[:-1], x[:-2], x + '0', x + '00', x + 'z', x + ' ', ' ' + x, 'g' + x[1:], x[:64] + 'x' + x[65:], '-' + x, '-' + x[1:], '', x[:127] + 'h', '0x' + x, '0x' + x[2:]])
            P.sstr(s, x.encode())
        elif o == 'g_grp': P.grp(s, c.rng.choice(cvs) if e['given'] else None)
        elif o == 'g_sbox':
            n = e['p1'] if e['p1'] == 64 else c.rng.choice([0, 1, 63, 65, 128, -1])
            P.sbox(s, (c.rng.choice([c.rb(64), DEF, bytes(64)]) + bytes(64)[:max(0, n - 64)]) if e['given'] else None, n)
        elif o == 'g_other': P.other(s, *c.rng.choice([('curves', b'uacurve3'), ('CURVE', b'uacurve3'), ('s-box', b'00'), ('param', b'x'), ('sbo', b'0' * 128), ('curv', b'uacurve1')]))
        elif o == 'g_dup': P.dup(s, e['from'])
        elif o == 'g_free': P.gfree(s)
        elif o == 'g_gen': P.gen(s, back=c.rng.random() < .5)
    return P.end()

def run(c):
    c.model('MCKeygen', None if c.quick else 'MCKeygenBig.cfg', workers=8)
    beh = tlc.simulate('GenKeygen', 'GenKeygen.cfg', c.pick(120, 1500), 60, c.seed + 800, consts={'D': 30})
    c.sample({'generated_behaviour': beh[0][:12]}); c.count('generated_behaviours', len(beh))
    plans = [plan_from(c, b) for b in beh]
    # every named curve by string and by group, explicit default table
    for le in (True, False):
        P = GenPlan(c)
        for i, cv in enumerate(NAMED):
            P.new(0, le); P.cstr(0, b'uacurve%d' % i); P.sstr(0, c.rb(64).hex().encode())
            P.dup(1, 0); P.init(0); P.init(1); P.gen(0); P.gen(1); P.grp(0, NAMED[(i + 3) % 10]); P.sbox(1, c.rb(64)); P.gen(1); P.gen(0); P.gfree(0); P.gen(1)
            P.cstr(1, c.rng.choice(BADC)); P.sbox(1, c.rb(70), 70); P.gen(1); P.sbox(1, DEF); P.gen(1); P.gfree(1)
            P.new(0, le); P.init(0); P.grp(0, cv); P.gen(0); P.gfree(0)
        plans.append(P.end())
    # tiny curves: every value is drawn, whatever the bits of the source
    for cv in TINYC[:3]:
        P = GenPlan(c); P.new(0, True); P.init(0); P.grp(0, cv)
        n = 40 * cv.n if cv.n < 20 else 15 * cv.n
        for _ in range(n): P.gen(0, back=False)
        P.drawn(cv.n, n)
        plans.append(P.end())
    P = GenPlan(c); P.new(0, False); P.init(0)
    for _ in range(c.pick(40, 400)): P.gen(0, back=False)
    P.drawn(0, c.pick(40, 400)); plans.append(P.end())
    # scripted draws: zeros, ones, and values around the order, before the generator goes on
    P = GenPlan(c)
    for cv in [NAMED[6], NAMED[0], NAMED[9], TINYC[0], TINYC[3]]:
        P.new(0, True); P.init(0); P.grp(0, cv)
        for script in (bytes(cv.nb), bytes(3 * cv.nb), b'\xff' * cv.nb, b'\xff' * 5 * cv.nb, be(cv.n), be(cv.n - 1), be(cv.n + 1), bytes(cv.nb - 1) + b'\1', be(cv.n) + bytes(cv.nb) + be(cv.n)):
            P.raw(('rnd', 'script', script)); P.gen(0, back=False)
        P.gfree(0)
    plans.append(P.end())
    # the source fails at its k-th call
    for cv in [NAMED[6], TINYC[2]] if c.quick else NAMED + TINYC:
        P = GenPlan(c); P.new(0, True); P.init(0); P.grp(0, cv)
        for mode in (0, -1):
            for k in range(12):
                for once in (0, 1): P.raw(('rnd', 'fail', k, mode, once)); P.gen(0, rnd='fail' if k == 0 else 'maybe', back=False)
            P.raw(('rnd', 'script', bytes(cv.nb + 1))); P.raw(('rnd', 'fail', 1, mode, 1)); P.gen(0, rnd='fail', back=False)
        P.raw(('rnd', 'nofail')); P.gen(0)
        plans.append(P.end())
    run_sessions(c, plans, 'key generation', parallel=8)
