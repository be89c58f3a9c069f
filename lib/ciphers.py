"""Cipher sessions from TLC behaviours (GenCipher), replayed in the driver."""
from .frame import session

def param_der(iv, t):
    return bytes([48, 76, 4, 8]) + iv + bytes([4, 64]) + t

def tlv(tag, body):
    n = len(body)
    return bytes([tag]) + (bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255])) + body

def bad_params(rng):
    """DER values of other shapes than SEQUENCE { OCTET STRING(8), OCTET STRING(64) }."""
    iv, t = rng.randbytes(8), rng.randbytes(64)
    o = lambda b: tlv(4, b)
    l = [tlv(48, o(iv)), tlv(48, b''), tlv(48, o(t) + o(iv)), tlv(48, o(iv[:7]) + o(t)), tlv(48, o(iv + b'\1') + o(t)),
         tlv(48, o(iv) + o(t[:63])), tlv(48, o(iv) + o(t + b'\1')), tlv(48, o(iv[:7]) + o(t + b'\1')), tlv(48, o(iv + b'\1') + o(t[:63])),
         tlv(48, tlv(3, iv) + o(t)), tlv(48, o(iv) + tlv(3, t)), tlv(48, tlv(2, iv) + o(t)), tlv(48, o(iv) + tlv(12, t)),
         tlv(49, o(iv) + o(t)), tlv(4, o(iv) + o(t)), tlv(5, b''), tlv(48, o(iv) + o(t) + tlv(5, b'')), tlv(4, iv),
         tlv(6, bytes([42, 134, 36, 2, 1])), tlv(1, b'\xff'), tlv(2, b'\5'), tlv(48, o(iv) + b'\4\x3f' + t), tlv(48, b'\4\7' + iv + o(t)),
         tlv(48, b'\4\x09' + iv + o(t)), tlv(48, o(iv) + b'\4\x41' + t), tlv(48, b'\x24\x08' + iv + o(t)), tlv(48, o(iv) + b'\x84\x40' + t),
         tlv(48, rng.randbytes(76)), b'\x30\x81\x4b' + o(iv) + o(t[:63]), tlv(48, rng.randbytes(rng.randrange(1, 140)))]
    return [x for x in l if not (len(x) == 78 and x[:4] == bytes([48, 76, 4, 8]) and x[12:14] == bytes([4, 64]))]

class Pool:
    def __init__(self, rng):
        self.rng = rng
        r = rng.random()
        z = lambda n: bytes(n) if rng.random() < .05 else b'\xff' * n if rng.random() < .05 else rng.randbytes(n)
        self.keys = {i: z(32) for i in range(1, 10)}
        self.ivs = {i: z(8) for i in range(1, 10)}
        self.tables = {i: z(64) for i in range(1, 10)}
        self.bads = bad_params(rng)

def conc(e, pool, rng):
    ev = dict(e)
    s, op = ev['s'], ev['op']
    if op == 'init':
        ev['key'] = pool.keys[ev['key'][0]] if ev['key'] else b''
        ev['iv'] = pool.ivs[ev['iv'][0]] if ev['iv'] else b''
        cmd = ('ci_init', s, 1 if ev['cipher'] else 0, ev['enc'], ev['key'] or None, ev['iv'] or None)
    elif op == 'upd':
        n = ev.pop('len')
        ev['data'] = rng.randbytes(n)
        cmd = ('ci_upd', s, ev['data'], ev.get('off', 0), ev.get('inplace', 0), rng.randrange(3))
    elif op == 'copy':
        cmd = ('ci_copy', s, ev['from'])
    elif op == 'sbox':
        ev['data'] = pool.tables[ev['data'][0]]
        cmd = ('ci_sbox', s, ev['p1'], (ev['data'] + b'\0\0') if ev['given'] else None)
    elif op == 'setp':
        ev['data'] = param_der(pool.ivs[ev['data'][1][0]], pool.tables[ev['data'][2][0]]) if ev['data'][0] == 'der' else rng.choice(pool.bads)
        cmd = ('ci_setp', s, ev['data'])
    else:
        cmd = ('ci_' + op, s)
    return ev, cmd

def plan_from(behaviour, rng):
    pool = Pool(rng)
    plan = [conc(e, pool, rng) for e in behaviour]
    live, ready = {}, {}
    for e, _ in plan:
        s, op = e['s'], e['op']
        if op == 'new': live[s] = True; ready[s] = [0, 0]
        elif op == 'free': live[s] = False
        elif op == 'reset': ready[s] = [0, 0]
        elif op == 'copy': ready[s] = list(ready[e['from']])
        elif op == 'init':
            if e['key']: ready[s][0] = 1
            if e['iv']: ready[s][1] = 1
        elif op == 'setp' and len(e['data']) == 78 and e['data'][:4] == bytes([48, 76, 4, 8]) and e['data'][12:14] == b'\4\x40':
            ready[s][1] = 1
    # read the final stream states out, then clear the slots
    for s in sorted(live):
        if live[s]:
            if ready[s] == [1, 1]:
                for n in (11, 8):
                    plan.append(conc({'op': 'upd', 's': s, 'len': n, 'inplace': 0, 'off': 0}, pool, rng))
            plan.append(({'op': 'free', 's': s}, ('ci_free', s)))
    return plan

def run_sessions(c, plans, label, variant='plain'):
    c.validate('TraceCipher', [session(p, variant) for p in plans], redo=lambda n: session(plans[n], variant), label=label)

class Writer:
    """Hand-directed sessions on one slot."""
    def __init__(self, c, s=0):
        self.c, self.s, self.plan = c, s, [({'op': 'new', 's': s}, ('ci_new', s))]
    def init(self, cipher, enc, key, iv):
        self.plan.append(({'op': 'init', 's': self.s, 'cipher': bool(cipher), 'enc': enc, 'key': key or b'', 'iv': iv or b''},
                          ('ci_init', self.s, cipher, enc, key or None, iv or None)))
    def upd(self, data, inplace=0):
        self.plan.append(({'op': 'upd', 's': self.s, 'data': data}, ('ci_upd', self.s, data, self.c.rng.randrange(4), inplace, self.c.rng.randrange(4))))
    def sbox(self, t, p1=64, given=True):
        self.plan.append(({'op': 'sbox', 's': self.s, 'p1': p1, 'given': given, 'data': t}, ('ci_sbox', self.s, p1, t + b'\0\0' if given else None)))
    def fresh(self, enc, key, iv):
        self.plan.append(({'op': 'reset', 's': self.s}, ('ci_reset', self.s)))
        self.init(1, enc, key, iv)
    def getp(self):
        self.plan.append(({'op': 'getp', 's': self.s}, ('ci_getp', self.s)))
    def setp(self, d):
        self.plan.append(({'op': 'setp', 's': self.s, 'data': d}, ('ci_setp', self.s, d)))
    def fin(self):
        self.plan.append(({'op': 'fin', 's': self.s}, ('ci_fin', self.s)))
    def end(self):
        self.plan.append(({'op': 'free', 's': self.s}, ('ci_free', self.s)))
        return self.plan
