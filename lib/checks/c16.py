"""C16: IIT Key-6 containers."""
from ..stores import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of the Key-6 format down to the octets (TLC: all small containers, written, damaged and read); containers made by TLC from the specification, and damaged ones, read by the implementation, each answer compared with what the specification says the octets hold'
NOTE = 'Stores.tla specifies key derivation (ten thousand rounds of DSTU 34.311), GOST 28147 simple substitution, the container and the PKCS#8 inside with the second key of its attributes. The ciphertexts are computed by TLC from that specification, so that the implementation reads what it had no part in writing. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'DER forms the specification does not follow (indefinite lengths, keys of other kinds) may be accepted or refused',
               'the MAC field is not specified to be checked; second keys whose attributes are malformed may be left out']
PWS = [b'tect4', b'1', b'\xd0\xba\xd0\xbb\xd1\x8e\xd1\x87', b'p' * 31, b'p' * 32, b'p' * 33, b'long password ' * 9, b'a\0b', b'\xff\xfe', b'Z' * 300]

def make(jobs):
    """jobs: list of (password, [plaintext]) -> list of lists of ciphertexts"""
    return made([dict(op='key6', pw=p, plain=l, rounds=10000) for p, l in jobs])

def fill(c, x):
    n = -len(x) % 8
    return x + c.rng.choice([bytes([n]) * n, b'\0' * n, c.rb(n)])

def run(c):
    c.model('MCStore', 'MCKey6.cfg' if c.quick else 'MCKey6Big.cfg', workers=8)
    tiny = TINYC[:5]; big = [NAMED[6], NAMED[0]] if c.quick else NAMED
    jobs, meta = [], []
    for n, pw in enumerate(PWS * c.pick(1, 4)):
        cvs = tiny if n % 3 else big + tiny[:1]
        L = []
        def key(at=None, cv=None, d=None, **k):
            cv = cv or c.rng.choice(cvs); d = d if d is not None else c.rng.randrange(1, cv.n)
            return p8(c.rng.random() < .5, cv, d, c.rng.choice([None, None, c.rb(64)]), c.rng.random() < .3, at)
        cv = c.rng.choice(cvs); d = c.rng.randrange(1, cv.n)
        sec = lambda **k: second(c, cv, d, **k)
        L += [key(), key(b''), key(attr(b'\x2a\3', oct(b'v')))]
        L += [key(sec(order=o, bit=b)) for o in (0, 1, 2) for b in (False, True)]
        # positions of the values among others
        oth = [oct(b'zz'), tlv(5), dint(70), seq(), bits(b'')]
        for _ in range(c.pick(6, 20)):
            pre = [c.rng.choice([tlv(5), dint(9), oct(b'q' * 9)]) for _ in range(c.rng.randrange(4))]
            kpre = [c.rng.choice([tlv(5), dint(9), seq(dint(1))]) for _ in range(c.rng.randrange(4))]
            L.append(key(sec(pre=pre, kpre=kpre, post=[c.rng.choice([tlv(5), dint(1), oct(b'')]) for _ in range(c.rng.randrange(3))], kpost=[tlv(5)] * c.rng.randrange(2), order=c.rng.randrange(3), bit=c.rng.random() < .5)))
        # second keys that are none, extreme ones
        L += [key(second(c, cv, x)) for x in (0, 1, cv.n - 1, cv.n)]
        L += [key(attr(OID_ATTR_CURVE, curve_val(c, cv))), key(attr(OID_ATTR_KEY, key_val(d, cv.nb))), key(attr(OID_ATTR_CURVE) + attr(OID_ATTR_KEY)),
              key(attr(OID_ATTR_CURVE, curve_val(c, cv)) + attr(OID_ATTR_KEY, dint(4))), key(attr(OID_ATTR_CURVE, oct(b'')) + attr(OID_ATTR_KEY, key_val(d, cv.nb))),
              key(attr(OID_ATTR_CURVE, curve_val(c, cv, dke=b'')) + attr(OID_ATTR_KEY, key_val(d, cv.nb))), key(attr(OID_ATTR_CURVE, curve_val(c, cv, spec=seq())) + attr(OID_ATTR_KEY, key_val(d, cv.nb))),
              key(oct(b'')), key(seq(oid(b'\x2a')))]
        # not a DSTU private key
        g = key()
        L += [b'', b'junk' * 5, g[:-1], g[:-9], EC_KEY, ED_KEY, key(cv=cv, d=0), p8(True, cv, cv.n), seq(dint(0)), seq(dint(1), g[5:]), oct(g), g + c.rb(24), g + b'\0' * 64, p8(True, cv, 1, c.rb(63))]
        # on curves of every size
        for cv2 in c.rng.sample(NAMED, 2) + [NAMED[5 + n % 5]]:
            L += [key(second(c, cv2, cv2.n - 1 - c.rng.randrange(1000), order=c.rng.randrange(3), bit=c.rng.random() < .5))]
        # long ones
        if n in (1, 2): L += [key(attr(b'\x2a\3', oct(c.rb(x))) + sec(order=n)) for x in (100, 250, 1000, 4000, 20000)]
        L = [fill(c, x) for x in L]
        # one octet of the plaintext changed
        for x in c.rng.sample(L[:9], 4):
            for _ in range(c.pick(6, 40)):
                y = bytearray(x); j = c.rng.randrange(len(y)); y[j] = c.rng.choice([y[j] ^ 1 << c.rng.randrange(8), 0, 1, 127, 128, 255]); L.append(bytes(y))
        jobs.append((pw, L)); meta.append((pw, cvs))
    encs = make(jobs)
    plans = []
    def cutfield(x, j): return key6_wrap(c, x[:-j] if j else x, x[-j:] if j else b'')
    for (pw, L), E in zip(jobs, encs):
        P = StorePlan(c)
        for x in E:
            P.read('key6', key6_wrap(c, x, c.rng.choice([None, b''])), pw)
            P.read('key6', cutfield(x, c.rng.choice([1, 7, 8, 3])), pw)
        x = E[c.rng.randrange(3, 9)]
        for h in 'mfbd': P.read('key6', key6_wrap(c, x), pw, how=h)
        for j in list(range(0, 17)) + [len(x)]: P.read('key6', cutfield(x, j), pw)
        P.read('key6', key6_wrap(c, x, c.rb(3)), pw); P.read('key6', key6_wrap(c, x, c.rb(8)), pw); P.read('key6', key6_wrap(c, x, mac=b''), pw); P.read('key6', key6_wrap(c, x, mac=c.rb(200)), pw)
        plans.append(P.end())
        # passwords
        P = StorePlan(c); y = key6_wrap(c, x)
        for w in [pw[:-1], pw + b'1', pw + b'\0', pw.upper(), b'', pw[::-1], pw + pw, b' ' + pw, c.rb(8)]: P.read('key6', y, w)
        # structure and type
        for z in [key6_wrap(c, x, typ=OID_KEY6 + b'\1'), key6_wrap(c, x, typ=OID_KEY6[:-1]), key6_wrap(c, x, typ=IIT + b'\1\1'), key6_wrap(c, x, typ=IIT + b'\1\3'), key6_wrap(c, x, typ=OID_PROT), y + b'\0', y[:-1], seq(y), seq(oct(x)), x, b'',
                  seq(seq(oid(OID_KEY6), seq(oct(b'mac'), oct(b''), oct(b''))), oct(x)), seq(seq(oid(OID_KEY6), seq()), oct(x)), seq(seq(oid(OID_KEY6)), oct(x)), seq(seq(oid(OID_KEY6), seq(dint(1))), oct(x)), seq(seq(oid(OID_KEY6), seq(oct(b'm'))), bits(x)), seq(seq(oid(OID_KEY6), seq(oct(b'm'))), oct(x), oct(x)), seq(seq(oid(OID_KEY6), oct(b'm')), oct(x)), seq(seq(oid(OID_KEY6), seq(oct(b'm')), tlv(5)), oct(x)), key6_wrap(c, b''), key6_wrap(c, b'', b''), key6_wrap(c, x[:8]), key6_wrap(c, x[:-8])]:
            P.read('key6', z, pw)
        for j in c.rng.sample(range(len(y)), min(len(y), c.pick(25, 150))) + list(range(0, 30)):
            z = bytearray(y); z[j] ^= 1 << c.rng.randrange(8); P.read('key6', bytes(z), pw)
        for j in c.rng.sample(range(len(y)), min(len(y), c.pick(15, 100))): P.read('key6', y[:j], pw)
        plans.append(P.end())
    # the container the repository ships
    P = StorePlan(c)
    fx = fixture('Key-6.dat')
    if fx:
        for h in 'mfbd': P.read('key6', fx, b'tect4', how=h)
        for w in (b'tect', b'tect5', b'', b'Tect4'): P.read('key6', fx, w)
    plans.append(P.end())
    run_sessions(c, plans, 'key6', mod='TraceStore', parallel=8)
    c.sample('nine passwords; keys with and without second key, values at any position, either padding; wrong passwords, types, cut and changed containers')
