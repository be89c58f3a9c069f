"""C14: Java key stores."""
from ..stores import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of the JKS format down to the octets (TLC: all small stores, written, damaged and read); stores built from it read by the implementation, each answer compared with what the specification says the octets hold'
NOTE = 'Stores.tla specifies SHA-1, the password conversion, key protection, entries, integrity digest and the second DSTU key in PKCS#8 attributes, and says of every octet string and password pair whether it must be refused or which keys and certificates it holds. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver; certificates are opaque (built sound).'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'certificates are opaque: those of the maker are sound; for other octets in their place only acceptance of what is not DER is excluded',
               'empty passwords may be refused']
PWS = [b'123456', b'q', b'\xd0\xbf\xd0\xb0\xd1\x80\xd0\xbe\xd0\xbb\xd1\x8c', b'a\xe2\x82\xacb', b'\xf0\x9f\x94\x91key', b'x' * 70, b'a\0b', b'\x7f', b'\xc2\x80\xdf\xbf\xe0\xa0\x80\xef\xbf\xbd\xf4\x8f\xbf\xbf']
BADPW = [b'\xff', b'ab\xc3', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe2\x82', b'\x80', b'ok\xf0\x9f\x94']

def entries(c, P, kpw, spec, cvs):
    """entries for a pattern such as 'k', 'k2' (key with second), 'K3' (three certificates), 't'"""
    out, i = [], 0
    for t in spec:
        i += 1
        name = [b'', b'a', b'\xd0\xba\xd0\xbb\xd1\x8e\xd1\x87', b'n' * 40, b'alias%d' % i][c.rng.randrange(5)]
        ts = c.rng.choice([b'\0' * 8, c.rb(8), b'\xff' * 8])
        typ = c.rng.choice([b'X.509', b'X.509', b'', b'x' * 30])
        if t == 't':
            x = cert(c, c.rng.choice([0, 0, 100, 200])); P.good.append(x); out.append(jtrust(name, x, typ, ts)); continue
        cv, cv2 = c.rng.choice(cvs), c.rng.choice(cvs)
        at = second(c, cv2, c.rng.randrange(1, cv2.n), c.rng.random() < .5, order=c.rng.randrange(3)) if t[0] == 'd' else c.rng.choice([None, b'', attr(b'\x2a\3', oct(b'v'))])
        x = p8(c.rng.random() < .5, cv, c.rng.randrange(1, cv.n), c.rng.choice([None, None, c.rb(64)]), c.rng.random() < .3, at)
        certs = [cert(c) for _ in range(int(t[1]))]
        P.good += certs
        out.append(jkey(name, epki(kpw, c.rb(20), x, par=c.rng.choice([tlv(5), tlv(5), b''])), certs, typ, ts))
    return out

def run(c):
    c.model('MCStore', 'MCJks.cfg' if c.quick else 'MCJksBig.cfg', workers=8)
    plans = []
    tiny = TINYC[:4]; big = [NAMED[6], NAMED[0]] if c.quick else NAMED
    pats = [[], ['k0'], ['k1'], ['t'], ['d0'], ['d2'], ['k0', 'k0'], ['t', 'k1'], ['k1', 't'], ['d1', 'd1'], ['t', 't', 't'], ['k3', 'd2', 't', 'k0'], ['d0', 't', 'd1', 'k2', 't']]
    pats += [[c.rng.choice(['k0', 'k1', 'k2', 'd0', 'd1', 'd3', 't']) for _ in range(c.rng.randrange(1, 7))] for _ in range(c.pick(12, 120))]
    for n, pat in enumerate(pats):
        P = StorePlan(c)
        spw, kpw = c.rng.choice(PWS), c.rng.choice(PWS)
        es = entries(c, P, kpw, pat, tiny if n % 3 else big + tiny[:1])
        x = jks(es, spw, c.rng.choice([JKS, JCEKS]))
        for h in 'mfbd': P.read('jks', x, spw, kpw, h)
        # passwords
        for w in [spw[:-1], spw + b'1', spw + b'\0', kpw + b'x', b'', b'123457'] + c.rng.sample(BADPW, 3):
            P.read('jks', x, w, kpw)
        for w in [kpw[:-1], kpw + b'1', spw + b'y', b'', kpw[::-1]] + c.rng.sample(BADPW, 3):
            P.read('jks', x, spw, w)
        P.read('jks', x, kpw, spw)
        # every octet of the digest, some of the rest
        for j in list(range(len(x) - 20, len(x))) + c.rng.sample(range(len(x)), min(len(x), c.pick(30, 200))):
            y = bytearray(x); y[j] ^= 1 << c.rng.randrange(8); P.read('jks', bytes(y), spw, kpw)
        for j in c.rng.sample(range(len(x)), min(len(x), c.pick(12, 100))) + [len(x) - 1, len(x) - 20, len(x) - 21, 0, 1, 11, 12, 31]:
            P.read('jks', x[:j], spw, kpw)
        for t in (b'\0', c.rb(20), x): P.read('jks', x + t, spw, kpw)
        # the same, sealed again after the change
        for _ in range(c.pick(30, 250)):
            y = bytearray(x[:-20]); j = c.rng.randrange(len(y)); k = c.rng.randrange(3)
            if k == 0: y[j] ^= 1 << c.rng.randrange(8)
            elif k == 1: y[j] = c.rng.choice([0, 1, 2, 3, 127, 128, 255])
            else: del y[j:j + c.rng.choice([1, 4, 20])]
            P.read('jks', jseal(bytes(y), spw), spw, kpw)
        # header variants
        for m, v, cnt in ((b'\xfe\xed\xfe\xee', 2, None), (b'\xed\xfe\xed\xfe', 2, None), (JKS, 1, None), (JKS, 3, None), (JCEKS, 0x2000000, None), (JKS, 2, len(es) + 1), (JKS, 2, len(es) - 1 if es else 7), (JKS, 2, 0x7fffffff), (JKS, 2, 0xffffffff), (b'\xce\xce\xce\xcf', 2, None)):
            P.read('jks', jks(es, spw, m, v, cnt), spw, kpw)
        plans.append(P.end())
    # entries that are wrong in themselves, alone and after or before good ones
    cv = TINYC[2]
    for rep in range(c.pick(2, 12)):
        P = StorePlan(c); spw, kpw = b'st', 'ключ'.encode()
        d = c.rng.randrange(1, cv.n); g = p8(True, cv, d); C1 = cert(c); P.good.append(C1)
        good = jkey(b'g', epki(kpw, c.rb(20), g), [C1])
        rc = c.rng.choice([NAMED[0], TINYC[3]])
        bad = [jkey(b'b', epki(b'other', c.rb(20), g), []), jkey(b'b', epki(kpw, c.rb(20), g, o=OID_PBES1), []), jkey(b'b', epki(kpw, c.rb(20), g, o=b'\x2a\3\4'), []), jkey(b'b', epki(kpw, c.rb(20), g, o=OID_PROT[:-1]), []),
               jkey(b'b', epki(kpw, c.rb(20), b'junk'), []), jkey(b'b', epki(kpw, c.rb(20), b''), []), jkey(b'b', epki(kpw, c.rb(20), g[:-1]), []), jkey(b'b', epki(kpw, c.rb(20), g + b'\0\0'), []),
               jkey(b'b', seq(seq(oid(OID_PROT)), oct(c.rb(39))), []), jkey(b'b', seq(seq(oid(OID_PROT)), oct(b'')), []), jkey(b'b', b'', []), jkey(b'b', g, []), jkey(b'b', seq(oct(b'x')), []),
               jkey(b'b', epki(kpw, c.rb(20), p8(True, cv, cv.n)), []), jkey(b'b', epki(kpw, c.rb(20), p8(True, cv, d, sb=c.rb(63))), []), jkey(b'b', epki(kpw, c.rb(20), EC_KEY), []),
               jkey(b'b', epki(kpw, c.rb(20), g), [b'']), jkey(b'b', epki(kpw, c.rb(20), g), [C1, b'\5\0']), jkey(b'b', epki(kpw, c.rb(20), g), [C1[:-1]]), jtrust(b't', b''), jtrust(b't', c.rb(40)), jtrust(b't', C1 + b'\0'), jtrust(b't', seq()),
               b'\0\0\0\3' + good[4:], b'\0\0\0\0' + good[4:], b'\1\0\0\1' + good[4:], jkey(b'b', epki(kpw, c.rb(20), g) + b'\0', [])]
        # second keys: positions of values, string kinds, and attributes that hold none
        e = lambda a: jkey(b'a', epki(kpw, c.rb(20), p8(True, cv, d, attrs=a)), [])
        d2 = c.rng.randrange(1, rc.n); V = [oct(b'z'), tlv(5), dint(7), seq(), bits(b'')]
        more = [e(second(c, rc, d2, b, order=o)) for b in (False, True) for o in (0, 1, 2)]
        more += [e(second(c, rc, d2, pre=[c.rng.choice([tlv(5), dint(3), oct(b'q')])], kpre=[dint(1)])), e(second(c, rc, d2, post=[tlv(5)], kpost=[oct(b'x')])), e(second(c, rc, 0)), e(second(c, rc, rc.n)) , e(second(c, rc, rc.n - 1)), e(second(c, rc, 1)),
                 e(attr(OID_ATTR_CURVE, curve_val(c, rc))), e(attr(OID_ATTR_KEY, key_val(d2, rc.nb))), e(attr(OID_ATTR_CURVE) + attr(OID_ATTR_KEY)), e(attr(OID_ATTR_CURVE, oct(b'')) + attr(OID_ATTR_KEY, oct(b''))), e(attr(OID_ATTR_CURVE, curve_val(c, rc)) + attr(OID_ATTR_KEY, dint(4))),
                 e(attr(OID_ATTR_CURVE, curve_val(c, rc, dke=b'')) + attr(OID_ATTR_KEY, key_val(d2, rc.nb))), e(attr(OID_ATTR_CURVE, curve_val(c, rc)) + attr(OID_ATTR_KEY, oct(rbits(d2.to_bytes(rc.nb, 'little') + b'\0\0')))),
                 e(attr(OID_ATTR_CURVE, curve_val(c, rc, spec=seq())) + attr(OID_ATTR_KEY, key_val(d2, rc.nb))), e(attr(OID_ATTR_CURVE, seq(custom_der(True, rc), oct(b''), oct(b''))) + attr(OID_ATTR_KEY, key_val(d2, rc.nb))), e(b''), e(oct(b'')), e(seq(oid(b'\x2a'))), e(attr(b'\x2a\3'))]
        for b in bad + more:
            for es in ([b], [good, b], [b, good]):
                P.read('jks', jks(es, spw), spw, kpw)
        plans.append(P.end())
    # many entries, long names, chains, certificates, passwords
    for rep in range(c.pick(1, 8)):
        P = StorePlan(c); cv = c.rng.choice(tiny)
        spw, kpw = 'пароль'.encode() * c.rng.choice([11, 43, 90]), b'k' * c.rng.choice([127, 128, 129, 255, 256, 300, 1000])
        key = lambda n, cs: jkey(n, epki(kpw, c.rb(20), p8(c.rng.random() < .5, cv, c.rng.randrange(1, cv.n), attrs=c.rng.choice([None, second(c, cv, c.rng.randrange(1, cv.n))]))), cs)
        for cv2 in c.rng.sample(NAMED, 3) + [NAMED[8 + rep % 2]]:
            P.read('jks', jks([jkey(b'a', epki(kpw, c.rb(20), p8(True, cv, 1, attrs=second(c, cv2, cv2.n - 1 - c.rng.randrange(1000), c.rng.random() < .5))), [])], spw), spw, kpw)
        def C(n=0):
            x = cert(c, n); P.good.append(x); return x
        R = lambda es: [P.read('jks', jks(es, spw), spw, kpw, h) for h in 'mdfb'[:2 + c.rng.randrange(3)]]
        R([key(b'a%d' % i, []) for i in range(c.rng.choice([33, 40, 65]))] + [jtrust(b't%d' % i, C()) for i in range(c.rng.choice([17, 33, 40]))])
        R([key(b'a', [C() for _ in range(c.rng.choice([5, 9, 16, 17, 33]))]), key(b'b', [C(), C()])])
        for n in (127, 128, 255, 256, 1000, c.rng.choice([32767, 32768, 65535])): R([key(b'n' * n, [C()]), jtrust(b'm' * n, C())])
        for n in (300, 1000, 5000): R([key(b'a', [C(n), C(n // 2)]), jtrust(b'm', C(n)), key(b'b', [])])
        x = jks([jtrust(b't', C(c.rng.choice([20000, 33000]))), key(b'a', [C()])], spw)
        for y in (x[:-1], x[:-10000], x[:15000] + bytes([x[15000] ^ 1]) + x[15001:]): P.read('jks', y, spw, kpw)
        for w in (spw[:-1], spw[:-2], spw + b'x'): P.read('jks', x, w, kpw)
        for w in (kpw[:-1], kpw + b'k'): P.read('jks', x, spw, w)
        plans.append(P.end())
    # the store the repository ships
    P = StorePlan(c)
    fx = fixture('key.jks')
    if fx:
        P.good = jks_certs(fx)
        for h in 'mfbd': P.read('jks', fx, b'123456', b'qwerty', how=h)
        for a, b in ((b'123456', b'123456'), (b'qwerty', b'qwerty'), (b'12345', b'qwerty'), (b'123456', b'qwert'), (b'1234567', b'qwerty')): P.read('jks', fx, a, b)
    plans.append(P.end())
    run_sessions(c, plans, 'jks', mod='TraceStore', parallel=8)
