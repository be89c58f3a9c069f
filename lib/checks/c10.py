"""C10: malformed key encodings."""
from ..keys import *
from .c09 import tables

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ codec specification (TLC: every one-octet damage of encodings on tiny curves); answers of the memory-checked implementation to malformed encodings compared with what the specification says they denote'
NOTE = 'KeyCodec.tla says of every octet string whether it denotes a key (and which), denotes none and must be refused, or uses a form not followed (constructed strings, indefinite lengths, fields of composite degree: there an accepted key must still decode again to itself). Mutated encodings of every element (tags, lengths, tables, curve numbers, field, coefficients, order, points, private values), truncations, one-octet changes and random octets are loaded into the memory-checked build. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'constructed and indefinite-length forms and composite or even field degrees are only checked for self-consistency of what is accepted']

def field(m, *ks):
    return seq(dint(m), dint(ks[0]) if len(ks) == 1 else seq(*[dint(k) for k in ks]))
def neg(v): return tlv(2, (-v).to_bytes(4, 'big', signed=True))

def customs(c, cv, le):
    """explicit curve bodies, good and bad"""
    w = cv.fb; f = field_der(cv.p); a = dint(cv.a); b = oct(num(le, cv.b, w)); n = dint(cv.n); g = oct(num(le, cv.compress(cv.G), w))
    o = lambda v, ww=w: oct(num(le, v, ww))
    G = cv.compress(cv.G)
    yield seq(f, a, b, n, g)
    for x in (2, 3, 255, 256, 1 << 40): yield seq(f, dint(x), b, n, g)
    yield seq(f, neg(1), b, n, g); yield seq(f, tlv(2), b, n, g); yield seq(f, dint(1 - cv.a), b, n, g)
    for x in (o(0), oct(b''), o(cv.b, w + 1), o(cv.b, w + 5), o(cv.p, w + 1), o(cv.b ^ cv.p, w + 1), o(cv.b ^ 1), oct(num(le, cv.b, w)[:-1]), o(1)): yield seq(f, a, x, n, g)
    for x in (0, 1, 2, 3, 4, cv.n - 1, cv.n + 1, cv.n + 2, 2 * cv.n, cv.n >> 1 | 1, 1 << cv.m, 1 << (cv.m + 9) | 1): yield seq(f, a, b, dint(x), g)
    yield seq(f, a, b, neg(cv.n % 1000 + 5), g); yield seq(f, a, b, tlv(2), g)
    for x in (o(0), oct(b''), oct(num(le, G, w)[:-1]), oct(num(le, G, w)[1:]), o(G, w + 1), o(G, w + 3), o(G ^ 1), o(G ^ 2), o(G ^ 4), o(1), o(G | 1 << (8 * w - 1)), oct(b'\xff' * w), oct(b'\xff' * (w + 2)), o(G ^ cv.p, w + 1)):
        yield seq(f, a, b, n, x)
    for x in (field(cv.m, cv.m), field(cv.m, cv.m + 1), field(cv.m, 0), field(0, 1), field(1, 1), field(2, 1), field(cv.m + 1, 1), field(cv.m - 1, 1), field(6000, 1), field(70000, 3), field(1 << 31, 1), field(1 << 40, 3),
              field(cv.m, 3, 2, 1), field(cv.m, 1, 2, 3), field(cv.m, 2, 2, 1), field(cv.m, 7, 5, 5), field(cv.m, cv.m, 2, 1), field(cv.m, 1, 1, 1), field(cv.m, 0, 0, 0),
              seq(neg(cv.m), dint(1)), seq(dint(cv.m), neg(3)), seq(dint(cv.m)), seq(dint(cv.m), seq()), seq(dint(cv.m), seq(dint(2), dint(1))), seq(dint(cv.m), seq(dint(3), dint(2), dint(1), dint(1))),
              seq(dint(cv.m), oct(b'\1')), seq(), dint(cv.m), seq(seq(dint(1)), dint(cv.m)), field(cv.m, 1), field(cv.m, 2), field(cv.m, 3)):
        yield seq(x, a, b, n, g)
    for x in ((f, a, b, n), (f, a, b, n, g, g), (a, f, b, n, g), (f, a, n, b, g), (f, b, n, g), (f, a, bits(b''), n, g), (f, a, b, n, bits(num(le, G, w))), ()): yield seq(*x)

def params(c, cv, le):
    i = next((i for i, k in enumerate(NAMED) if k is cv), None)
    P = oid(OID_LE + bytes([2, i])) if i is not None else custom_der(le, cv)
    sb = c.rb(64)
    yield seq(P); yield seq(P, oct(sb)); yield seq(P, oct(DEF))
    for n in (0, 1, 32, 63, 65, 128, 200): yield seq(P, oct(c.rb(n)))
    for x in (bits(sb), dint(5), tlv(5), tlv(12, sb), tlv(0x80, sb), oct(sb) + oct(sb), seq(oct(sb))): yield seq(P, x)
    for k in (10, 11, 12, 127): yield seq(oid(OID_LE + bytes([2, k])))
    yield seq(oid(OID_LE + bytes([2]))); yield seq(oid(OID_LE)); yield seq(oid(OID_LE + bytes([2, 6, 0]))); yield seq(oid(OID_LE + bytes([1, 6]))); yield seq(oid(b'\x2a\x03')); yield seq(oid(OID_BE)); yield seq(oid(OID_LE[:-1] + bytes([2, 2, 6])))
    yield seq(oid(OID_LE[:-1] + bytes([1, 2, 6]))); yield seq(oid(OID_LE + bytes([2, 0x80, 6])))
    for x in (P, tlv(5), oct(seq(P)), seq(), seq(seq()), seq(oct(sb)), seq(oct(sb), P), tlv(49, P), seq(P, P), seq(tlv(5)), dint(6), b'', seq(P, b'\4\x40')): yield x

def hurt(c, x, n):
    """random damage"""
    for _ in range(n):
        y = bytearray(x); k = c.rng.randrange(6); i = c.rng.randrange(len(y))
        if k == 0: y[i] ^= 1 << c.rng.randrange(8)
        elif k == 1: y[i] = c.rng.choice([0, 1, 127, 255, 48, 4, 3, 2, 6, 0x81, 0x82, 0x84])
        elif k == 2: y = y[:i]
        elif k == 3: del y[i]
        elif k == 4: y.insert(i, c.rng.randrange(256))
        else:
            j = c.rng.randrange(len(y)); y[i], y[j] = y[j], y[i]
        yield bytes(y)

def run(c):
    c.model('MCCodec', None if c.quick else 'MCCodecBig.cfg', workers=8)
    cvs = [NAMED[6], TINYC[1], TINYC[2]] + c.rng.sample(NAMED[:6] + NAMED[7:], 2) if c.quick else NAMED + TINYC[:6]
    plans = []
    for cv in cvs:
        for le in (True, False):
            P = KeyPlan(c); ao = oid(OID_LE if le else OID_BE)
            def alg(par): return seq(ao, par)
            d = c.rng.randrange(1, cv.n); do = oct(d.to_bytes((d.bit_length() + 7) // 8, 'little'))
            Q = cv.neg(cv.mul(d, cv.G)); qo = oct(num(le, cv.compress(Q), cv.fb)); w = cv.fb
            def priv(al, o=do, ver=0): return seq(dint(ver), al, o)
            def pub(al, o=qo): return seq(al, bits(o))
            def put(kind, der):
                P.load(kind, der, le); P.free()
            for cu in customs(c, cv, le):
                k = c.rng.randrange(3) if c.quick else 3
                if k in (0, 3): put('par', seq(cu))
                if k in (1, 3): put('pub', pub(alg(seq(cu))))
                if k in (2, 3): put('priv', priv(alg(seq(cu))))
            for pa in params(c, cv, le):
                put('par', pa); put('pub', pub(alg(pa))); put('priv', priv(alg(pa)))
            good = params_der(le, cv)
            # algorithms
            for al in (seq(ao), seq(ao, good, good), seq(good, ao), seq(), seq(oid(OID_BE if le else OID_LE), good), seq(oid(OID_LE + b'\1'), good), seq(oid(b'\x2a\x86\x48\xce\x3d\x02\x01'), good), seq(ao, tlv(5)), tlv(49, ao, good), ao):
                put('pub', pub(al)); put('priv', priv(al))
            # points
            G = cv.compress(Q); o = lambda v, ww=w: oct(num(le, v, ww))
            pts = [o(0), oct(b''), o(G, w + 1), o(G, w + 4), oct(num(le, G, w)[:-1]), oct(num(le, G, w)[1:]), o(1), o(2), o(3), oct(b'\xff' * w), oct(b'\xff' * (w + 3)), bits(num(le, G, w)), dint(G), seq(qo), b'', qo + b'\0', qo + qo, oct(b'\4' + num(le, G, w) * 2), o(cv.p, w + 1), o(G ^ cv.p, w + 1), o(cv.p ^ 1, w + 1)]
            pts += [o(c.rng.getrandbits(cv.m)) for _ in range(c.pick(8, 60))] + [o(G ^ 1 << j) for j in (range(cv.m) if not c.quick else c.rng.sample(range(cv.m), min(cv.m, 8)))]
            if 8 * w > cv.m: pts += [o(G | 1 << j) for j in range(cv.m, 8 * w)]
            for q in pts: put('pub', pub(alg(good), q))
            put('pub', seq(alg(good), qo)); put('pub', seq(alg(good), tlv(3, b'\1' + qo))); put('pub', seq(alg(good), tlv(3, b'\x08' + qo))); put('pub', seq(alg(good), tlv(3))); put('pub', seq(alg(good))); put('pub', seq(alg(good), bits(qo), bits(qo))); put('pub', seq(bits(qo), alg(good)))
            # private values
            L = lambda v: oct(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little'))
            for q in (oct(b''), oct(b'\0'), oct(bytes(40)), L(cv.n), L(2 * cv.n), L(cv.n + 1), L(cv.n - 1), L((1 << 8 * cv.nb) - 1), L(1 << 600), oct(do[2:] + b'\0'), oct(do[2:] + bytes(9)), oct(b'\0' + do[2:]), dint(d), bits(do[2:]), b'', seq(do), oct(do), L(cv.n * 5 + 3), oct(c.rb(300))):
                put('priv', priv(alg(good), q))
            for v in (1, 2, 100): put('priv', priv(alg(good), do, v))
            put('priv', seq(neg(1), alg(good), do)); put('priv', seq(alg(good), do)); put('priv', seq(dint(0), alg(good))); put('priv', seq(dint(0), do, alg(good))); put('priv', seq(dint(0), alg(good), do, tlv(0xa0)))
            put('priv', seq(dint(0), alg(good), do, tlv(0xa0, seq(oid(b'\x2a\x03'), tlv(49, oct(b'x')))))); put('priv', seq(dint(0), alg(good), do, tlv(0xa3))); put('priv', seq(dint(0), alg(good), do) + b'\0'); put('auto', priv_der(le, cv, d))
            plans.append(P.end())
            P = KeyPlan(c)
            for kind, x in (('pub', pub_der(le, cv, Q, c.rb(64), c.rng.random() < .5)), ('priv', priv_der(le, cv, d, c.rb(64), c.rng.random() < .5)), ('par', params_der(le, cv, None, True))):
                for y in hurt(c, x, c.pick(40, 600)): P.load(kind, y, le); P.free()
                for n in c.rng.sample(range(len(x)), min(len(x), c.pick(12, 200))): P.load(kind, x[:n], le); P.free()
                for n in (0, 1, 2, 5, 40): P.load(kind, c.rb(n), le); P.free()
            plans.append(P.end())
    run_sessions(c, plans, 'decoding', variant='asan', parallel=8)
